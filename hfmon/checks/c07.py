"""C07: a data block stays consistent under any history of updates."""
import numpy as np

from hftools.dataset import (DataBlock, hfarray, DimSweep, DimRep,
                             DimMatrix_i, DimMatrix_j)
from hftools.dataset.dataset import DataDict, change_dim
from hftools.dataset.dim import DiagAxis, DimPartial
from hftools.dataset.comments import Comments
from hftools.dataset.helper import add_var_guess
from hfmon import gen
from hfmon.blocks import MBlock, check_block, block, fmt_of, VARS
from hfmon.core import Property
from hfmon.model import Model, Pure, desc, plain, same, snap

PROP = Property(
    "C07", "Random histories (up to 25 steps) of assignments, replacements, "
    "deletions, renames, dimension replacements, format and unit changes, "
    "copies and views over a family of blocks, each in lock-step with an "
    "ordered dictionary model; every block of the family is compared and its "
    "dimension table cross-checked after every step. Distinct state = "
    "(operation, preceding operation, number of variables and dimensions).",
    ["a variable's dimensions that are already in the block agree with the "
     "block's when it is assigned; new names are fresh",
     "position of a dimension in the table is not specified"])

GUESS = {"Vds": "V", "Vgs": "V", "VDS": "V", "VGS_SET": "V", "Vbe": "V",
         "vce": "V", "Id": "A", "Ig": "A", "IS": "A", "is": "A", "Ib": "A",
         "IC": "A", "freq": "Hz", "FREQ": "Hz", "f": "Hz",
         "frequency": "Hz"}
FRESH = ["fr_%d" % k for k in range(100)]


class World(object):
    def __init__(self, ctx):
        self.blocks = []          # (db, mb)
        self.pool = gen.dim_pool(ctx, 5, classes=[DimSweep, DimSweep, DimRep,
                                                  DimPartial])
        self.fresh = iter(FRESH)


def mkdims(ctx, w, db, mb):
    """Dims for a new variable, agreeing with the block's table."""
    out = [db.ivardata[k] for k in mb.dims
           if ctx.chance(.5) and mb.dims[k][0][0] not in
           ("DimMatrix_i", "DimMatrix_j")]
    names = set(mb.dims)
    for d in w.pool:
        if d.name not in names and d.name not in mb.vars and ctx.chance(.2):
            out.append(d)
    out = ctx.shuffled(out)[:3]
    if ctx.chance(.2):
        if "i" in mb.dims:
            out += [db.ivardata["i"], db.ivardata["j"]]
        else:
            n = ctx.randint(1, 3)
            out += [gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n)]
    return out


def op_assign(ctx, w, db, mb):
    a = gen.array(ctx, mkdims(ctx, w, db, mb),
                  ctx.choice(["float", "complex", "int", "bool"]),
                  unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS))
    names = [n for n in VARS if n not in mb.dims]
    if mb.vars and ctx.chance(.4):
        names = list(mb.vars)
    name = ctx.choice(names)
    ctx.log("assign", name, a.dims)
    mb.assign(name, a)
    if ctx.chance(.5):
        db[name] = a
    else:
        setattr(db, name, a)


def op_newdim(ctx, w, db, mb):
    cand = [d for d in w.pool if d.name not in mb.dims and
            d.name not in mb.vars]
    if not cand:
        return False
    d = ctx.choice(cand)
    ctx.log("add dimension", d)
    db[d.name] = d
    mb.dims[d.name] = [desc(d), fmt_of(d)]


def op_delete(ctx, w, db, mb):
    if not mb.vars:
        return False
    name = ctx.choice(list(mb.vars))
    ctx.log("delete", name)
    if ctx.chance(.5):
        del db[name]
    else:
        delattr(db, name)
    del mb.vars[name]


def op_rename_var(ctx, w, db, mb):
    if not mb.vars:
        return False
    old = ctx.choice(list(mb.vars))
    if old in mb.dims:
        return False
    new = next(w.fresh)
    ctx.log("rename variable", old, new)
    db.rename(old, new)
    mb.rename_var(old, new)


def free_dims(mb):
    return [k for k in mb.dims
            if mb.dims[k][0][0] not in ("DimMatrix_i", "DimMatrix_j")]


def op_rename_dim(ctx, w, db, mb):
    cand = free_dims(mb)
    if not cand:
        return False
    old, new = ctx.choice(cand), next(w.fresh)
    ctx.log("rename dimension", old, new)
    d, f = mb.dims[old]
    db.rename(old, new)
    mb.set_dim(old, (d[0], new) + d[2:], f)


def op_rename_absent(ctx, w, db, mb):
    db.rename("nosuchname", next(w.fresh))


def op_replace_dim(ctx, w, db, mb):
    cand = free_dims(mb)
    if not cand:
        return False
    old = ctx.choice(cand)
    d, f = mb.dims[old]
    olddim = db.ivardata[old]
    cls = ctx.choice([DimSweep, DimRep, DimPartial])
    arg = old if ctx.chance(.5) else olddim
    if ctx.chance(.4):                      # another kind, same coordinates
        ctx.log("replace kind", old, cls.__name__)
        db.replace_dim(arg, cls)
        mb.set_dim(old, (cls.__name__,) + d[1:], f)
        return
    name = old if ctx.chance(.5) else next(w.fresh)
    new = cls(name, gen.coords(ctx, len(d[2])), unit=ctx.choice(gen.UNITS),
              outputformat=ctx.choice([None, "%.3f"]))
    ctx.log("replace dimension", old, "by", new)
    db.replace_dim(arg, new)
    mb.set_dim(old, desc(new), fmt_of(new))


def op_coords(ctx, w, db, mb):
    cand = free_dims(mb)
    if not cand:
        return False
    k = ctx.choice(cand)
    d, f = mb.dims[k]
    new = gen.coords(ctx, len(d[2]), "float")
    ctx.log("new coordinates", k, new)
    v = hfarray(new, dims=(db.ivardata[k],))
    if ctx.chance(.5):
        db[k] = v
    else:
        setattr(db, k, v)
    if f == "%d":           # default of the old, integer, coordinates
        f = "%.16e"
    mb.set_dim(k, (d[0], d[1], tuple(new), d[3]), f)


def op_coords_bad(ctx, w, db, mb):
    cand = free_dims(mb)
    if len(cand) < 2:
        return False
    a, b = ctx.sample(cand, 2)
    v = gen.array(ctx, [db.ivardata[a], db.ivardata[b]])
    ctx.raises(AttributeError, lambda: db.__setitem__(a, v),
               "two-dimensional coordinates accepted")


def op_format(ctx, w, db, mb):
    names = [k for k in mb.vars if k not in mb.dims] + free_dims(mb)
    if not names:
        return False
    k = ctx.choice(names)
    fmt = ctx.choice(["%.3e", "%i", "%.5f", "%s"])
    ctx.log("format", k, fmt)
    db.set_outputformat(k, fmt)
    if k in mb.vars:
        mb.vars[k][2] = fmt
    else:
        mb.set_dim(k, mb.dims[k][0], fmt)


def op_format_all(ctx, w, db, mb):
    fmt = ctx.choice(["%.3e", "%.5f"])
    ctx.log("format of all", fmt)
    db.outputformat = fmt
    ctx.check(db.outputformat == fmt, "block format")
    for v in mb.vars.values():
        v[2] = fmt
    for k in list(mb.dims):
        mb.set_dim(k, mb.dims[k][0], fmt)


def op_guess(ctx, w, db, mb):
    """Units are guessed from names, only where there is none."""
    names = [k for k in mb.vars] + list(mb.dims)
    how = ctx.randint(0, 3)
    if how == 0 or not names:
        ctx.log("guess units")
        db.guess_units()
        sel = names
    elif how == 1:
        sel = [ctx.choice(names)]
        ctx.log("guess unit of", sel)
        db.guess_units(sel[0])
    elif how == 2:
        sel = ctx.sample(names, ctx.randint(1, len(names)))
        ctx.log("guess units of", sel)
        db.guess_units(ctx.choice([list, tuple, set, dict.fromkeys])(sel))
    else:
        db.guess_units(False)
        sel = []
    for k in sel:
        u = GUESS.get(k)
        if k in mb.dims:
            d, f = mb.dims[k]
            if d[3] is None and u is not None:
                mb.set_dim(k, d[:3] + (u,), f)
                ctx.ev("unit guessed")
        elif k in mb.vars and mb.vars[k][1] is None:
            mb.vars[k][1] = u
            ctx.ev("unit guessed")


def op_var_guess_name(ctx, w, db, mb):
    """Rename something to a name with a well-known unit."""
    name = ctx.choice(sorted(GUESS))
    if name in mb.vars or name in mb.dims:
        return False
    if mb.vars and ctx.chance(.5):
        old = ctx.choice(list(mb.vars))
        if old in mb.dims:
            return False
        ctx.log("rename variable", old, name)
        db.rename(old, name)
        mb.rename_var(old, name)
    else:
        cand = free_dims(mb)
        if not cand:
            return False
        old = ctx.choice(cand)
        ctx.log("rename dimension", old, name)
        db.rename(old, name)
        d, f = mb.dims[old]
        mb.set_dim(old, (d[0], name) + d[2:], f)


def op_copy(ctx, w, db, mb):
    if len(w.blocks) > 3:
        return False
    ctx.log("copy")
    w.blocks.append((db.copy(), mb.copy()))
    ctx.ev("copy made")


def op_view(ctx, w, db, mb):
    if len(w.blocks) > 3:
        return False
    ctx.log("view")
    m = mb.copy()
    m.view_group = mb.view_group = True
    w.blocks.append((db.view(), m))
    ctx.ev("view made")


def op_values(ctx, w, db, mb):
    """Assign through an index: visible in this block only."""
    cand = [k for k, v in mb.vars.items() if v[0].v.ndim]
    if not cand or mb.view_group or any(m.view_group for _, m in w.blocks):
        return False
    k = ctx.choice(cand)
    m = mb.vars[k][0]
    idx = tuple(ctx.randint(0, n - 1) for n in m.v.shape)
    ctx.log("change", k, idx)
    new = not m.v[idx] if m.v.dtype == bool else m.v[idx] + 1000
    db.vardata[k][idx] = new
    m.v[idx] = new
    ctx.ev("value changed")


def op_element(ctx, w, db, mb):
    cand = [k for k, v in mb.vars.items() if len(v[0].axes) >= 2 and
            [x[0] for x in v[0].axes[-2:]] == ["DimMatrix_i", "DimMatrix_j"]
            and k[-1:].isalpha() and v[0].v.dtype != bool]
    if not cand or any(m.view_group for _, m in w.blocks):
        return False
    k = ctx.choice(cand)
    m = mb.vars[k][0]
    i, j = ctx.randint(1, m.v.shape[-2]), ctx.randint(1, m.v.shape[-1])
    d = db.vardata[k].dims[:-2]
    v = gen.array(ctx, d, "int")
    ctx.log("element", k, i, j)
    db["%s%d%d" % (k, i, j)] = v
    m.v[..., i - 1, j - 1] = plain(v)
    ctx.ev("element assigned")


def op_errors(ctx, w, db, mb):
    ctx.raises(KeyError, lambda: db["nosuchname"], "missing item found")
    ctx.raises(AttributeError, lambda: db.nosuchname, "missing attribute")
    ctx.check("nosuchname" not in db, "missing name in block")
    ctx.raises(KeyError, lambda: db.replace_dim("nosuch", DimSweep("x", 3)),
               "replaced a missing dimension")
    ctx.raises(Exception, lambda: db.set_outputformat("nosuch", "%d"),
               "format of a missing name")
    s = snap(db)
    str(db), repr(db)
    ctx.check(snap(db) == s, "report changed the block")


OPS = [op_assign] * 5 + [op_newdim, op_delete, op_rename_var, op_rename_dim,
                         op_rename_absent, op_replace_dim, op_replace_dim,
                         op_coords, op_coords_bad, op_format, op_format_all,
                         op_guess, op_guess, op_var_guess_name, op_copy,
                         op_view, op_values, op_values, op_element,
                         op_errors]


@PROP.family(quick=2500, floors=["step", "copy made", "view made",
                                 "value changed", "element assigned",
                                 "unit guessed"])
def history(ctx):
    w = World(ctx)
    w.blocks.append((DataBlock(), MBlock()))
    last = None
    for _ in range(ctx.randint(3, 25)):
        k = ctx.randint(0, len(w.blocks) - 1)
        db, mb = w.blocks[k]
        op = ctx.choice(OPS)
        ctx.log("block %d:" % k, op.__name__)
        if op(ctx, w, db, mb) is False:
            continue
        ctx.ev("step")
        ctx.ev(op.__name__)
        ctx.state(op.__name__, last, len(mb.vars), len(mb.dims))
        last = op.__name__
        for n, (b, m) in enumerate(w.blocks):
            check_block(ctx, b, m, "after %s on block %d, block %d" %
                        (op.__name__, k, n))


@PROP.family(quick=600, floors=["copy isolated"])
def copies(ctx):
    """Copies keep name, comments, variables; later changes stay apart."""
    db, pool, mat = block(ctx)
    if ctx.chance(.8):
        db.blockname = "blk"
    if ctx.chance(.8):
        db.comments = Comments(["alpha = 3", "free text", "Vgs [V] : 2"])
    for how in ("copy", "view"):
        c = getattr(db, how)()
        ctx.check(c.blockname == db.blockname, "%s: block name" % how)
        ctx.check(c.xname == db.xname, "%s: xname" % how)
        ctx.check(snap(c.comments) == snap(db.comments) or not db.comments,
                  "%s: comments" % how)
        mb = MBlock.of(db)
        if how == "copy":
            check_block(ctx, c, mb, how)
        else:
            check_block_values(ctx, c, mb, how)
    c = db.copy()
    before_db, before_c = snap(db), snap(c)
    one, other, b = (db, c, before_c) if ctx.chance(.5) else \
        (c, db, before_db)
    for k in list(one.vardata.keys()):
        v = one.vardata[k]
        v[...] = 0
        v.unit = "kg"
        v.outputformat = "%7d"
    if one.comments:
        one.comments.add_from_comment("alpha = 17")
        one.comments.property["beta"] = 3
    for k in list(one.ivardata.keys()):
        one.rename(k, k + "_r")
    one["zz"] = hfarray(1)
    one.blockname = "other"
    ctx.check(snap(other) == b, "changing one block changed its copy")
    ctx.ev("copy isolated")
    ctx.state(len(db.vardata), bool(db.comments), bool(mat))


def check_block_values(ctx, c, mb, what):
    ctx.check(c.vardata.keys() == list(mb.vars), "%s: variables" % what)
    for k, (m, u, f) in mb.vars.items():
        same(ctx, c.vardata[k], m, "%s: %s" % (what, k))


@PROP.family(quick=400, floors=["kind changed"])
def kinds(ctx):
    """change_dim replaces the kind of all sweeps, and only that."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), classes=[DimSweep, DimRep])
    db, pool, mat = block(ctx, pool=pool)
    mb = MBlock.of(db)
    for k in list(mb.dims):
        d, f = mb.dims[k]
        if d[0] == "DimSweep":
            mb.set_dim(k, ("DimPartial",) + d[1:], f)
            ctx.ev("kind changed")
    out = change_dim(db, DimSweep, DimPartial)
    check_block(ctx, out, mb, "change_dim")
    ctx.state(len(mb.vars), len(mb.dims))


@PROP.family(quick=300, floors=["guessed added name"])
def guessdb(ctx):
    """Units of names registered by the user."""
    name = "q" + gen.ident(ctx)
    unit = ctx.choice(["K", "W", "m/s"])
    db = DataBlock()
    had = ctx.choice([None, "T"])
    alone = ctx.chance(.3)             # a property, no variable
    if not alone:
        db[name] = hfarray(1.5, unit=had)
    db["other_" + name] = hfarray(2.5)
    db.comments = Comments([name + " = 4"])
    before = db.comments.property[name].unit
    add_var_guess(name, unit)
    db.guess_units()
    if alone:
        ctx.check(name not in db, "variable invented")
    else:
        ctx.check(db[name].unit == (had or unit), "guessed unit",
                  got=db[name].unit)
    ctx.check(db["other_" + name].unit is None, "unit invented")
    ctx.check(db.comments.property[name].unit == (before or unit),
              "unit of property", got=db.comments.property[name].unit)
    ctx.ev("guessed added name")
    ctx.state(unit, had)


@PROP.enum(len(GUESS))
def table(ctx):
    name = sorted(GUESS)[ctx.index]
    db = DataBlock()
    db[name] = hfarray(1.5)
    db.guess_units()
    ctx.check(db[name].unit == GUESS[name], "unit of %s" % name,
              got=db[name].unit)
    ctx.ev("unit table entry")


@PROP.family(quick=800, floors=["table compared"])
def tables(ctx):
    """The ordered tables behind a block."""
    t = DataDict()
    want = []                                  # [name, value] in order
    names = ["a", "b", "Id", "gain", "xx", "f"]

    def put(k, v):
        for e in want:
            if e[0] == k:
                e[1] = v
                return
        want.append([k, v])

    for step in range(ctx.randint(1, 15)):
        have = [e[0] for e in want]
        k = ctx.choice(names)
        v = gen.array(ctx, [DimSweep("s", ctx.randint(1, 3))],
                      fmt=ctx.choice(["%.3f", "%.7e"]), hostile=False)
        op = ctx.choice(["item", "attr", "default", "del", "delattr",
                         "rename", "onto", "copy", "view", "format"])
        ctx.log(op, k)
        if op == "item":
            t[k] = v
            put(k, v)
        elif op == "attr":
            setattr(t, k, v)
            put(k, v)
        elif op == "default":
            got = t.setdefault(k, v)
            if k not in have:
                put(k, v)
            ctx.check(got is dict((e[0], e[1]) for e in want)[k],
                      "setdefault returns what is stored")
        elif op in ("del", "delattr"):
            if k not in have:
                continue
            if op == "del":
                del t[k]
            else:
                delattr(t, k)
            want[:] = [e for e in want if e[0] != k]
        elif op == "rename":
            new = ctx.choice([n for n in names + ["fresh"] if n not in have]
                             or [None])
            if not have or new is None:
                continue
            old = ctx.choice(have)
            t.rename(old, new)
            for e in want:
                if e[0] == old:
                    e[0] = new
        elif op == "onto":                  # a name that is taken
            if len(have) < 2:
                continue
            old, new = ctx.sample(have, 2)
            t.rename(old, new)
            d = dict((e[0], e[1]) for e in want)
            want[:] = [e for e in want if e[0] != old]
            for e in want:
                if e[0] == new:
                    e[1] = d[old]
            ctx.ev("renamed onto another")
        elif op in ("copy", "view"):
            t2 = t.copy() if op == "copy" else t.view()
            for e in want:
                ctx.check(t2[e[0]] is not e[1], "%s shares objects" % op)
                ctx.check(np.shares_memory(t2[e[0]], e[1]) is
                          (op == "view"), "%s and memory" % op)
                ctx.check(snap(t2[e[0]]) == snap(e[1]), "%s differs" % op)
                e[1] = t2[e[0]]
            t = t2
        elif op == "format":
            t.outputformat = "%.2f"
            for e in want:
                ctx.check(e[1].outputformat == "%.2f", "format of all")
        ks = [e[0] for e in want]
        vs = [e[1] for e in want]
        ctx.check(list(t) == ks and list(t.keys()) == ks and len(t) ==
                  len(ks), "names in order", got=list(t), want=ks)
        ctx.check(all(a is b for a, b in zip(t.values(), vs)) and
                  len(t.values()) == len(vs), "values in order")
        for it in (t.items(), list(t.iteritems())):
            ctx.check([a for a, _ in it] == ks and
                      all(a[1] is b for a, b in zip(it, vs)),
                      "items in order")
        if want:
            ctx.check(t.outputformat == vs[0].outputformat, "format")
        for n in names:
            ctx.check((n in t) is (n in ks), "containment")
            if n in ks:
                ctx.check(getattr(t, n) is t[n] and t.get(n) is t[n],
                          "attribute")
            else:
                ctx.raises(AttributeError, lambda: getattr(t, n),
                           "missing attribute")
                ctx.raises(KeyError, lambda: t[n], "missing item")
        ctx.ev("table compared")
        ctx.state("table", op, len(ks))


@PROP.family(quick=400, floors=["x value"])
def xvalues(ctx):
    """The chosen x variable."""
    db, pool, mat = block(ctx, need=None)
    for n in list(db.ivardata.keys()) + [k for k in db.vardata.keys()
                                         if k not in db.ivardata]:
        db.xname = n
        ctx.check(db.xname == n, "x name")
        ctx.check(snap(db.xvalue) == snap(db[n]), "x value", n=n)
        ctx.ev("x value")
    ctx.state("x", len(db.vardata.keys()))


@PROP.family(quick=400, floors=["property became a variable",
                                "property left alone"])
def properties(ctx):
    """Properties become variables, never in place of what is there."""
    db, pool, mat = block(ctx, need=None)
    db.comments = Comments()
    p = db.comments.property
    free = [n for n in VARS if n not in db.vardata]
    want = {}
    for n in ctx.sample(free, ctx.randint(0, 4)):
        want[n] = p[n] = ctx.choice([
            7, -3, 2.5, "text", u"some text", hfarray(4.5, unit="V"),
            np.float64(1.25), np.datetime64("2010-03-04T05:06")])
    taken = [k for k in list(db.vardata.keys()) + list(db.ivardata.keys())
             if ctx.chance(.5)]
    for n in taken:
        p[n] = ctx.choice([3, 4.5, "text"])
    for n in ("none", "alist"):
        p[n] = None if n == "none" else [1, 2]
    mb = MBlock.of(db)
    ctx.log("properties", p)
    db.values_from_property()
    for n, v in want.items():
        ctx.check(n in db.vardata, "property lost", name=n)
        got = db.vardata[n]
        ctx.check(got.dims == () and got.item() == np.asarray(v).item(),
                  "value of property", name=n, got=got, want=v)
        ctx.check(got.unit == getattr(v, "unit", None), "unit of property")
        ctx.ev("property became a variable")
        mb.assign(n, got)
    order = list(mb.vars)
    ctx.check(list(db.vardata.keys()) == order or
              sorted(db.vardata.keys()) == sorted(order),
              "variables", got=db.vardata.keys(), want=order)
    mb.vars = type(mb.vars)((k, mb.vars[k]) for k in db.vardata.keys())
    check_block(ctx, db, mb, "values_from_property")
    for n in taken:
        ctx.ev("property left alone")
    ctx.state(len(want), len(taken))
