"""C08: selecting, sorting and regridding a data block keeps rows together."""
import itertools

import numpy as np

from hftools.dataset import (DataBlock, hfarray, DimSweep, DimRep,
                             DimMatrix_i, DimMatrix_j)
from hftools.dataset import dataset as dsm
from hftools.dataset.comments import Comments
from hfmon import gen
from hfmon.blocks import block, consistent, MBlock, VARS
from hfmon.core import Property, Skip
from hfmon.model import (Model, Pure, desc, descs, like, plain, same,
                         m_select, invariant)

PROP = Property(
    "C08", "Blocks of 1-6 variables over a pool of sweeps, repetitions and "
    "matrix dimensions (uniquely valued entries, ascending/descending/"
    "shuffled coordinates) are filtered by masks and coordinate lists, "
    "sorted by dimensions and by variables, regridded from flat rows, "
    "collapsed, squeezed and split; every variable is compared entry by "
    "entry with the row selection it must be. Distinct state = (operation, "
    "dims of the block, position of the dimension).",
    ["coordinates along a dimension are distinct",
     "regridding needs rows that form a complete grid",
     "which unused dimensions stay in the table is not specified"])


def meta(ctx, got, ref, what):
    ctx.check(got.unit == ref.unit, "%s: unit" % what, got=got.unit,
              want=ref.unit)
    ctx.check(got.outputformat == ref.outputformat, "%s: format" % what,
              got=got.outputformat, want=ref.outputformat)


def dress(ctx, db):
    if ctx.chance(.5):
        db.blockname = "blk"
    if ctx.chance(.5):
        db.comments = Comments(["alpha = 3", "text"])


def sel_of(m, dimname, keep):
    out = []
    for ax in m.axes:
        if ax[1] == dimname:
            out.append(list(keep))
        else:
            out.append(range(len(ax[2])))
    return out


def compare(ctx, out, db, dimname, keep, what, affected_meta=True):
    """out = rows *keep* of db along *dimname*."""
    ctx.check(out.vardata.keys() == db.vardata.keys(),
              "%s: variables lost or reordered" % what,
              got=out.vardata.keys(), want=db.vardata.keys())
    for k in db.vardata.keys():
        v = db.vardata[k]
        m = Model.of(v)
        same(ctx, out.vardata[k], m_select(m, sel_of(m, dimname, keep)),
             "%s: %s" % (what, k))
        has = dimname in [d.name for d in v.dims]
        if affected_meta or not has:
            meta(ctx, out.vardata[k], v, "%s: %s" % (what, k))
        ctx.ev("affected variable" if has else "unaffected variable")
    consistent(ctx, out, what)
    ctx.check(out.blockname == db.blockname, "%s: block name" % what)
    ctx.check((out.comments and out.comments.property) ==
              (db.comments and db.comments.property),
              "%s: comments lost" % what)


@PROP.family(quick=4000, floors=["filtered by mask", "filtered by list",
                                 "affected variable", "unaffected variable"])
def filter(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), maxlen=5,
                        classes=[DimSweep, DimSweep, DimRep])
    if ctx.chance(.3):       # coordinates close together, in long sweeps
        n = gen.length(ctx, 2, 24)
        pool[0] = type(pool[0])(pool[0].name, ctx.shuffled(
            ctx.choice([1e9, -3e3, 2.]) * (1 + 1e-7 * np.arange(n))),
            unit=pool[0].unit)
        d = pool[0]
        ctx.ev("close coordinates")
    else:
        d = ctx.choice(pool)
    db, pool, mat = block(ctx, pool=pool, need=d)
    dress(ctx, db)
    n = len(d.data)
    c = d.data.tolist()
    if ctx.chance(.5):
        keep = [i for i in range(n) if ctx.chance(.6)]
        mask = np.zeros(n, bool)
        mask[keep] = True
        arg = hfarray(mask, dims=(d,))
        ctx.ev("filtered by mask")
        how = "mask"
    else:
        pick = ctx.shuffled([x for x in c if ctx.chance(.6)])
        if ctx.chance(.3):
            pick.append(max(c) + 1e15)                 # not there
        if ctx.chance(.2):
            pick.append(c[0] * (1 + 1e-9))             # nearly there
        if not pick:
            raise Skip()
        keep = [i for i in range(n) if c[i] in pick]
        arg = hfarray(pick, dims=(type(d)(d.name, pick),))
        ctx.ev("filtered by list")
        how = "list"
    ctx.log("filter", how, d, "keep", keep, db.vardata.keys())
    with Pure(ctx, db, arg, what="filter"):
        out = db.filter(arg)
    compare(ctx, out, db, d.name, keep, "filter")
    ctx.check(tuple(out.ivardata[d.name].data.tolist()) ==
              tuple(c[i] for i in keep), "filtered coordinates",
              got=out.ivardata[d.name].data)
    ctx.state("filter", how, [len(v.dims) for v in db.vardata.values()],
              len(keep), n)


@PROP.family(quick=600, floors=["filtered by condition"])
def condition(ctx):
    """db.filter(db.x > limit), x being a variable or a sweep."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 3), maxlen=6,
                        classes=[DimSweep, DimRep])
    d = ctx.choice(pool)
    db, pool, mat = block(ctx, pool=pool, need=d)
    one = gen.array(ctx, [d], "float")
    db["cond"] = one
    name = "cond" if ctx.chance(.5) else d.name
    vals = plain(db[name])
    lim = float(ctx.choice(list(vals)))
    op = ctx.choice([">", "<=", "=="])
    if op == ">":
        arg, keep = db[name] > lim, np.nonzero(vals > lim)[0]
    elif op == "<=":
        arg, keep = db[name] <= lim, np.nonzero(vals <= lim)[0]
    else:
        arg, keep = db[name] == lim, np.nonzero(vals == lim)[0]
    ctx.log("filter", name, op, lim)
    with Pure(ctx, db, what="filter"):
        out = db.filter(arg)
    compare(ctx, out, db, d.name, keep, "filter by condition")
    ctx.ev("filtered by condition")
    two = gen.array(ctx, [DimSweep("p", 2), DimSweep("q", 3)], "bool")
    ctx.raises(ValueError, lambda: db.filter(two), "two-dimensional mask")
    # a list along a dimension the block has not: nothing is removed
    other = hfarray([1., 2.], dims=(DimSweep("absent", 2),))
    out = db.filter(other)
    compare(ctx, out, db, d.name, range(len(d.data)), "filter along absent")
    ctx.state(name == "cond", op, len(keep), len(vals))


@PROP.family(quick=3000, floors=["sorted by dimension",
                                 "sorted by variable"])
def sort(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), maxlen=7,
                        classes=[DimSweep, DimSweep, DimRep])
    d = ctx.choice(pool)
    db, pool, mat = block(ctx, pool=pool, need=d)
    dress(ctx, db)
    if ctx.chance(.5):
        arg = ctx.choice([d, db[d.name]])
        keyv = d.data
        ctx.ev("sorted by dimension")
    else:
        key = gen.array(ctx, [d], ctx.choice(["float", "int"]))
        db["key"] = key
        arg, keyv = key, plain(key)
        ctx.ev("sorted by variable")
    if (keyv != keyv).any():
        raise Skip()                        # nan has no place in an order
    db["rowno"] = hfarray(np.arange(len(keyv)), dims=(db.ivardata[d.name],))
    ctx.log("sort", d, keyv, db.vardata.keys())
    with Pure(ctx, db, what="sort"):
        out = db.sort(arg)
    # rows with equal keys may come in any order
    order = [int(k) for k in plain(out.vardata["rowno"])]
    ctx.check(sorted(order) == list(range(len(keyv))), "rows lost by sort",
              got=order)
    ctx.check((keyv[order][1:] >= keyv[order][:-1]).all(), "not sorted",
              got=keyv[order])
    compare(ctx, out, db, d.name, order, "sort")
    ctx.check(out.ivardata[d.name].unit == d.unit, "sort: unit of dimension")
    two = gen.array(ctx, [DimSweep("p", 2), DimSweep("q", 3)])
    ctx.raises(ValueError, lambda: db.sort(two), "sort by a table")
    out = db.sort(DimSweep("absent", [3, 1, 2]))
    compare(ctx, out, db, d.name, range(len(d.data)), "sort by absent")
    ctx.state("sort", len(keyv), [len(v.dims) for v in db.vardata.values()])


@PROP.family(quick=3000, floors=["row found in grid", "indexed", "not all"])
def hyper(ctx):
    nd = ctx.randint(1, 3)
    axes = []
    names = ctx.sample(["Va", "Vb", "Pc"], nd)
    for nm, n in zip(names, gen.lengths(ctx, nd, 1, 4)):
        kind = ctx.choice(["float", "int", "str"]) if ctx.chance(.3) \
            else "float"
        if n > 4:
            kind = ctx.choice(["float", "int"])
        if kind == "str":
            axes.append(ctx.sample(["lo", "mid", "hi", "off"], n))
        elif kind == "int":
            axes.append(ctx.sample(list(range(-3, max(9, n))), n))
        else:
            axes.append([float(x) for x in ctx.rng.permutation(n) * 1.5 - 2])
    rows = list(itertools.product(*axes))
    how = ctx.choice(["sorted", "shuffled", "shuffled"])
    if how == "shuffled":
        rows = ctx.shuffled(rows)
    n = len(rows)
    rd = ctx.choice([DimSweep, DimRep])("row", gen.coords(ctx, n))
    db = DataBlock()
    dress(ctx, db)
    units = {}
    for nm, col in zip(names, zip(*rows)):
        units[nm] = ctx.choice(gen.UNITS)
        db[nm] = hfarray(np.array(col), dims=(rd,), unit=units[nm])
    extra = [DimSweep("freq", gen.coords(ctx, ctx.randint(1, 3))),
             DimRep("rep", ctx.randint(1, 3))]
    mat = [gen.mdim(ctx, DimMatrix_i, 2), gen.mdim(ctx, DimMatrix_j, 2)]
    dep, indep = [], []
    for nm in ctx.sample(VARS, ctx.randint(1, 4)):
        dd = ctx.sample(extra, ctx.randint(0, 2))
        if ctx.chance(.75):
            dd = ctx.shuffled(dd + [rd])
            dep.append(nm)
        else:
            indep.append(nm)
        if ctx.chance(.3):
            dd = dd + mat
        db[nm] = gen.array(ctx, dd, ctx.choice(["float", "complex", "int"]),
                           unit=ctx.choice(gen.UNITS),
                           fmt=ctx.choice(gen.FMTS))
    if not dep:
        db["dep"] = gen.array(ctx, [rd])
        dep.append("dep")
    order = ctx.shuffled(names)              # requested axis order
    indexed, all_ = ctx.chance(.3), ctx.chance(.7)
    kw = {}
    if indexed:
        kw["indexed"] = True
        ctx.ev("indexed")
    if not all_:
        kw["all"] = False
        ctx.ev("not all")
    ctx.log("hyper", order, rd, rows, kw, db.vardata.keys())
    dress(ctx, db)
    with Pure(ctx, db, what="hyper"):
        out = db.hyper(order, rd if ctx.chance(.5) else "row", **kw)
    ctx.check(out.blockname == db.blockname, "hyper: block name")
    ctx.check((out.comments and out.comments.property) ==
              (db.comments and db.comments.property), "hyper: comments lost")
    suffix = "_index" if indexed else ""
    want = dep + (indep if all_ else []) + (names if indexed else [])
    ctx.check(sorted(out.vardata.keys()) == sorted(want),
              "hyper: variables", got=out.vardata.keys(), want=want)
    for nm, vals in zip(names, axes):
        got = out.ivardata[nm + suffix]
        ctx.check(list(got.data.tolist()) == sorted(vals),
                  "hyper: sweep %s" % nm, got=got.data, want=sorted(vals))
        ctx.check(got.unit == units[nm], "hyper: unit of sweep %s" % nm,
                  got=got.unit, want=units[nm])
    ctx.check("row" not in [d.name for v in out.vardata.values()
                            for d in v.dims], "hyper: row dimension left")
    cols = dict(zip(names, zip(*rows)))
    for nm in dep + (names if indexed else []):
        old, new = db.vardata[nm], out.vardata[nm]
        invariant(ctx, new, "hyper: %s" % nm)
        m = Model.of(old)
        rowax = [a[1] for a in m.axes].index("row")
        dn = [d.name for d in new.dims]
        wantn = [d.name for d in old.dims if d.name != "row"] + \
            [x + suffix for x in order]
        ctx.check(sorted(dn) == sorted(wantn), "hyper: dims of %s" % nm,
                  got=dn, want=wantn)
        rest = [a for a in m.axes if a[1] != "row"]
        for d in new.dims:
            for a in rest:
                if a[1] == d.name:
                    ctx.check(desc(d) == a, "hyper: dimension %s" % d.name)
        nv = plain(new).transpose([dn.index(x + suffix) for x in order] +
                                  [dn.index(a[1]) for a in rest])
        ov = np.moveaxis(m.v, rowax, 0)
        for r in range(n):
            pos = tuple(list(out.ivardata[x + suffix].data.tolist())
                        .index(cols[x][r]) for x in order)
            ctx.equal(nv[pos], ov[r], "hyper: row %d of %s" % (r, nm))
            ctx.ev("row found in grid")
        ctx.check(new.unit == old.unit, "hyper: unit of %s" % nm,
                  got=new.unit, want=old.unit)
    if all_:
        for nm in indep:
            same(ctx, out.vardata[nm], Model.of(db.vardata[nm]),
                 "hyper: independent %s" % nm)
    consistent(ctx, out, "hyper")
    ctx.check(out.blockname == db.blockname, "hyper: block name")
    ctx.state("hyper", nd, n, how, indexed, all_,
              [len(db.vardata[k].dims) for k in dep])


@PROP.family(quick=2000, floors=["repetition row", "without repetitions"])
def collapse(ctx):
    """remove_rep: one row per combination of repetition coordinates."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), maxlen=3,
                        classes=[DimSweep, DimRep, DimRep])
    reps = [d for d in pool if isinstance(d, DimRep)]
    if not reps or any(len(set(d.data.tolist())) < len(d.data)
                       for d in reps):
        raise Skip()
    db, pool, mat = block(ctx, pool=pool, need=reps[0])
    present = [d for d in reps if d.name in db.ivardata]
    newname = ctx.choice([None, "R"])
    ctx.log("remove_rep", db.ivardata, newname)
    with Pure(ctx, db, what="remove_rep"):
        out = db.remove_rep() if newname is None else db.remove_rep(newname)
    newname = newname or "AllReps"
    N = int(np.prod([len(d.data) for d in present]))
    ctx.check(newname in out.ivardata and
              len(out.ivardata[newname].data) == N, "collapsed dimension",
              got=out.ivardata)
    # the coordinates of the repetitions became variables over the new rows
    rowkeys = list(zip(*[plain(out.vardata[d.name]).tolist()
                         for d in present]))
    ctx.check(len(set(rowkeys)) == N == len(rowkeys), "rows are not the "
              "combinations of repetitions", got=rowkeys)
    for d in present:
        ctx.check(set(plain(out.vardata[d.name]).tolist()) ==
                  set(d.data.tolist()), "coordinates of %s" % d.name)
    for k in db.vardata.keys():
        old, new = db.vardata[k], out.vardata[k]
        m = Model.of(old)
        invariant(ctx, new, "remove_rep: %s" % k)
        mine = [d for d in present if d.name in [x.name for x in old.dims]]
        if not mine:
            same(ctx, new, m, "remove_rep: %s" % k)
            ctx.ev("without repetitions")
            continue
        rest = [a for a in m.axes if a[1] not in [d.name for d in mine]]
        dn = [x.name for x in new.dims]
        ctx.check(sorted(dn) == sorted([a[1] for a in rest] + [newname]),
                  "remove_rep: dims of %s" % k, got=dn)
        nv = plain(new).transpose([dn.index(newname)] +
                                  [dn.index(a[1]) for a in rest])
        an = [a[1] for a in m.axes]
        ov = m.v.transpose([an.index(d.name) for d in mine] +
                           [an.index(a[1]) for a in rest])
        for r, key in enumerate(rowkeys):
            pos = tuple(d.data.tolist().index(key[present.index(d)])
                        for d in mine)
            ctx.equal(nv[r], ov[pos], "remove_rep: row %d of %s" % (r, k))
            ctx.ev("repetition row")
    consistent(ctx, out, "remove_rep")
    ctx.state("reps", [len(d.data) for d in present],
              [len(v.dims) for v in db.vardata.values()])


@PROP.family(quick=1500, floors=["squeezed", "kept variables", "interpolated"])
def others(ctx):
    db, pool, mat = block(ctx, minlen=1, maxlen=3)
    dress(ctx, db)
    with Pure(ctx, db, what="squeeze"):
        out = db.squeeze()
    ctx.check(out.vardata.keys() == db.vardata.keys(), "squeeze: variables")
    for k in db.vardata.keys():
        m = Model.of(db.vardata[k])
        want = m_select(m, [0 if len(a[2]) == 1 else range(len(a[2]))
                            for a in m.axes])
        same(ctx, out.vardata[k], want, "squeeze: %s" % k)
        ctx.ev("squeezed")
    ctx.check(out.blockname == db.blockname, "squeeze: block name")
    # where in the squeezed sweeps the rows are can still be looked up
    for k, d in db.ivardata.items():
        ctx.check(k in out.ivardata and desc(out.ivardata[k]) == desc(d),
                  "squeeze: dimension %s" % k, got=out.ivardata.keys())
    names = ctx.sample(db.vardata.keys(), ctx.randint(0, len(db.vardata)))
    ask = ctx.shuffled(names + ["absent"]) if ctx.chance(.5) else names
    with Pure(ctx, db, what="keep_variables"):
        out = db.keep_variables(ask)
    ctx.check(out.vardata.keys() == [k for k in ask if k != "absent"],
              "keep_variables", got=out.vardata.keys(), want=ask)
    for k in names:
        same(ctx, out.vardata[k], Model.of(db.vardata[k]), "kept %s" % k)
        meta(ctx, out.vardata[k], db.vardata[k], "kept %s" % k)
        ctx.ev("kept variables")
    consistent(ctx, out, "keep_variables")
    ctx.check(out.blockname == db.blockname, "keep_variables: block name")
    if len(db.ivardata):
        # the sweep alone can be asked for, too
        k = ctx.choice(db.ivardata.keys())
        out = db.keep_variables([k])
        ctx.check(k in out, "keep_variables: dimension %s" % k)
        ctx.equal(plain(out[k]), db.ivardata[k].data,
                  "keep_variables: dimension %s" % k)
        ctx.check(out[k].unit == db.ivardata[k].unit,
                  "keep_variables: unit of dimension %s" % k,
                  got=out[k].unit)
        ctx.ev("kept dimension")
    # interpolation onto a permutation of existing points is a selection
    cand = [k for k in db.ivardata.keys() if k not in ("i", "j") and
            len(set(db.ivardata[k].data.tolist())) ==
            len(db.ivardata[k].data)]
    if cand:
        d = db.ivardata[ctx.choice(cand)]
        perm = ctx.shuffled(range(len(d.data)))[:ctx.randint(1, len(d.data))]
        nd = type(d)(d.name, [d.data.tolist()[i] for i in perm], unit=d.unit)
        with Pure(ctx, db, what="interpolate"):
            out = db.interpolate(nd)
        ctx.check(out.vardata.keys() == db.vardata.keys(),
                  "interpolate: variables")
        for k in db.vardata.keys():
            m = Model.of(db.vardata[k])
            same(ctx, out.vardata[k], m_select(m, sel_of(m, d.name, perm)),
                 "interpolate: %s" % k)
            meta(ctx, out.vardata[k], db.vardata[k], "interpolate: %s" % k)
        ctx.ev("interpolated")
    ctx.state("others", [v.shape for v in db.vardata.values()])


@PROP.family(quick=1200, floors=["variable delivered"])
def split(ctx):
    """Splitting by dimensions delivers each variable, unchanged."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 3), classes=[DimSweep])
    db = DataBlock()
    chain = ctx.shuffled(pool)
    for nm in ctx.sample(VARS, ctx.randint(1, 6)):
        if ctx.chance(.7):
            d = chain[ctx.randint(0, len(chain)):]
        else:
            d = ctx.sample(pool, ctx.randint(0, len(pool)))
        db[nm] = gen.array(ctx, d)
    with Pure(ctx, db, what="yield_dim_consistent_datablocks"):
        parts = list(dsm.yield_dim_consistent_datablocks(db))
    seen = set()
    for dims, part in parts:
        for k in part.vardata.keys():
            seen.add(k)
            v = part.vardata[k]
            same(ctx, v, Model.of(db.vardata[k]), "split: %s" % k)
            ctx.check(set(x.name for x in v.dims) <= set(x.name
                                                         for x in dims),
                      "split: %s has other dimensions" % k, got=v.dims,
                      want=dims)
            ctx.check(len(v.dims) >= len(dims) - 1, "split: %s has fewer "
                      "dimensions than its block" % k, got=v.dims, want=dims)
            ctx.ev("variable delivered")
    ctx.check(seen == set(db.vardata.keys()), "split: variables lost",
              got=sorted(seen), want=db.vardata.keys())
    ctx.check(len(set(map(tuple, [d for d, _ in parts]))) == len(parts),
              "split: same dimensions twice")
    ctx.state("split", sorted(len(v.dims) for v in db.vardata.values()),
              len(parts))
