"""C25: merging blocks."""
import itertools

import numpy as np

from hftools.dataset import hfarray, DataBlock, DimSweep, DimRep, \
    DimPartial, DimMatrix_i, DimMatrix_j
from hftools.file_formats import merge_blocks
from hftools.file_formats.common import Comments
from hfmon import gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, desc, invariant

PROP = Property(
    "C25", "Conservation monitor: lists of blocks with unique values are "
    "merged (settings in any order, any subset of shared variables, grids "
    "and lists of settings, text, complex, integer and matrix data, "
    "comments), and every value of every block is looked up in the result "
    "at its block's row and its own coordinates. Distinct state = (number "
    "of blocks, settings, dimension kinds, data kinds, mode).",
    ["dimensions of length one are dropped by merging, by design",
     "a variable has data of one kind in all blocks"])

SETS = ["Vgs", "T", "Pin", "run", "zz", "A"]
VARS = ["Id", "gain", "S", "label", "n", "Tj", "flag"]


class Maker(object):
    """Blocks with the same layout and unique values."""

    def __init__(self, ctx, n, minlen=2):
        nd = ctx.choice([0, 1, 1, 1, 2])
        self.dims = []
        for nm, size in zip(ctx.sample(["f", "B", "x", "rep"], nd),
                            gen.lengths(ctx, nd, minlen, 4)):
            cls = DimRep if nm == "rep" else DimSweep
            self.dims.append(cls(nm, gen.coords(ctx, size),
                                 unit=ctx.choice([None, "Hz"])))
        k = ctx.randint(2, 3)
        self.mat = [gen.mdim(ctx, DimMatrix_i, k), gen.mdim(ctx, DimMatrix_j, k)]
        self.layout = []
        for nm in ctx.sample(VARS, ctx.randint(1, 4)):
            kind = dict(label="str", n="int", flag="bool").get(
                nm, ctx.choice(["float", "complex"]))
            ds = ctx.sample(self.dims, ctx.randint(0, nd))
            if ctx.chance(.5):
                ds = list(self.dims)
            if nm == "S":
                ds = ds + self.mat
            self.layout.append((nm, kind, ds, ctx.choice([None, "V", "W"])))
        self.count = 0

    def values(self, ctx, kind, shape):
        n = int(np.prod(shape, dtype=int))
        base = np.arange(self.count, self.count + n) * 1.0
        self.count += n
        if kind == "str":
            v = np.array(["s" * (int(b) % 4) + "%d" % b for b in base])
        elif kind == "int":
            v = base.astype(int)
        elif kind == "bool":
            v = ctx.rng.random(n) < .5
        elif kind == "complex":
            v = base + 1j * (base + .5)
        else:
            v = base + .25
        return v.reshape(shape)

    def block(self, ctx, settings, units, skip=()):
        db = DataBlock()
        order = list(settings)
        if ctx.chance(.4):
            order = ctx.shuffled(order)
        early = ctx.chance(.5)

        def put():
            for k in order:
                db[k] = DimPartial(k, [settings[k]], unit=units[k])
        if early:
            put()
        for nm, kind, ds, u in self.layout:
            if nm in skip:
                continue
            v = self.values(ctx, kind, tuple(len(d.data) for d in ds))
            db[nm] = hfarray(v, dims=tuple(ds), unit=u)
        if not early:
            put()
        return db


def comments(ctx, blocks):
    want = {}
    if ctx.chance(.15):
        # the lines of a common header
        for b in blocks:
            b.comments = Comments(["one header", "p0 = 3"])
        return {"p0": 3}
    for k, b in enumerate(blocks):
        if ctx.chance(.3):
            b.comments = Comments(["note %d" % k, "p%d = %d" % (k % 3, k)])
            want["p%d" % (k % 3)] = k
    return want


def find_row(ctx, a, dims, index, what):
    """Array with the index axes first, then *dims* (those longer than 1)."""
    gn = [d.name for d in a.dims]
    keep = [d for d in dims if len(d.data) > 1]
    want = list(index) + [d.name for d in keep]
    ctx.check(sorted(gn) == sorted(want), "%s: dimensions" % what, got=a.dims,
              want=want)
    for d in keep:
        ctx.check(desc(a.dims[gn.index(d.name)]) == desc(d),
                  "%s: dimension %s changed" % (what, d.name))
    return plain(a).transpose([gn.index(x) for x in want])


def check_comments(ctx, db, blocks, want):
    if any(b.comments for b in blocks):
        ctx.check(db.comments is not None and
                  all(float(plain(db.comments.property[k])) == v
                      for k, v in want.items() if True) and
                  sorted(db.comments.property) == sorted(want),
                  "comments of merged blocks", got=db.comments.property,
                  want=want)
        full = [c for b in blocks if b.comments
                for c in b.comments.fullcomments]
        ctx.check(list(db.comments.fullcomments) == full,
                  "comment lines of merged blocks",
                  got=db.comments.fullcomments, want=full)


def settings_of(ctx, n):
    names = ctx.sample(SETS, ctx.randint(1, 3))
    units = dict((k, ctx.choice([None, None, "V", "C"])) for k in names)
    rows = []
    for _ in range(n):
        rows.append(dict((k, float(np.round(ctx.rng.normal(), 2)) if k != "run"
                          else ctx.randint(0, 3)) for k in names))
    return names, units, rows


@PROP.family(quick=4000, thorough=60000, floors=["block row compared",
                                                 "setting compared"])
def stack(ctx):
    n = ctx.choice([1, 2, 2, 3, 4, ctx.choice([7, 7, 12, 35, 110])
                    if ctx.chance(.2) else 7])
    mk = Maker(ctx, n, minlen=ctx.choice([1, 2]))
    names, units, rows = settings_of(ctx, n)
    if ctx.chance(.15):
        names, units, rows = [], {}, [{} for _ in range(n)]
    blocks = [mk.block(ctx, r, units) for r in rows]
    if ctx.chance(.2):                  # numbers of several types
        for b in blocks:
            for nm, kind, ds, u in mk.layout:
                if kind in ("float", "int", "complex"):
                    b[nm] = hfarray(plain(b[nm]).real.astype(ctx.choice(
                        [int, float, complex, np.float32])) +
                        ctx.choice([0, .25, .5j]), dims=b[nm].dims, unit=u)
    want = comments(ctx, blocks)
    if ctx.chance(.5):
        blocks[0].blockname = "first"
        for b in blocks[1:]:
            b.blockname = "later"
    ctx.log("merge", [(list(b.vardata.keys()), list(b.ivardata.keys()))
                      for b in blocks], rows)
    with Pure(ctx, *blocks, what="merge_blocks"):
        db = merge_blocks(blocks)
    index = ["INDEX1"] if n > 1 else []
    for k in names:
        a = db[k]
        g = find_row(ctx, a, [], index, "setting %s" % k)
        ctx.equal(np.ravel(g), [r[k] for r in rows], "setting %s" % k)
        ctx.check(a.unit == units[k], "unit of setting %s" % k, got=a.unit)
        ctx.ev("setting compared")
    for nm, kind, ds, u in mk.layout:
        ctx.check(nm in db.vardata, "variable %s lost" % nm,
                  got=list(db.vardata.keys()))
        a = db[nm]
        invariant(ctx, a, nm)
        g = find_row(ctx, a, ds, index, nm)
        for k, b in enumerate(blocks):
            w = plain(b[nm]).squeeze()
            ctx.equal(g[k] if index else g, w, "%s of block %d" % (nm, k))
            ctx.ev("block row compared")
        ctx.check(a.unit == u, "unit of %s" % nm, got=a.unit, want=u)
        ctx.check(a.dtype.kind == np.result_type(
            *[b[nm].dtype for b in blocks]).kind, "data type of %s" % nm,
            got=a.dtype)
    ctx.check(set(db.vardata) == set(x[0] for x in mk.layout) | set(names),
              "variables", got=list(db.vardata.keys()))
    got = [x for x in db.vardata if x not in names]
    ctx.check(got == [x for x in blocks[0].vardata],
              "order of variables", got=got)
    for d in mk.dims:
        if any(d in x[2] for x in mk.layout):
            ctx.check(desc(db.ivardata[d.name]) == desc(d),
                      "sweep %s" % d.name, got=db.ivardata[d.name])
    ctx.check(db.blockname == blocks[0].blockname, "block name",
              got=db.blockname)
    check_comments(ctx, db, blocks, want)
    ctx.state(n, names, [(x[1], len(x[2])) for x in mk.layout])


@PROP.family(quick=2500, thorough=40000, floors=["grid point compared"])
def grid(ctx):
    names = ctx.sample(SETS, ctx.randint(1, 3))
    units = dict((k, ctx.choice([None, "V"])) for k in names)
    axes = [np.unique(np.round(ctx.rng.normal(size=ctx.randint(1, 3)), 3))
            for _ in names]
    combos = list(itertools.product(*axes))
    if len(combos) < 2:
        raise Skip()
    combos = ctx.shuffled(combos) if ctx.chance(.8) else combos
    mk = Maker(ctx, len(combos))
    rows = [dict(zip(names, [float(x) for x in c])) for c in combos]
    blocks = [mk.block(ctx, r, units) for r in rows]
    want = comments(ctx, blocks)
    ctx.log("merge hyper", rows)
    with Pure(ctx, *blocks, what="merge_blocks"):
        db = merge_blocks(blocks, hyper=True)
    pos = {}
    for k, ax in zip(names, axes):
        ctx.check(k in db.ivardata, "setting %s is no sweep" % k,
                  got=list(db.ivardata.keys()))
        d = db.ivardata[k]
        ctx.equal(d.data, ax, "sweep over %s" % k)
        ctx.check(d.unit == units[k], "unit of sweep %s" % k, got=d.unit)
        pos[k] = dict((float(x), i) for i, x in enumerate(d.data))
    live = [k for k, ax in zip(names, axes) if len(ax) > 1]
    for nm, kind, ds, u in mk.layout:
        a = db[nm]
        invariant(ctx, a, nm)
        g = find_row(ctx, a, ds, live, nm)
        for r, b in zip(rows, blocks):
            i = tuple(pos[k][r[k]] for k in live)
            ctx.equal(g[i], plain(b[nm]).squeeze(), "%s at %s" % (nm, r))
            ctx.ev("grid point compared")
        ctx.check(a.unit == u, "unit of %s" % nm, got=a.unit, want=u)
    check_comments(ctx, db, blocks, want)
    if ctx.chance(.3) and len(live) > 1:
        # a hole
        k = ctx.randint(0, len(blocks) - 1)
        rest = blocks[:k] + blocks[k + 1:]
        full = 1
        for nm in names:
            full *= len(set(float(b.ivardata[nm].data[0]) for b in rest))
        if full != len(rest):
            ctx.raises(Exception, lambda: merge_blocks(rest, hyper=True),
                       "grid with a hole accepted")
            ctx.ev("hole refused")
    ctx.state(len(names), len(live), [(x[1], len(x[2])) for x in mk.layout])


@PROP.family(quick=2500, thorough=40000, floors=["kept apart"])
def mixed(ctx):
    """Blocks that differ in settings or variables."""
    n = ctx.randint(2, 6)
    mk = Maker(ctx, n)
    names, units, rows = settings_of(ctx, n)
    blocks = []
    for r in rows:
        r2 = dict((k, v) for k, v in r.items() if ctx.chance(.7))
        skip = [x[0] for x in mk.layout if ctx.chance(.25)]
        blocks.append(mk.block(ctx, r2, units, skip))
    if not any(len(b.vardata) for b in blocks):
        raise Skip()
    ctx.log("merge mixed", [(list(b.vardata.keys()), list(b.ivardata.keys()))
                            for b in blocks])
    with Pure(ctx, *blocks, what="merge_blocks"):
        db = merge_blocks(blocks)
    part = lambda b: frozenset(k for k in names if k in b.ivardata)
    for nm, ds, u in [(x[0], x[2], x[3]) for x in mk.layout] + \
            [(k, None, units[k]) for k in names]:
        found = [k for k, b in enumerate(blocks) if nm in b]
        if not found:
            ctx.check(nm not in db, "%s from nowhere" % nm)
            continue
        ctx.check(nm in db, "%s lost" % nm, got=list(db.vardata.keys()))
        a = db[nm]
        invariant(ctx, a, nm)
        gn = [d.name for d in a.dims if d.name not in
              [x.name for x in (ds or [])]]
        ctx.check(len(gn) == (1 if len(found) > 1 else 0),
                  "one index for %s" % nm, got=a.dims)
        g = find_row(ctx, a, ds or [], gn, nm)
        for j, k in enumerate(found):
            w = plain(blocks[k][nm]).squeeze()
            ctx.equal(g[j] if gn else g, w, "%s of block %d" % (nm, k))
        if len(found) > 1:
            # two variables of the same blocks share their index, others not
            for nm2 in [x[0] for x in mk.layout] + names:
                f2 = [k for k, b in enumerate(blocks) if nm2 in b]
                if len(f2) < 2 or nm2 not in db:
                    continue
                shared = gn[0] in [d.name for d in db[nm2].dims]
                if f2 != found:
                    ctx.check(not shared, "%s and %s of different blocks "
                              "share an index" % (nm, nm2), got=gn)
                elif [k for k, b in enumerate(blocks) if part(b) ==
                        part(blocks[found[0]])] == found:
                    ctx.check(shared, "%s and %s of the same blocks have "
                              "different index" % (nm, nm2), got=gn)
        ctx.check(a.unit == u, "unit of %s" % nm, got=a.unit, want=u)
    ctx.ev("kept apart")
    ctx.state(n, sorted(set(tuple(sorted(part(b))) for b in blocks)),
              len(mk.layout))


@PROP.family(quick=800, floors=["different sweeps refused"])
def sweeps(ctx):
    n = ctx.randint(2, 4)
    mk = Maker(ctx, n)
    used = [d for d in mk.dims if any(d in x[2] for x in mk.layout)]
    if not used:
        raise Skip()
    names, units, rows = settings_of(ctx, n)
    blocks = [mk.block(ctx, r, units) for r in rows]
    d = ctx.choice(used)
    b = ctx.choice(blocks)
    c = list(d.data)
    how = ctx.choice(["value", "swap", "length"])
    if how == "value":
        k = ctx.randint(0, len(c) - 1)
        c[k] = c[k] + 1 if c[k] + 1 not in c else c[k] + 100
    elif how == "swap":
        c[0], c[1] = c[1], c[0]
    if how == "length":
        sel = len(c) - 1
        new = DataBlock()
        nd = d.__class__(d.name, c[:sel], unit=d.unit)
        for k, v in b.vardata.items():
            if d in v.dims:
                i = v.dims.index(d)
                ds = list(v.dims)
                ds[i] = nd
                v = hfarray(plain(v).take(range(sel), i), dims=tuple(ds),
                            unit=v.unit)
            new[k] = v
        for k, v in b.ivardata.items():
            if isinstance(v, DimPartial):
                new[k] = v
        blocks[blocks.index(b)] = new
    else:
        b.replace_dim(d, d.__class__(d.name, c, unit=d.unit))
    ctx.log("merge with other sweep", how, d, c)
    ctx.raises(Exception, lambda: merge_blocks(blocks),
               "blocks with different sweep merged (%s)" % how)
    ctx.ev("different sweeps refused")
    ctx.state(how, n, type(d).__name__)


@PROP.family(quick=500, floors=["turned"])
def turned(ctx):
    """The same dimensions in another order: refused, or put in order."""
    n = ctx.randint(2, 4)
    mk = Maker(ctx, n)
    two = [x for x in mk.layout if len(x[2]) > 1]
    if not two:
        raise Skip()
    names, units, rows = settings_of(ctx, n)
    blocks = [mk.block(ctx, r, units) for r in rows]
    nm, _, ds, _ = ctx.choice(two)
    b = ctx.choice(blocks)
    b[nm] = b[nm].transpose(*range(len(ds))[::-1])
    ctx.log("merge turned", nm, [x[nm].dims for x in blocks])
    try:
        db = merge_blocks(blocks)
    except Exception:
        pass
    else:
        g = find_row(ctx, db[nm], ds, ["INDEX1"], nm)
        for k, x in enumerate(blocks):
            w = plain(x[nm])
            if x is b:
                w = w.transpose()
            ctx.equal(g[k], w.squeeze(), "%s of block %d" % (nm, k))
    ctx.ev("turned")
    ctx.state(n, [d.name for d in ds])


@PROP.family(quick=600, floors=["nested value compared"])
def nested(ctx):
    """Merging the results of merging."""
    n, m = ctx.randint(2, 3), ctx.randint(2, 3)
    mk = Maker(ctx, n * m)
    inner, outer = "Vgs", "T"
    groups, allblocks = [], []
    for g in range(m):
        bl = [mk.block(ctx, {inner: float(k) + .5}, {inner: "V"})
              for k in range(n)]
        allblocks.append(bl)
        db = merge_blocks(bl)
        db[outer] = DimPartial(outer, [10. * g])
        groups.append(db)
    with Pure(ctx, *groups):
        db = merge_blocks(groups)
    invariant_all(ctx, db)
    ctx.check(plain(db[outer]).tolist() == [10. * g for g in range(m)],
              "outer setting", got=db[outer])
    od = db[outer].dims[0].name
    for nm, kind, ds, u in mk.layout:
        a = db[nm]
        names = [d.name for d in a.dims]
        ctx.check(len(set(names)) == len(names), "dimension twice",
                  got=a.dims)
        idim = [x for x in names if x not in [d.name for d in ds] and
                x != od]
        ctx.check(len(idim) == 1 and od in names, "dimensions of %s" % nm,
                  got=a.dims)
        v = plain(a).transpose([names.index(x) for x in [od, idim[0]] +
                                [d.name for d in ds]])
        for g in range(m):
            for k in range(n):
                w = plain(allblocks[g][k][nm])
                ctx.check(np.array_equal(v[g, k], w), "value of %s" % nm,
                          got=v[g, k], want=w)
                ctx.ev("nested value compared")
    ctx.state("nested", n, m, len(mk.layout))


def invariant_all(ctx, db):
    for k in db.vardata.keys():
        invariant(ctx, db.vardata[k], "merged %s" % k)
