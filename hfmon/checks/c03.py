"""C03: indexing selects the labelled values and labels the selection."""
import numpy as np

from hftools.dataset import hfarray, DimSweep
from hftools.dataset.arrayobj import _hfarray
from hfmon import gen
from hfmon.arrayops import index, finish
from hfmon.core import Property
from hfmon.model import Model, Pure, same, m_select, plain, desc, snap, \
    invariant

PROP = Property(
    "C03", "Arrays of 0-4 axes (any kinds, coordinates ascending, descending "
    "or shuffled, hostile layouts) are indexed with random integers, slices "
    "with any start/stop/step (also out of range and empty), ellipsis, lists, "
    "integer and boolean arrays, labelled integer arrays and labelled masks; "
    "the selection is compared with a per-axis reference selection. Distinct "
    "state = (index form, shape, kinds).")


def arr(ctx, lo=0, kind=None):
    pool = gen.dim_pool(ctx, ctx.randint(lo, 4), matrix=.25)
    return gen.array(ctx, ctx.shuffled(pool),
                     kind or ctx.choice(["float", "complex", "int", "bool"]),
                     unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS))


def meta(ctx, got, a, what):
    if isinstance(got, _hfarray):
        ctx.check(got.unit == a.unit, "%s: unit of the array lost" % what,
                  got=got.unit, want=a.unit)
        ctx.check(got.outputformat == a.outputformat,
                  "%s: output format lost" % what, got=got.outputformat,
                  want=a.outputformat)


@PROP.family(quick=9000, floors=["basic selection", "ellipsis used"])
def basic(ctx):
    a = arr(ctx)
    m = Model.of(a)
    idx, sels = index(ctx, m)
    key = finish(ctx, idx, a.ndim)
    ctx.log(a.dims, "[%r]" % (key,))
    with Pure(ctx, a, what="indexing"):
        got = a[key]
    want = m_select(m, sels)
    if want.v.ndim == 0 and not isinstance(got, _hfarray):
        ctx.equal(got, want.v, "scalar selection")
    else:
        same(ctx, got, want, "selection")
        ctx.check(type(got) is type(a), "selection lost its class",
                  got=type(got))
    meta(ctx, got, a, "selection")
    ctx.ev("basic selection")
    if "Ellipsis" in repr(key):
        ctx.ev("ellipsis used")
    ctx.state([type(i).__name__ for i in idx], a.shape,
              [x[0] for x in m.axes])


@PROP.family(quick=3000, floors=["fancy selection"])
def fancy(ctx):
    a = arr(ctx, lo=1)
    m = Model.of(a)
    idx, sels = index(ctx, m, kinds=["slice", "all", "all", "list", "nd",
                                     "npmask"])
    key = finish(ctx, idx, a.ndim)
    ctx.log(a.dims, "[%r]" % (key,))
    with Pure(ctx, a, what="indexing"):
        got = a[key]
    same(ctx, got, m_select(m, sels), "list selection")
    meta(ctx, got, a, "list selection")
    ctx.ev("fancy selection")
    ctx.state([type(i).__name__ for i in idx], a.shape)


@PROP.family(quick=1500, floors=["labelled index"])
def labelled(ctx):
    """Labelled integer array along one axis relabels that axis."""
    a = arr(ctx, lo=1)
    if any(n == 0 for n in a.shape):
        return
    m = Model.of(a)
    ax = ctx.randint(0, a.ndim - 1)
    d = a.dims[ax]
    n = a.shape[ax]
    sel = [ctx.randint(-n, n - 1) for _ in range(ctx.randint(1, n + 1))]
    newd = type(d)(d.name, gen.coords(ctx, len(sel)), unit=d.unit)
    lab = hfarray(sel, dims=(newd,))
    idx = [slice(None)] * a.ndim
    idx[ax] = lab
    while len(idx) > ax + 1 and ctx.chance(.5):
        idx.pop()
    key = tuple(idx) if len(idx) > 1 or ctx.chance(.5) else idx[0]
    ctx.log(a.dims, ax, sel, newd.data)
    with Pure(ctx, a, lab, what="indexing"):
        got = a[key]
    want = m_select(m, [[s % n for s in sel] if i == ax else
                        list(range(k)) for i, k in enumerate(a.shape)])
    want.axes[ax] = desc(newd)
    same(ctx, got, want, "labelled selection")
    meta(ctx, got, a, "labelled selection")
    ctx.ev("labelled index")
    ctx.state(ax, a.shape, len(sel))


@PROP.family(quick=4000, floors=["1-d mask", "n-d mask"])
def masks(ctx):
    a = arr(ctx, lo=1)
    m = Model.of(a)
    k = ctx.randint(1, a.ndim)
    if ctx.chance(.5):
        k = 1
    axes = [int(i) for i in ctx.rng.permutation(a.ndim)[:k]]
    if ctx.chance(.5):
        axes.sort()
    md = [a.dims[i] for i in axes]
    mask = hfarray(ctx.rng.random([a.shape[i] for i in axes]) <
                   ctx.choice([.5, .5, 0., 1.]), dims=tuple(md))
    mv = plain(mask)
    if k == 1 and ctx.chance(.4) and a.shape[axes[0]]:
        # the natural way: compare the coordinates
        v = hfarray(md[0])
        thr = sorted(md[0].data.tolist())[ctx.randint(0, a.shape[axes[0]]
                                                      - 1)]
        mask = ctx.choice([lambda: v == thr, lambda: v > thr,
                           lambda: v <= thr, lambda: v != thr])()
        mv = plain(mask)
        ctx.check(mv.dtype == bool and mv.shape == (a.shape[axes[0]],),
                  "comparison of coordinates is no mask", got=mv)
    ctx.log(a.dims, "mask over", mask.dims, mv.tolist())
    with Pure(ctx, a, mask, what="masking"):
        got = a[mask]
    invariant(ctx, got, "mask selection")
    # the masked axes are replaced by one where the first of them was
    # (counted among the array's own axes)
    first = min(axes)
    before = list(range(first))
    rest = [i for i in range(a.ndim) if i not in axes and i not in before]
    v = np.transpose(m.v, before + axes + rest)
    sel = np.array(np.nonzero(mv)).reshape(k, -1).T
    shp = tuple(a.shape[i] for i in before) + (len(sel),) + \
        tuple(a.shape[i] for i in rest)
    out = np.empty(shp, v.dtype)
    for p, s in enumerate(sel):
        out[(slice(None),) * len(before) + (p,)] = \
            v[(slice(None),) * len(before) + tuple(s)]
    ctx.equal(plain(got), out, "mask selection: wrong values")
    gd = [desc(d) for d in got.dims]
    want = [m.axes[i] for i in before] + [None] + [m.axes[i] for i in rest]
    for i, w in enumerate(want):
        if w is not None:
            ctx.check(gd[i] == w, "mask selection: wrong dimension",
                      got=gd, want=want)
    if k == 1:
        w = m.axes[axes[0]]
        w = (w[0], w[1], tuple(w[2][int(i)] for i in np.nonzero(mv)[0]), w[3])
        ctx.check(gd[len(before)] == w, "mask selection: wrong coordinates",
                  got=gd, want=w)
        ctx.ev("1-d mask")
    else:
        ctx.check(gd[len(before)][1] not in [x[1] for x in m.axes],
                  "mask selection: name of the new dimension is taken",
                  got=gd)
        ctx.ev("n-d mask")
    meta(ctx, got, a, "mask selection")
    ctx.state(k, axes, a.shape, int(mv.sum()))


@PROP.family(quick=700, floors=["chain of masks"])
def mask_chain(ctx):
    """Masks over several axes, again and again: the new axes stay apart."""
    names = ctx.sample(gen.NAMES, 6)
    pool = [DimSweep(n, gen.coords(ctx, 2)) for n in names]
    a = gen.array(ctx, pool, "float")
    for _ in range(4):
        own = [d for d in a.dims if d.name in names]
        if len(own) < 2 or ctx.chance(.35):
            # drop an axis (often one of an earlier mask) first
            new = [d for d in a.dims if d.name not in names]
            if new and a.ndim > 2 and ctx.chance(.8):
                d = ctx.choice(new)
                k = a.dims.index(d)
                if a.shape[k]:
                    a = a.take(0, axis=d) if ctx.chance(.5) else \
                        a[(slice(None),) * k + (0,)]
            own = [d for d in a.dims if d.name in names]
        if len(own) < 2:
            break
        md = ctx.sample(own, 2)
        mask = hfarray(ctx.rng.random([len(d.data) for d in md]) < .7,
                       dims=tuple(md))
        old = Model.of(a)
        a = a[mask]
        invariant(ctx, a, "mask after mask")
        got = [d.name for d in a.dims]
        ctx.check(len(set(got)) == len(got), "two axes of the same name",
                  got=a.dims, before=old.axes)
        ctx.check(all(desc(d) in old.axes for d in a.dims
                      if d.name in [x[1] for x in old.axes]),
                  "mask changed another axis", got=a.dims, before=old.axes)
        want = old.v
        pos = [[x[1] for x in old.axes].index(d.name) for d in md]
        rest = [i for i in range(want.ndim) if i not in pos]
        want = np.transpose(want, pos + rest)[plain(mask)]
        k = [i for i, n in enumerate(got) if n not in
             [x[1] for x in old.axes]]
        ctx.check(len(k) == 1, "mask must give one new axis", got=a.dims)
        ctx.equal(np.moveaxis(plain(a), k[0], 0), want, "mask after mask")
        ctx.ev("chain of masks")
    ctx.state(a.shape)


@PROP.family(quick=4000, floors=["assignment", "element write"])
def assign(ctx):
    a = arr(ctx, kind=ctx.choice(["float", "complex", "int"]))
    a = a.copy()
    m = Model.of(a)
    before = snap(a)
    form = ctx.choice(["basic", "basic", "mask", "list"])
    if form == "mask" and a.ndim:
        mv = ctx.rng.random(a.shape) < .5
        key = hfarray(mv, dims=a.dims)
        where = mv
        shape = ()
    else:
        kinds = ["int", "slice", "all"] if form == "basic" else \
            ["slice", "all", "list", "npmask"]
        idx, sels = index(ctx, m, kinds=kinds)
        key = finish(ctx, idx, a.ndim)
        where = np.zeros(a.shape, bool)
        g = [[s] if isinstance(s, int) else s for s in sels]
        if a.ndim:
            where[np.ix_(*[np.asarray(x, int) for x in g])] = True
        else:
            where[...] = True
        shape = tuple(len(s) for s in sels if not isinstance(s, int))
    val = -12345
    ctx.log("assign", a.dims, "[%r]" % (key,))
    want = m.v.copy()
    want[where] = val
    if form == "basic" and ctx.chance(.5):
        vals = (-1000 - np.arange(int(np.prod(shape, dtype=int)))).reshape(
            shape)
        want = m.v.copy()
        if a.ndim:
            full = [len(x) for x in g]
            want[np.ix_(*[np.asarray(x, int) for x in g])] = \
                vals.reshape(full)
        else:
            want[...] = vals
        a[key] = vals
    else:
        a[key] = val
    ctx.equal(plain(a), want, "assignment changed other elements or missed "
              "some")
    after = snap(a)
    ctx.check(before[:4] == after[:4] and before[5:] == after[5:],
              "assignment changed dimensions, unit or format")
    ctx.ev("assignment")
    ctx.ev("element write", int(where.sum()))
    ctx.state(form, a.shape, [type(i).__name__ for i in
                              (key if isinstance(key, tuple) else (key,))])


@PROP.family(quick=600, floors=["view write"])
def views(ctx):
    """Basic selections share memory with the array (writes go through)."""
    a = arr(ctx, lo=1, kind="float").copy()
    m = Model.of(a)
    idx, sels = index(ctx, m, kinds=["slice", "all"])
    b = a[tuple(idx)]
    if not b.size:
        return
    b[...] = -7.0
    want = m.v.copy()
    want[np.ix_(*[np.asarray(s, int) for s in sels])] = -7.0
    ctx.equal(plain(a), want, "write through a slice")
    ctx.ev("view write")
    ctx.state(a.shape, sels)
