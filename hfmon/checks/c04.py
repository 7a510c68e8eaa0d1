"""C04: reductions act along exactly the named dimensions."""
import numpy as np

from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j
from hftools.dataset.dim import DimBase, DiagAxis
from hftools.core import HFArrayError
from hfmon import gen
from hfmon.core import Property
from hfmon.model import Model, Pure, same, m_reduce, plain, desc, snap

PROP = Property(
    "C04", "Arrays of 1-4 axes, each reduction with the axes named as index "
    "(also negative), name, dimension object, kind, or a mixed list of those; "
    "the result is compared element by element with a naive reduction of the "
    "values at each remaining coordinate. Distinct state = (reduction, way of "
    "naming, axes, shape).")

RED = {
    "sum": lambda v: v.sum(), "mean": lambda v: v.mean(),
    "std": lambda v: v.std(), "var": lambda v: v.var(),
    "min": lambda v: v.min(), "max": lambda v: v.max(),
    "rss": lambda v: np.sqrt((np.abs(v) ** 2).sum()),
}


def arr(ctx, kinds=("float", "complex", "int")):
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), matrix=.3)
    return gen.array(ctx, ctx.shuffled(pool), ctx.choice(kinds),
                     unit=ctx.choice(gen.UNITS))


def name_axis(ctx, a, i):
    """One of the documented ways of naming axis i."""
    ways = ["index", "negative", "name", "dim", "dim"]
    d = a.dims[i]
    if sum(isinstance(x, type(d)) for x in a.dims) == 1:
        ways += ["kind", "kind"]
    w = ctx.choice(ways)
    return w, {"index": i, "negative": i - a.ndim, "name": d.name, "dim": d,
               "kind": type(d)}[w]


def some_axes(ctx, a):
    k = ctx.choice([1, 1, 1, 2, 2, 3, a.ndim])
    k = min(k, a.ndim)
    axes = [int(i) for i in ctx.rng.permutation(a.ndim)[:k]]
    named = [name_axis(ctx, a, i) for i in axes]
    ways = [w for w, _ in named]
    arg = [x for _, x in named]
    if len(arg) == 1 and ctx.chance(.6):
        return axes, ways, arg[0]
    return axes, ways, (tuple(arg) if ctx.chance(.5) else arg)


def call(ctx, a, meth, arg, **kw):
    f = getattr(a, meth)
    if ctx.chance(.5):
        return f(arg, **kw)
    return f(axis=arg, **kw)


@PROP.family(quick=8000, floors=["reduction " + k for k in RED] + ["small type"])
def reduce(ctx):
    meth = ctx.choice(sorted(RED))
    a = arr(ctx, ("float", "int", "float32") if meth in ("min", "max") else
            ("float", "complex", "int"))
    if meth != "rss" and ctx.chance(.12):
        # small types: counts and sums must not wrap around
        t = ctx.choice([bool, np.int8, np.uint8, np.int16, np.int32])
        v = ctx.rng.integers(0, 2, a.shape) if t is bool else \
            ctx.rng.integers(60, 120, a.shape)
        a = hfarray(v.astype(t), dims=a.dims)
        ctx.ev("small type")
    m = Model.of(a)
    axes, ways, arg = some_axes(ctx, a)
    if ctx.chance(.08):
        axes, ways, arg = list(range(a.ndim)), ["none"], None
    ctx.log(meth, ways, arg, a.dims)
    kw = {}
    fn = RED[meth]
    if meth in ("std", "var") and ctx.chance(.3):
        n = int(np.prod([a.shape[i] for i in axes]))
        if n > 1:
            kw["ddof"] = 1
            fn = {"std": lambda v: v.std(ddof=1),
                  "var": lambda v: v.var(ddof=1)}[meth]
    with Pure(ctx, a, what=meth):
        got = call(ctx, a, meth, arg, **kw)
    want = m_reduce(m, fn, axes)
    same(ctx, got, want, meth, exact=False, rtol=1e-9,
         atol=1e-9 * float(np.abs(m.v).max() ** 2 if m.v.size else 0))
    ctx.ev("reduction " + meth)
    ctx.state(meth, ways, axes, a.shape)


@PROP.family(quick=1500, floors=["keepdims"])
def keepdims(ctx):
    meth = ctx.choice(sorted(set(RED) - {"rss"}))
    a = arr(ctx, ("float",))
    m = Model.of(a)
    axes, ways, arg = some_axes(ctx, a)
    with Pure(ctx, a, what=meth):
        got = call(ctx, a, meth, arg, keepdims=True)
    want = m_reduce(m, RED[meth], axes)
    shp = tuple(1 if i in axes else n for i, n in enumerate(a.shape))
    ctx.close(plain(got), want.v.reshape(shp), meth + " keepdims", rtol=1e-9,
              atol=1e-9 * float(np.abs(m.v).max() ** 2))
    ctx.check([x[:2] for x in map(desc, got.dims)] == m.keys(),
              "keepdims lost a dimension", got=got.dims)
    for i, d in enumerate(got.dims):
        if i not in axes:
            ctx.check(desc(d) == m.axes[i], "keepdims changed another "
                      "dimension", got=d)
    # and combines with the original again (implicit repetition)
    diff = a - got
    ctx.close(plain(diff), (plain(a) - want.v.reshape(shp)).transpose(
        [m.keys().index(desc(d)[:2]) for d in diff.dims]),
        "array minus its kept reduction", rtol=1e-9,
        atol=1e-9 * float(np.abs(m.v).max() ** 2))
    ctx.ev("keepdims")
    ctx.state(meth, ways, axes, a.shape)


@PROP.family(quick=2500, floors=["cumulative cumsum", "cumulative cumprod"])
def cumulative(ctx):
    meth = ctx.choice(["cumsum", "cumprod"])
    a = arr(ctx, ("float", "complex", "int"))
    if ctx.chance(.15):
        a = hfarray(ctx.rng.integers(0, 2, a.shape).astype(
            ctx.choice([bool, np.int8, np.uint8])), dims=a.dims)
    elif meth == "cumprod":
        a = a / 4.
        if max(a.shape) > 30:               # neither overflow nor vanish
            a = hfarray(plain(a) / abs(plain(a)) *
                        ctx.rng.uniform(.8, 1.25, a.shape), dims=a.dims)
    m = Model.of(a)
    i = ctx.randint(0, a.ndim - 1)
    way, arg = name_axis(ctx, a, i)
    if way == "negative":
        way, arg = "index", i
    ctx.log(meth, way, arg, a.dims)
    with Pure(ctx, a, what=meth):
        got = call(ctx, a, meth, arg)
    v = np.moveaxis(m.v, i, -1)
    v = v.astype(np.cumsum(np.ones(1, v.dtype)).dtype)
    out = np.empty(v.shape, v.dtype)
    for k in np.ndindex(*v.shape[:-1]):
        acc = None
        for p in range(v.shape[-1]):
            x = v[k + (p,)]
            acc = x if acc is None else (acc + x if meth == "cumsum"
                                         else acc * x)
            out[k + (p,)] = acc
    same(ctx, got, Model(np.moveaxis(out, -1, i), m.axes), meth, exact=False,
         atol=1e-9 * float(np.abs(m.v).sum() if m.v.size else 0))
    ctx.ev("cumulative " + meth)
    ctx.raises(HFArrayError, lambda: getattr(a, meth)(None),
               meth + " over no axis")
    if a.ndim > 1 and ctx.chance(.2):
        # a kind of dimension the array has several of does not tell which
        ctx.raises(IndexError, lambda: getattr(a, meth)(DimBase),
                   meth + " over one of several axes")
        ctx.ev("ambiguous axis")
    if a.dtype.kind in "bui" and a.dtype.itemsize < 8 or ctx.chance(.1):
        dt = np.dtype(complex if a.dtype.kind == "c" else
                      ctx.choice([float, complex]))
        wide = getattr(a, meth)(arg, dtype=dt)
        ctx.check(wide.dtype == dt, meth + " dtype", got=wide.dtype)
        same(ctx, wide, Model(np.moveaxis(out, -1, i).astype(dt), m.axes),
             meth + " of a type", exact=False,
             atol=1e-9 * float(np.abs(m.v).sum() if m.v.size else 0))
        ctx.ev("cumulative of a type")
    ctx.state(meth, way, i, a.shape)


@PROP.family(quick=2500, floors=["squeeze all", "squeeze named"])
def squeeze(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), matrix=.2)
    pool = [type(d)(d.name, d.data[:1].tolist(), unit=d.unit)
            if ctx.chance(.5) else d for d in pool]
    if ctx.chance(.1):
        pool[0] = type(pool[0])(pool[0].name, [], unit=pool[0].unit)
    a = gen.array(ctx, ctx.shuffled(pool), "float",
                  unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS))
    m = Model.of(a)
    ones = [i for i in range(a.ndim) if a.shape[i] == 1]
    if ctx.chance(.5) or not ones:
        drop, way = ones, ["all"]
        with Pure(ctx, a, what="squeeze"):
            got = a.squeeze()
        ctx.ev("squeeze all")
    else:
        drop = ctx.sample(ones, ctx.randint(1, len(ones)))
        named = [name_axis(ctx, a, i) for i in drop]
        way = [w for w, _ in named]
        arg = [x for _, x in named]
        if len(arg) == 1 and ctx.chance(.5):
            arg = arg[0]
        ctx.log("squeeze", way, arg, a.dims)
        with Pure(ctx, a, what="squeeze"):
            got = a.squeeze(axis=arg)
        ctx.ev("squeeze named")
    keep = [i for i in range(a.ndim) if i not in drop]
    want = Model(m.v.reshape([a.shape[i] for i in keep]),
                 [m.axes[i] for i in keep])
    same(ctx, got, want, "squeeze")
    ctx.check(got.unit == a.unit and got.outputformat == a.outputformat,
              "squeeze lost unit or format", got=(got.unit,
                                                  got.outputformat))
    bad = [i for i in range(a.ndim) if a.shape[i] != 1]
    if bad:
        ctx.raises(Exception, lambda: a.squeeze(a.dims[bad[0]]),
                   "squeezing an axis longer than one")
    ctx.state(way, a.shape)


@PROP.family(quick=1500, floors=["absent is error", "absent left alone"])
def absent(ctx):
    a = arr(ctx, ("float",))
    before = snap(a)
    meth = ctx.choice(sorted(set(RED) - {"rss"}) + ["cumsum", "cumprod",
                                                    "squeeze", "rss"])
    names = [n for n in gen.NAMES if n not in [d.name for d in a.dims]]
    nm = ctx.choice(names)
    arg = ctx.choice([nm, DimSweep(nm, 3), DimRep(nm, 1)])
    if ctx.chance(.3):
        # right name, kind that is not there
        d = ctx.choice(a.dims)
        other = DimRep if not isinstance(d, DimRep) else DimSweep
        arg = other(d.name, d.data, unit=d.unit)
    ctx.raises(IndexError, lambda: getattr(a, meth)(arg),
               "%s over an absent dimension" % meth)
    if ctx.chance(.3):
        ctx.raises(IndexError, lambda: getattr(a, meth)(a.ndim + 1),
                   "%s over an absent index" % meth)
    ctx.ev("absent is error")
    if meth not in ("cumsum", "cumprod", "squeeze", "rss"):
        got = getattr(a, meth)(arg, dimerror=False)
        ctx.check(snap(got) == before, "%s over absent dimension with "
                  "dimerror=False changed the array" % meth)
        ctx.ev("absent left alone")
    ctx.check(snap(a) == before, "failed %s modified its array" % meth)
    ctx.state(meth, type(arg).__name__, a.shape)


@PROP.family(quick=800, floors=["kind reduction"])
def kinds(ctx):
    """A kind names all dimensions of that kind."""
    a = arr(ctx, ("float",))
    cls = ctx.choice([DimSweep, DimRep, DimMatrix_i, DiagAxis])
    axes = [i for i, d in enumerate(a.dims) if isinstance(d, cls)]
    if not axes:
        return
    meth = ctx.choice(sorted(RED))
    m = Model.of(a)
    got = getattr(a, meth)(cls)
    same(ctx, got, m_reduce(m, RED[meth], axes), meth + " over kind",
         exact=False, atol=1e-9 * float(np.abs(m.v).max() ** 2))
    ctx.ev("kind reduction")
    ctx.state(meth, cls.__name__, axes, a.shape)
