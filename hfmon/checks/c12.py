"""C12: interpolation and smoothing reproduce what they promise."""
import bisect

import numpy as np

import hftools.math as hm
from hftools.dataset import hfarray, DimSweep, DimRep, DataBlock
from hftools.dataset import dataset as dsm
from hfmon import gen
from hfmon.core import Property
from hfmon.model import Model, Pure, plain, desc, descs, invariant, same

PROP = Property(
    "C12", "Random nodes and query points (nodes themselves, between nodes, "
    "outside), real and complex data with extra dimensions; smoothing of all "
    "odd window lengths along every axis; polynomial smoothing of exact "
    "polynomials; labelled interpolation along any axis. Oracles: scalar "
    "definitions evaluated per point. Distinct state = (function, sizes, "
    "axis, window).")


def nodes(ctx, n):
    return np.cumsum(ctx.rng.uniform(.1, 1, n)) * 10.0 ** ctx.randint(-3, 3)


def queries(ctx, x, inside=True, n=None):
    n = n or ctx.randint(1, 8)
    out = []
    for _ in range(n):
        k = ctx.randint(0, 2)
        if k == 0:
            out.append(float(ctx.choice(list(x))))
        elif k == 1 or inside:
            out.append(float(ctx.rng.uniform(x[0], x[-1])))
        else:
            span = x[-1] - x[0]
            out.append(float(ctx.choice([x[0] - span * ctx.rng.random(),
                                         x[-1] + span * ctx.rng.random()])))
    return np.array(out)


def line(x, y, q):
    """Scalar reference: the segment whose nodes enclose q."""
    if len(x) == 2:
        k = 0
    else:
        k = min(max(bisect.bisect_right(list(x), q) - 1, 0), len(x) - 2)
    t = (q - x[k]) / (x[k + 1] - x[k])
    return y[k] + t * (y[k + 1] - y[k])


@PROP.family(quick=3000, floors=["interpolated", "extrapolated", "rejected"])
def piecewise(ctx):
    n = gen.length(ctx, 2, 8)
    x = nodes(ctx, n)
    y = ctx.rng.normal(size=n) + 1j * ctx.rng.normal(size=n) * ctx.randint(
        0, 1)
    if not np.iscomplexobj(y) or ctx.chance(.3):
        y = y.real
    if ctx.chance(.2):
        y = np.round(y.real * 20).astype(int)
    inside = ctx.chance(.5)
    q = queries(ctx, x, inside)
    ctx.log("x", x, "y", y, "q", q)
    f = hm.interpolate if inside else hm.linear_extrapolate
    as_list = ctx.chance(.3)
    args = (list(x), list(y), list(q)) if as_list else (x, y, q)
    with Pure(ctx, x, y, q, what="interpolate"):
        got = f(*args)
    want = np.array([line(x, y, v) for v in q])
    scale = np.abs(y).max() + np.abs(want).max()
    ctx.close(got, want, "piecewise linear", rtol=1e-9, atol=1e-10 * scale)
    ctx.ev("interpolated" if inside else "extrapolated", len(q))
    for v, g in zip(q, got):
        if v in x:
            ctx.close(g, y[list(x).index(v)], "not through its node",
                      rtol=1e-10, atol=1e-12 * scale)
            ctx.ev("node hit")
    # scalars
    ctx.close(np.asarray(f(x, y, q[0])), want[0], "scalar query", rtol=1e-9,
              atol=1e-10 * scale)
    lo = x[0] - abs(x[-1] - x[0]) * 10.0 ** -ctx.randint(1, 6)
    hi = x[-1] + abs(x[-1] - x[0]) * 10.0 ** -ctx.randint(1, 6)
    ctx.raises(ValueError, lambda: hm.interpolate(x, y, np.append(q, lo)
                                                  if inside else lo),
               "point below the range accepted")
    ctx.raises(ValueError, lambda: hm.interpolate(x, y, np.append(q, hi)
                                                  if inside else hi),
               "point above the range accepted")
    ctx.ev("rejected", 2)
    ctx.state(n, inside, len(q), y.dtype.kind)


def mean_window(v, i, half):
    n = len(v)
    w = min(half, i, n - 1 - i)
    return sum(v[i - w:i + w + 1]) / (2 * w + 1)


@PROP.family(quick=2500, floors=["smoothed point", "end point"])
def smooth(ctx):
    dims = gen.dim_pool(ctx, ctx.randint(1, 3), maxlen=3)
    ax = ctx.randint(0, len(dims) - 1)
    n = gen.length(ctx, 1, 15)
    dims[ax] = DimSweep(dims[ax].name, gen.coords(ctx, n))
    a = gen.array(ctx, dims, ctx.choice(["float", "complex", "int"]))
    ap = ctx.choice([1, 3, 5, 7, 9])
    if n > 30 and ctx.chance(.6):
        ap = 2 * ctx.randint(5, n // 2 + 3) + 1
    lab = ctx.chance(.6)
    arg = a if lab else plain(a)
    ctx.log("smooth", a.shape, ap, ax)
    with Pure(ctx, a, what="smooth"):
        got = hm.smooth(arg, ap) if ax == 0 and ctx.chance(.5) else \
            hm.smooth(arg, ap, axis=ax - (len(dims) if ctx.chance(.3)
                                          else 0))
    v = np.moveaxis(plain(a), ax, 0)
    g = np.moveaxis(plain(got), ax, 0)
    ctx.check(g.shape == v.shape, "smoothing changed the shape",
              got=g.shape)
    for i in range(n):
        ctx.close(g[i], mean_window(v, i, ap // 2), "window mean at %d" % i,
                  rtol=1e-9, atol=1e-12 * np.abs(v).max())
        ctx.ev("smoothed point")
    ctx.equal(g[0], v[0], "first point changed")
    ctx.equal(g[-1], v[-1], "last point changed")
    ctx.ev("end point", 2)
    if lab:
        ctx.check(descs(got.dims) == descs(a.dims), "smooth lost dimensions")
    # even windows stay inside the range of the samples they cover
    ev = plain(hm.smooth(plain(a).real, ap + 1, axis=ax))
    ev = np.moveaxis(ev, ax, 0)
    vr = v.real
    for i in range(n):
        w = min(i, (ap + 1) // 2, n - 1 - i)
        lo = vr[max(i - w, 0):i + w + 1].min(axis=0)
        hi = vr[max(i - w, 0):i + w + 1].max(axis=0)
        tol = 1e-9 * np.abs(vr).max()
        ctx.check(((ev[i] >= lo - tol) & (ev[i] <= hi + tol)).all(),
                  "even window at %d leaves its samples" % i)
        if w == (ap + 1) // 2:
            # as many samples as asked for, the point among them
            near = [abs(ev[i] - vr[i - w + s:i + w + s].mean(axis=0)).max()
                    for s in (0, 1)]
            ctx.check(min(near) <= tol, "even window at %d" % i, got=ev[i])
            ctx.ev("even window")
    ctx.state(a.shape, ap, ax, lab)


@PROP.family(quick=1200, floors=["magnitude/phase smoothed"])
def magphase(ctx):
    dims = gen.dim_pool(ctx, ctx.randint(1, 2), maxlen=3)
    n = gen.length(ctx, 2, 12)
    dims[0] = DimSweep(dims[0].name, gen.coords(ctx, n))
    shp = tuple(len(d.data) for d in dims)
    ph = np.cumsum(ctx.rng.uniform(-2.8, 2.8, shp), axis=0)
    mag = 10 ** ctx.rng.uniform(-1, 1, shp)
    a = hfarray(mag * np.exp(1j * ph), dims=tuple(dims))
    ap = ctx.choice([1, 3, 5])
    with Pure(ctx, a, what="smooth_magphase"):
        got = hm.smooth_magphase(a, ap)
    want = np.array([mean_window(mag, i, ap // 2) *
                     np.exp(1j * mean_window(ph, i, ap // 2))
                     for i in range(n)])
    # the phase is known up to full turns per column, which the mean keeps
    ctx.close(plain(got), want, "smooth_magphase", rtol=1e-7, atol=1e-9)
    ctx.check(descs(got.dims) == descs(a.dims), "dims lost")
    ctx.ev("magnitude/phase smoothed", n)
    ctx.state(shp, ap)


@PROP.family(quick=1500, floors=["polynomial reproduced"])
def poly(ctx):
    n = gen.length(ctx, 6, 20)
    N = ctx.randint(0, 3)
    ap = ctx.randint(N + 1, min(n - 2, N + 5))
    x = np.cumsum(ctx.rng.uniform(.5, 1, n))
    x = x - x.mean()
    cols = ctx.randint(0, 2)
    c = ctx.rng.normal(size=(N + 1,) + ((cols,) if cols else ()))
    y = sum(c[k] * (x.reshape((-1,) + (1,) * (c.ndim - 1)) ** k)
            for k in range(N + 1))
    lab = ctx.chance(.5) and not cols
    X, Y = x, y
    if lab:
        d = DimSweep("x", x)
        X, Y = hfarray(d), hfarray(y, dims=(d,))
    kw = {} if N == 3 and ctx.chance(.5) else {"N": N}
    ctx.log("poly", n, N, ap, cols)
    with Pure(ctx, X, Y, what="poly_smooth"):
        got = hm.poly_smooth(X, Y, ap, **kw)
    ctx.close(plain(got), y, "polynomial of degree %d not reproduced" % N,
              rtol=1e-5, atol=1e-5 * np.abs(y).max())
    ctx.ev("polynomial reproduced", n)
    if not cols and N >= 1:
        # linear phase, constant magnitude
        z = hfarray(2.0 * np.exp(1j * 0.4 * x), dims=(DimSweep("x", x),))
        g = hm.poly_smooth_magphase(hfarray(DimSweep("x", x)), z, ap, N=N)
        ctx.close(plain(g), plain(z), "linear phase not reproduced",
                  rtol=1e-5, atol=1e-5)
    ctx.state(n, N, ap, cols, lab)


@PROP.family(quick=3000, floors=["labelled linear", "labelled exact",
                                 "labelled outside", "independent variable"])
def labelled(ctx):
    dims = gen.dim_pool(ctx, ctx.randint(1, 3), maxlen=3,
                        classes=[DimSweep, DimRep])
    ax = ctx.randint(0, len(dims) - 1)
    n = gen.length(ctx, 2, 6)
    c = nodes(ctx, n)
    how = ctx.choice(["up", "down", "shuffled"])
    if how == "down":
        c = c[::-1]
    elif how == "shuffled":
        c = np.array(ctx.shuffled(list(c)))
    cls = type(dims[ax])
    dims[ax] = cls(dims[ax].name, c, unit=ctx.choice(gen.UNITS))
    a = gen.array(ctx, dims, ctx.choice(["float", "complex"]), unit="V",
                  fmt="%.3f")
    m = Model.of(a)
    srt = np.sort(c)
    mode = ctx.choice(["linear", None, None])
    if mode == "linear":
        q = queries(ctx, srt, True)
    else:
        q = np.array([float(ctx.choice(list(c)))
                      for _ in range(ctx.randint(1, n))])
    if ctx.chance(.6):
        q = np.unique(q)
    nd = cls(dims[ax].name, q, unit=dims[ax].unit)
    arg = nd if ctx.chance(.5) else hfarray(nd)
    ctx.log("interpolate", a.dims, c, "->", q, mode)
    with Pure(ctx, a, what="interpolate"):
        if ctx.chance(.5):
            got = dsm.interpolate(arg, a, mode)
        else:
            db = DataBlock()
            db.var1 = a
            db.var2 = b = gen.array(ctx, [DimSweep("other", 3)], "float")
            with Pure(ctx, db, what="DataBlock.interpolate"):
                out = db.interpolate(arg, mode)
            got = out.var1
            ctx.check(out.vardata.keys() == ["var1", "var2"], "variables lost",
                      got=out.vardata.keys())
            same(ctx, out.var2, Model.of(b), "variable without the dimension")
            ctx.ev("independent variable")
    v = np.moveaxis(m.v, ax, 0)
    o = np.argsort(c)
    want = np.array([line(c[o], v[o], t) for t in q])
    for k, t in enumerate(q):              # exact at existing coordinates
        if t in c:
            want[k] = v[list(c).index(t)]
    axes = list(m.axes)
    axes[ax] = desc(nd)
    same(ctx, got, Model(np.moveaxis(want, 0, ax), axes), "interpolation",
         exact=mode is None, rtol=1e-9, atol=1e-10 * np.abs(v).max())
    ctx.check(got.unit == a.unit and got.outputformat == a.outputformat,
              "unit or format lost")
    ctx.ev("labelled linear" if mode else "labelled exact")
    # outside / missing points are refused
    span = srt[-1] - srt[0]
    bad = srt[-1] + span * .01 if mode else (srt[0] + srt[1]) / 2
    bd = cls(dims[ax].name, list(q) + [bad], unit=dims[ax].unit)
    ctx.raises(ValueError, lambda: dsm.interpolate(bd, a, mode),
               "point outside the data accepted")
    ctx.raises(ValueError, lambda: dsm.interpolate(nd, a, "cubist"),
               "unknown mode accepted")
    ctx.ev("labelled outside")
    ctx.state(a.shape, ax, mode, how, len(q))
