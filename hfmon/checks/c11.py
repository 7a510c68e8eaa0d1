"""C11: phase, level and delay functions obey their definitions."""
import cmath
import math

import numpy as np

import hftools.math as hm
import hftools.utils as hu
from hftools.dataset import hfarray, DimSweep, DimRep
from hfmon import gen
from hfmon.core import Property
from hfmon.model import Model, Pure, plain, desc, descs, invariant, same, like

PROP = Property(
    "C11", "Random complex data (magnitudes 1e-9..1e9, all quadrants, exact "
    "axes), random branches in degrees and radians, sweeps with known smooth "
    "phase, sampled phases close to half a turn per step, linear-phase "
    "responses with known delay; oracles are the defining identities "
    "evaluated per element. Distinct state = (function, branch class, "
    "shape).",
    ["phase is tested for nonzero values only"])


def cplx(ctx, dims, wide=True):
    shape = tuple(len(d.data) for d in dims)
    n = int(np.prod(shape, dtype=int))
    r = ctx.rng
    v = np.exp(2j * np.pi * r.random(n)) * 10 ** r.uniform(
        -9 if wide else -1, 9 if wide else 1, n)
    # exact axis directions
    for k in range(n):
        if ctx.chance(.15):
            v[k] = ctx.choice([1, -1, 1j, -1j, 1 + 1j, -1 - 1j]) * 2.0
    return hfarray(gen.layout(ctx, v.reshape(shape)), dims=tuple(dims))


def dims(ctx, lo=0, hi=3, **kw):
    return gen.dim_pool(ctx, ctx.randint(lo, hi), **kw)


@PROP.family(quick=4000, floors=["angle checked", "branch given"])
def angle(ctx):
    z = cplx(ctx, dims(ctx))
    deg = ctx.chance(.5)
    turn = 360.0 if deg else 2 * math.pi
    kw = {}
    if deg or ctx.chance(.3):
        kw["deg"] = deg
    lo = -turn / 2
    if ctx.chance(.7):
        lo = ctx.choice([0.0, -turn / 2, -turn, turn / 4, -turn / 4,
                         float(ctx.rng.uniform(-2, 2) * turn)])
        kw["branch"] = lo
        ctx.ev("branch given")
    arg = z if ctx.chance(.7) else plain(z)
    if z.ndim == 0 and ctx.chance(.5):
        arg = complex(plain(z))
    ctx.log("angle", kw, z.dims)
    with Pure(ctx, z, what="angle"):
        got = hm.angle(arg, **kw)
    g = plain(got) if isinstance(got, np.ndarray) else np.asarray(got)
    if isinstance(arg, hfarray):
        invariant(ctx, got, "angle")
        ctx.check(descs(got.dims) == descs(z.dims), "angle lost dimensions")
    tol = 1e-9 * turn
    ctx.check(((g >= lo - tol) & (g <= lo + turn + tol)).all(),
              "angle outside [branch, branch + turn]", got=g, lo=lo)
    rad = g * 2 * np.pi / turn
    zz = plain(z)
    ctx.close(np.exp(1j * rad), zz / np.abs(zz), "angle does not reproduce "
              "the direction", atol=1e-9)
    ctx.ev("angle checked", int(g.size))
    ctx.state(deg, "branch" in kw, round(lo / turn, 1), z.shape)


@PROP.family(quick=3000, floors=["unwrapped", "step bounded"])
def unwrap(ctx):
    d = dims(ctx, 1, 3, minlen=1, maxlen=3)
    n = gen.length(ctx, 2, 30)
    d[0] = DimSweep(d[0].name, gen.coords(ctx, n))
    shape = tuple(len(x.data) for x in d)
    r = ctx.rng
    top = ctx.choice([.3, .9, .97])
    mono = ctx.chance(.5)
    steps = r.uniform(-1 if not mono else .2, 1, shape) * np.pi * top
    steps[0] = r.uniform(-np.pi, np.pi, shape[1:])
    ph = np.cumsum(steps, axis=0)
    mag = 10 ** r.uniform(-3, 3, shape) * ctx.choice(
        [1, 1, 1, 1e-250, 1e-170, 1e170, 1e250])
    z = hfarray(gen.layout(ctx, mag * np.exp(1j * ph)), dims=tuple(d))
    deg = ctx.chance(.4)
    ctx.log("unwrap", z.dims, "deg", deg)
    with Pure(ctx, z, what="unwrap_phase"):
        got = hm.unwrap_phase(z, deg=deg)
    invariant(ctx, got, "unwrap_phase")
    ctx.check(descs(got.dims) == descs(z.dims), "unwrap_phase lost "
              "dimensions")
    g = plain(got) * (np.pi / 180 if deg else 1)
    ctx.close(np.exp(1j * g), np.exp(1j * ph), "unwrapped phase is not the "
              "angle modulo a turn", atol=1e-8)
    jump = np.abs(np.diff(g, axis=0))
    ctx.check((jump <= np.pi * (1 + 1e-9)).all(), "unwrapped phase jumps",
              jump=jump.max(initial=0))
    # the true phase steps are below half a turn, so they must come back
    ctx.close(np.diff(g, axis=0), np.diff(ph, axis=0), "phase steps",
              atol=1e-8)
    ctx.ev("unwrapped", int(g.size))
    ctx.ev("step bounded", int(jump.size))
    sq = hm.continous_phase_sqrt(z)
    sq = like(ctx, sq, z.dims, "square root")
    ctx.close(sq ** 2, plain(z), "square of continuous square root",
              rtol=1e-8)
    if top < .95:
        q = sq
        turn = np.abs(np.angle(q[1:] / q[:-1]))
        ctx.check((turn <= np.pi / 2 * 1.0000001).all(), "square root "
                  "changes sign along the sweep", turn=turn.max(initial=0))
    ctx.ev("square root")
    ctx.state(shape, deg, top, mono)


@PROP.family(quick=3000, floors=["level converted"])
def levels(ctx):
    d = dims(ctx)
    z = cplx(ctx, d)
    zz = plain(z)
    isarr = ctx.chance(.7)
    x = z if isarr else (complex(zz) if zz.ndim == 0 else zz)
    with Pure(ctx, z, what="dB"):
        db = hm.dB(x)
    want = np.array([20 * math.log10(abs(v)) for v in zz.ravel()]).reshape(
        zz.shape)
    keys = [x[:2] for x in descs(z.dims)]

    def pv(a):
        """Values in the axis order of z."""
        v = plain(a) if isinstance(a, np.ndarray) else np.asarray(a)
        if isinstance(a, hfarray) and len(a.dims) == len(keys) == v.ndim:
            k = [x[:2] for x in descs(a.dims)]
            ctx.check(sorted(k) == sorted(keys), "dimensions lost", got=k)
            v = v.transpose([k.index(x) for x in keys])
        return v
    ctx.close(pv(db), want, "dB", rtol=1e-12, atol=1e-10)
    ctx.close(pv(hm.dBinv(db)), np.abs(zz), "dBinv(dB(x)) = |x|", rtol=1e-9)
    deg = np.angle(zz, deg=True)
    degx = hfarray(deg, dims=z.dims) if isarr else deg
    mag = hfarray(np.abs(zz), dims=z.dims) if isarr else np.abs(zz)
    ctx.close(pv(hm.dB_angle_to_complex(db, degx)), zz, "dB/angle",
              rtol=1e-9)
    ctx.close(pv(hm.mag_angle_to_complex(mag, degx)), zz, "mag/angle",
              rtol=1e-9)
    re = hfarray(zz.real.copy(), dims=z.dims) if isarr else zz.real
    im = hfarray(zz.imag.copy(), dims=z.dims) if isarr else zz.imag
    c = hm.re_im_to_complex(re, im)
    ctx.equal(pv(c), zz.real + 1j * zz.imag, "re/im")
    if isarr:
        for r in (db, c, hm.dB_angle_to_complex(db, degx),
                  hm.mag_angle_to_complex(mag, degx)):
            invariant(ctx, r, "level conversion")
            ctx.check(sorted(map(repr, descs(r.dims))) ==
                      sorted(map(repr, descs(z.dims))), "dimensions lost",
                      got=r.dims)
    ctx.ev("level converted", int(zz.size))
    ctx.state(z.shape, isarr)


@PROP.family(quick=1500, floors=["aligned levels"])
def levels_aligned(ctx):
    """Magnitude and angle over different dimensions combine by coordinate."""
    pool = gen.dim_pool(ctx, 3, minlen=2, maxlen=3)
    a = gen.array(ctx, ctx.sample(pool, ctx.randint(0, 3)), "pos")
    b = gen.array(ctx, ctx.sample(pool, ctx.randint(0, 3)), "float") * 10
    from hfmon.model import binop
    for f, g in ((hm.mag_angle_to_complex,
                  lambda x, y: x * np.exp(1j * np.pi * y / 180)),
                 (hm.dB_angle_to_complex,
                  lambda x, y: 10 ** (x / 20) * np.exp(1j * np.pi * y / 180)),
                 (hm.re_im_to_complex, lambda x, y: x + 1j * y)):
        same(ctx, f(a, b), binop(g, Model.of(a), Model.of(b)), f.__name__,
             exact=False, rtol=1e-9)
    ctx.ev("aligned levels")
    ctx.state([d.name for d in a.dims], [d.name for d in b.dims])


@PROP.family(quick=2000, floors=["delay checked"])
def delay(ctx):
    """Delay is -dphi/domega per interval, the slope for linear phase."""
    n = gen.length(ctx, 2, 12)
    r = ctx.rng
    f = np.cumsum(r.uniform(.1, 1, n)) * 1e9
    fd = DimSweep("freq", f, unit="Hz")
    others = [x for x in gen.dim_pool(ctx, ctx.randint(0, 2), maxlen=3)
              if x.name != "freq"]
    shp = tuple(len(x.data) for x in others)
    tmax = 0.45 / np.diff(f).max()
    tau = r.uniform(-tmax, tmax, shp)
    ph0 = r.uniform(-3, 3, shp)
    order = [fd] + others
    ph = -2 * np.pi * f.reshape((n,) + (1,) * len(shp)) * tau + ph0
    quad = ctx.chance(.4)
    if quad:                       # curved phase: midpoint difference
        ph = ph + 0.05 * np.cumsum(r.uniform(-1, 1, (n,) + shp), axis=0)
    v = 10 ** r.uniform(-2, 2, ph.shape) * np.exp(1j * ph)
    perm = [int(i) for i in r.permutation(len(order))]
    var = hfarray(np.transpose(v, perm), dims=tuple(order[i] for i in perm))
    freq = hfarray(fd)
    ctx.log("delay", var.dims, "quad", quad)
    with Pure(ctx, freq, var, what="delay"):
        fm, t = hm.delay(freq, var)
    want = -(np.diff(ph, axis=0) / (2 * np.pi * np.diff(f).reshape(
        (n - 1,) + (1,) * len(shp))))
    if not quad:
        ctx.close(want, np.broadcast_to(tau, want.shape), "oracle", rtol=1e-5,
                  atol=1e-6 * tmax)
    names = [x.name for x in t.dims]
    ctx.check(sorted(names) == sorted(x.name for x in order), "delay lost "
              "dimensions", got=t.dims)
    got = plain(t).transpose([names.index(x.name) for x in order])
    ctx.close(got, want, "group delay", rtol=1e-7, atol=1e-9 * tmax)
    fmv = plain(fm)
    fmv = fmv.reshape([k for k in fmv.shape if k != 1] or [1])
    ctx.close(fmv.reshape(-1), (f[1:] + f[:-1]) / 2, "midpoint frequencies",
              rtol=1e-12)
    for x in others:
        ctx.check(desc(t.dims[names.index(x.name)]) == desc(x),
                  "delay changed a dimension", got=t.dims)
    ctx.ev("delay checked", int(got.size))
    ctx.state(n, shp, perm, quad)


@PROP.family(quick=2500, floors=["chopped", "kept"])
def chop(ctx):
    d = dims(ctx, 0, 3)
    shape = tuple(len(x.data) for x in d)
    v = ctx.rng.normal(size=shape) * 10.0 ** ctx.rng.integers(-20, 3, shape)
    if ctx.chance(.5):
        v = v * np.exp(1j * ctx.rng.uniform(0, 6, shape))
    v = np.asarray(v)
    a = hfarray(v, dims=tuple(d), unit="V")
    thr = 10.0 ** ctx.randint(-18, 0)
    kw = {} if ctx.chance(.3) else {"threshold": thr}
    thr = kw.get("threshold", 1e-16)
    arg = a if ctx.chance(.6) else (v if v.ndim else v[()])
    with Pure(ctx, a, what="chop"):
        got = hm.chop(arg, **kw)
    want = np.where(np.abs(v) < thr, 0, v)
    ctx.equal(plain(got) if isinstance(got, np.ndarray) else got, want,
              "chop", thr=thr)
    if isinstance(arg, hfarray):
        ctx.check(descs(got.dims) == descs(a.dims) and got.unit == a.unit,
                  "chop lost labels")
    n0 = int((np.abs(v) < thr).sum())
    ctx.ev("chopped", n0)
    ctx.ev("kept", int(v.size - n0))
    # the relative variant
    if v.size:
        rt, at = 10.0 ** ctx.randint(-12, -1), 10.0 ** ctx.randint(-18, -8)
        kw2 = {} if ctx.chance(.3) else {"rtol": rt, "atol": at}
        rt, at = kw2.get("rtol", 1e-9), kw2.get("atol", 1e-15)
        before = v.copy()
        got = hu.chop(v, **kw2)
        m = np.abs(v)
        edge = np.isclose(m, at, rtol=1e-9) | np.isclose(m, rt * m.max(),
                                                         rtol=1e-9)
        want = np.where((m < at) | (m < rt * m.max()), 0, v)
        ctx.check(((np.asarray(got) == want) | edge).all(), "utils.chop",
                  got=got, want=want)
        ctx.equal(v, before, "utils.chop changed its argument")
    ctx.state(shape, thr, v.dtype.kind)
