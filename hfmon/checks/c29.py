"""C29: Smith chart geometry against the bilinear map."""
import importlib

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.patches import Arc, Circle, Polygon

sm = importlib.import_module("hftools.plotting.smith")
from hfmon.core import Property

PROP = Property(
    "C29", "Curves of constant resistance, reactance, conductance and "
    "susceptance with random values and limits (given in either order, also "
    "none, zero and infinite), judged by the artist that is drawn: points "
    "sampled on it are mapped back with the bilinear map, and points of the "
    "specified curve are looked up on it. Whole charts are collected from "
    "real axes. Distinct state = (curve, sign, kinds of limits).",
    ["resistance and conductance are not negative",
     "matplotlib draws the patches it stores"])


# --- oracle ------------------------------------------------------------------
def gam(z):
    return 1 + 0j if np.isinf(abs(z)) else (z - 1) / (z + 1)


def gamy(y):
    return -1 + 0j if np.isinf(abs(y)) else (1 - y) / (1 + y)


def params(ctx, art):
    """(kind, function of t in 0..1 giving points, closed) of an artist."""
    if isinstance(art, Arc):
        c = complex(*art.center)
        w, h = art.width, art.height
        ctx.close([h, art.angle], [w, 0.], "arc is part of a circle",
                  atol=1e-12)
        span = (art.theta2 - art.theta1) % 360
        if abs(art.theta2 - art.theta1) >= 360:
            span = 360.
        return lambda t: c + abs(w) / 2 * np.exp(
            1j * np.deg2rad(art.theta1 + t * span)), c, abs(w) / 2, span
    if isinstance(art, Circle):
        c = complex(*art.center)
        return lambda t: c + art.radius * np.exp(2j * np.pi * t), c, \
            art.radius, 360.
    ctx.check(isinstance(art, Polygon), "kind of artist", got=art)
    xy = np.asarray(art.get_xy())
    a, b = complex(*xy[0]), complex(*xy[1])
    ctx.check(len(xy) == 2 or np.allclose(xy[2], xy[0]), "line has two ends",
              got=xy)
    return lambda t: a + t * (b - a), None, None, None


def drawn(art):
    """Points on the path matplotlib strokes (bezier approximation)."""
    path = art.get_patch_transform().transform_path(art.get_path())
    pts = []
    for seg, code in path.iter_bezier():
        p = np.atleast_2d(seg(np.linspace(0, 1, 9)))
        pts.append(p[:, 0] + 1j * p[:, 1])
    return np.concatenate(pts)


def near(fn, c, rad, span, g, tol):
    """distance of point g from the curve is less than tol"""
    if c is None:
        a, b = fn(0.), fn(1.)
        t = ((g - a) * np.conj(b - a)).real / max(abs(b - a) ** 2, 1e-300)
        return abs(g - fn(min(1, max(0, t)))) < tol
    if abs(abs(g - c) - rad) > tol:
        return False
    if span >= 360:
        return True
    if min(abs(g - fn(0.)), abs(g - fn(1.))) < tol:
        return True
    st = fn(0.) - c
    turn = np.rad2deg(np.angle((g - c) / st)) % 360
    return turn <= span + 1e-9


T = np.linspace(0, 1, 41)


def value(ctx, kind):
    k = ctx.randint(0, 4)
    v = [ctx.rng.uniform(.05, 3), 10 ** ctx.rng.uniform(-2, 2), 0.,
         float(ctx.randint(1, 5)), ctx.randint(1, 5)][k]
    if kind in "xb" and ctx.chance(.5):
        v = -v
    return v


def limits(ctx, kind):
    """limits of the other coordinate"""
    if ctx.chance(.1):
        return ctx.choice([(None, None), (None, 1), (0, None)])
    pool = [0, 0., np.inf] if kind in "xb" else [0, np.inf, -np.inf, 0.]
    other = dict(r="x", x="r", g="b", b="g")[kind]
    while True:
        p = [ctx.choice(pool) if ctx.chance(.4) else value(ctx, other)
             for i in range(2)]
        a, b = [gam(complex(1, v)) if other in "xb" else gam(v) for v in p]
        if abs(a - b) > 1e-2 or p == [-np.inf, np.inf] \
                or p == [np.inf, -np.inf]:
            return tuple(p)


CURVE = dict(r="RCircle", x="XCircle", g="GCircle", b="BCircle")


def judge(ctx, art, kind, v, l1, l2, what):
    """artist *art* is the curve of constant *kind* between the limits"""
    fn, c, rad, span = params(ctx, art)
    tr = gam if kind in "rx" else gamy
    mk = (lambda o: complex(v, o)) if kind in "rg" else \
        (lambda o: complex(o, v))
    full = l1 is None or l2 is None
    if full:
        lo, hi = (-np.inf, np.inf) if kind in "rg" else (0, np.inf)
        if c is not None:
            ctx.check(span >= 360, "%s: full circle" % what, got=span)
    else:
        lo, hi = sorted((l1, l2))
    # every drawn point has the value and lies between the limits
    for t in T:
        g = fn(t)
        den = abs(1 - g) if kind in "rx" else abs(1 + g)
        if den < 1e-3:
            continue
        y = (1 + g) / (1 - g) if kind in "rx" else (1 - g) / (1 + g)
        val, oth = (y.real, y.imag) if kind in "rg" else (y.imag, y.real)
        tol = 1e-11 * (1 + 2 / den ** 2) * (1 + abs(c or 0))
        ctx.close(val, v, "%s: value at a drawn point" % what, rtol=0,
                  atol=tol, at=g)
        if not (full and c is not None):
            ctx.check(lo - tol <= oth <= hi + tol,
                      "%s: drawn point outside the limits" % what,
                      at=g, value=oth, limits=(lo, hi))
    # every point of the curve is drawn
    gs = []
    for u in np.linspace(0, 1, 23):
        if np.isinf(lo) and np.isinf(hi):
            o = np.tan(np.pi * (u - .5)) if 0 < u < 1 else (lo, hi)[int(u)]
        elif np.isinf(hi):
            o = lo + u / (1 - u) if u < 1 else hi
        elif np.isinf(lo):
            o = hi - u / (1 - u) if u < 1 else lo
        else:
            o = lo + u * (hi - lo)
        gs.append(tr(mk(o)))
        ctx.check(near(fn, c, rad, span, gs[-1], 1e-9 * (1 + abs(c or 0))),
                  "%s: point of the curve is not drawn" % what, point=gs[-1],
                  other=o)
    # ends
    if not full and not (np.isinf(lo) and np.isinf(hi)):
        ends = sorted([fn(0.), fn(1.)], key=lambda z: abs(z - gs[0]))
        ctx.close(ends, [gs[0], gs[-1]], "%s: ends" % what, rtol=0,
                  atol=1e-9 * (1 + abs(c or 0)))
    # what matplotlib strokes is that curve
    scale = 5e-4 * (rad or 1) + 1e-9
    for g in drawn(art):
        ctx.check(near(fn, c, rad, span, g, scale),
                  "%s: stroked path leaves the curve" % what, at=g)
    ctx.ev("curve points", len(T) + len(gs))


@PROP.family(quick=1500, floors=["curve points"])
def curve(ctx):
    kind = ctx.choice("rxgb")
    v = value(ctx, kind)
    l1, l2 = limits(ctx, kind)
    ctx.log(CURVE[kind], v, l1, l2)
    ctx.state(kind, v == 0, v > 0, repr(l1)[:3] == "inf", l2 == 0,
              l1 is None, l2 is None or l1 is None or l1 < l2)
    fn = getattr(sm, CURVE[kind])
    obj = fn(v, l1, l2) if ctx.chance(.8) else fn(v, *[l1, l2])
    art = obj.get_artist(color=ctx.choice(["k", "r"]))
    judge(ctx, art, kind, v, l1, l2, CURVE[kind])
    if isinstance(art, (Arc, Circle)):
        (x, y), rad = obj.pars
        f, c, r, s = params(ctx, art)
        ctx.close([complex(x, y), rad], [c, r], "pars")
    else:
        f, c, r, s = params(ctx, art)
        xs, ys = obj.pars
        ctx.close([complex(xs[0], ys[0]), complex(xs[1], ys[1])],
                  [f(0.), f(1.)], "pars")


@PROP.family(quick=400, floors=["transform"])
def transforms(ctx):
    """z2gamma and y2gamma are the bilinear maps and each other's inverse"""
    r = ctx.rng
    for i in range(10):
        z = complex(abs(r.normal()) * 10 ** r.uniform(-3, 3),
                    r.normal() * 10 ** r.uniform(-3, 3))
        if ctx.chance(.2):
            z = complex(z.real, 0)
        if ctx.chance(.2):
            z = complex(0, z.imag or 1)
        want = (z - 1) / (z + 1)
        ctx.close(sm.z2gamma(z), want, "z2gamma", rtol=1e-10, atol=1e-14, z=z)
        ctx.close(sm.y2gamma(1 / z), want, "y2gamma(1/z)", rtol=1e-9,
                  atol=1e-12, z=z)
        ctx.close(sm.y2gamma(z), -want, "y2gamma", rtol=1e-10, atol=1e-14)
        g = complex(sm.z2gamma(z))
        if abs(1 - g) > 1e-3:
            ctx.close((1 + g) / (1 - g), z, "back", rtol=1e-8)
        ctx.ev("transform")
    x = z.real
    ctx.close(complex(sm.z2gamma(x)), (x - 1) / (x + 1), "real z", rtol=1e-10,
              atol=1e-14)
    ctx.close(complex(sm.y2gamma(x)), (1 - x) / (x + 1), "real y", rtol=1e-10,
              atol=1e-14)
    inf = ctx.choice([np.inf, complex(np.inf, 1), complex(0, -np.inf),
                      complex(3, np.inf), complex(np.inf, -2)])
    ctx.close(complex(sm.z2gamma(inf)), 1, "infinite impedance", atol=1e-12)
    ctx.close(complex(sm.y2gamma(inf)), -1, "infinite admittance", atol=1e-12)
    # angle helper
    deg = ctx.chance(.5)
    turn = 360. if deg else 2 * np.pi
    branch = ctx.choice([0, 0, turn / 2, -turn / 2, turn / 4,
                         r.uniform(-1, 1) * turn])
    if ctx.chance(.6):
        x = complex(r.normal(), r.normal())
    else:
        x = r.normal(size=(2, 3)) + 1j * r.normal(size=(2, 3))
    keep = np.array(x)
    a = sm.angle(x, deg=deg, branch=branch)
    ctx.equal(x, keep, "angle changed its argument")
    ph = np.asarray(a) * (2 * np.pi / turn)
    ctx.close(np.exp(1j * ph), x / np.abs(x), "angle: direction", rtol=0,
              atol=1e-9)
    ctx.check(np.all((np.asarray(a) >= branch - 1e-9) &
                     (np.asarray(a) <= branch + turn + 1e-9)),
              "angle: branch", got=a, branch=branch)


VALS = [0, 1. / 3, 1, 3]
HALF = dict(full=0, upper=1, lower=-1)


def expected(kind, half):
    """(kind, value, lo, hi) of the curves of a grid in a half plane of
    gamma (kind 'z' or 'y')"""
    out = []
    s = HALF[half]
    # impedance: x > 0 is the upper half; admittance: b < 0 is the upper half
    up = s if kind == "z" else -s
    lim = {0: (-np.inf, np.inf), 1: (0, np.inf), -1: (-np.inf, 0)}[up]
    for v in VALS:
        out.append(("r" if kind == "z" else "g", v) + lim)
    for v in [0] + [q for q in VALS[1:] if up >= 0] \
            + [-q for q in VALS[1:] if up <= 0]:
        out.append(("x" if kind == "z" else "b", v, 0, np.inf))
    return out


def polar(half):
    lo, hi = {0: (0, 360), 1: (0, 180), -1: (180, 360)}[HALF[half]]
    return lo, hi


CHARTS = ["smith", "inv_smith", "smith_lower", "smith_upper", "smith_polar",
          "polar_grid", "polar_upper", "polar_lower", "grid_z_full",
          "grid_z_upper", "grid_z_lower", "grid_y_full", "grid_y_upper",
          "grid_y_lower", "axes_smith", "axes_cpolar"]


def draw(name, ax):
    if name.startswith("polar_") and name != "polar_grid":
        sm.polar_grid(ax, name[6:])
    elif name.startswith("grid_"):
        sm.smith_grid(ax, name[7:], standard=name[5] == "z")
    elif name.startswith("axes"):
        pass
    else:
        getattr(sm, name)(ax)


SPEC = dict(smith=[("z", "full")], inv_smith=[("y", "full")],
            smith_lower=[("z", "lower")], smith_upper=[("z", "upper")],
            smith_polar=[("z", "lower"), ("p", "upper")],
            polar_grid=[("p", "full")], polar_upper=[("p", "upper")],
            polar_lower=[("p", "lower")], axes_smith=[("z", "full")],
            axes_cpolar=[("p", "full")])
for k in "zy":
    for h in HALF:
        SPEC["grid_%s_%s" % (k, h)] = [(k, h)]


@PROP.enum(2 * len(CHARTS))
def charts(ctx):
    """each chart draws its curves and nothing else (axes given or current)"""
    name = CHARTS[ctx.index // 2]
    fig = plt.figure()
    try:
        if name == "axes_smith":
            ax = fig.add_subplot(111, projection="smith")
        elif name == "axes_cpolar":
            ax = fig.add_subplot(111, projection="cpolar")
        else:
            ax = fig.add_subplot(121)
            if ctx.index % 2:
                other = fig.add_subplot(122)
                plt.sca(other)
                n0 = len(other.patches)
                draw(name, ax)
                ctx.check(len(other.patches) == n0, "drew in other axes")
            else:
                plt.sca(ax)
                draw(name, None)
        view(ctx, name, ax)
        judge_chart(ctx, name, ax)
    finally:
        plt.close(fig)


def view(ctx, name, ax):
    if name.startswith("grid_"):
        return
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    ctx.check(x0 <= -1 and x1 >= 1 and y0 <= -1 and y1 >= 1,
              "%s: view shows the whole chart" % name, x=(x0, x1), y=(y0, y1))
    ctx.check(ax.get_aspect() in ("equal", 1, 1.0), "%s: equal scale" % name,
              got=ax.get_aspect())
    ctx.check(len(ax.get_xticks()) == 0 and len(ax.get_yticks()) == 0,
              "%s: no ticks" % name)


def render(ax):
    """what is visible: function telling if there is ink near a point"""
    fig = ax.figure
    fig.set_size_inches(8, 8)
    fig.set_dpi(100)
    ax.set_position([.05, .05, .9, .9])
    for other in fig.axes:
        if other is not ax:
            other.remove()
    ax.axis([-1.01, 1.01, -1.01, 1.01])
    fig.canvas.draw()
    img = np.asarray(fig.canvas.buffer_rgba())[:, :, :3].min(axis=2)
    ink = img < 128

    def seen(g):
        x, y = ax.transData.transform((g.real, g.imag))
        i, j = int(round(img.shape[0] - 1 - y)), int(round(x))
        return bool(ink[max(i - 3, 0):i + 4, max(j - 3, 0):j + 4].any())
    return seen


def judge_chart(ctx, name, ax):
    arts = [params(ctx, p) + (p,) for p in ax.patches]
    want = []
    for kind, half in SPEC[name]:
        if kind == "p":
            lo, hi = polar(half)
            for rad in np.arange(0, 1.01, .2):
                want.append((kind, half, [rad * np.exp(1j * np.deg2rad(a))
                             for a in np.linspace(lo, hi, 37)]))
            for a in range(lo, hi + 1, 45):
                want.append((kind, half, [t * np.exp(1j * np.deg2rad(a))
                                          for t in T]))
            continue
        for k, v, lo, hi in expected(kind, half):
            pts = []
            for u in np.linspace(0, 1, 27):
                if np.isinf(lo) and np.isinf(hi):
                    o = np.tan(np.pi * (u - .5)) if 0 < u < 1 else np.inf
                elif np.isinf(hi):
                    o = lo + u / (1 - u) if u < 1 else hi
                else:
                    o = hi - u / (1 - u) if u < 1 else lo
                z = complex(v, o) if k in "rg" else complex(o, v)
                pts.append(gam(z) if k in "rx" else gamy(z))
            want.append((kind, half, pts))
    tol = 1e-6
    for kind, half, pts in want:
        ok = [all(near(f, c, r, s, g, tol) for g in pts)
              for f, c, r, s, p in arts]
        ctx.check(any(ok), "%s: a curve of the grid is missing" % name,
                  points=pts[:4])
        ctx.ev("chart curve")
    seen = render(ax)
    for kind, half, pts in want:
        for g in pts:
            ctx.check(seen(g), "%s: a curve of the grid is hidden" % name,
                      at=g, curve=pts[:4])
    ctx.ev("rendered curve", len(want))
    # nothing else: every drawn point belongs to the grid of its half
    halves = set(h for k, h in SPEC[name])
    for f, c, r, s, p in arts:
        rim = c is not None and abs(c) < 1e-12 and abs(r - 1) < 1e-12
        fits = []
        for kind, half in SPEC[name]:
            good = True
            for t in np.linspace(0, 1, 33):
                g = f(t)
                if HALF[half] * g.imag < -1e-6 and not \
                        (rim and s >= 360 and "polar" in name):
                    good = False
                if abs(g) > 1 + 1e-9:
                    good = False
            if good and not rim:
                good = on_grid(kind, [f(t) for t in
                                      np.linspace(0.01, .99, 29)])
            fits.append(good)
        ctx.check(any(fits), "%s: drew something that is not of the grid"
                  % name, artist=p, center=c, radius=r, start=f(0.),
                  end=f(1.))
        ctx.ev("chart artist")
    ctx.state(name)


def on_grid(kind, pts):
    pts = np.asarray(pts)
    if kind == "p":
        rr = np.abs(pts)
        if np.ptp(rr) < 1e-9:
            return abs(rr[0] * 5 - round(rr[0] * 5)) < 1e-9
        a = np.rad2deg(np.angle(pts)) / 45
        return bool(np.all(np.abs(a - np.round(a)) < 1e-6))
    sgn = 1 if kind == "z" else -1
    pts = pts[np.abs(1 - sgn * pts) > 1e-3]
    y = (1 + sgn * pts) / (1 - sgn * pts)
    for v in VALS:
        if np.all(np.abs(y.real - v) < 1e-6 * np.abs(y) ** 2 + 1e-6):
            return True
    for v in [0] + VALS[1:] + [-q for q in VALS[1:]]:
        if np.all(np.abs(y.imag - v) < 1e-6 * np.abs(y) ** 2 + 1e-6):
            return True
    return False
