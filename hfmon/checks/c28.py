"""C28: what plots show against an independent projection oracle."""
import os
import re

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

import hftools.plotting as hp
import hftools.plotting.helper as ph
from hftools.dataset import hfarray, DimSweep, DimRep, DimPartial
from hfmon import gen
from hfmon.core import Property
from hfmon.model import Pure, plain

PROP = Property(
    "C28", "Random labelled arrays (one to four sweep and repetition "
    "dimensions, real, complex, integer, any memory layout) plotted through "
    "pyplot and the axes in every projection; the vertices stored in the "
    "lines are compared with an independent projection of the array, and "
    "after a real draw every tick text times the prefix in the axis label is "
    "compared with the tick's place. Distinct state = (projection, number of "
    "dimensions, data kind, form of call).",
    ["matplotlib draws the lines it stores",
     "no matrix dimensions; an explicit x has the leading dimension or all "
     "dimensions of y; group delay over a sweep",
     "x-si of complex data and the projection 'wrapunwrapeddeg' are not "
     "specified"])

TWO_PI = 2 * np.pi
SCALAR = {
    "db": lambda c: 20 * np.log10(np.abs(c)),
    "db10": lambda c: 10 * np.log10(np.abs(c)),
    "mag": np.abs,
    "mag_square": lambda c: np.real(c * np.conj(c)),
    "rad": lambda c: np.arctan2(np.imag(c), np.real(c)),
    "deg": lambda c: np.rad2deg(np.arctan2(np.imag(c), np.real(c))),
    "imag": lambda c: np.imag(c) + 0.,
    "real": lambda c: np.real(c) + 0.,
    "x-si": lambda c: c,
}
PLANE = ["cplx", "smith", "cpolar", "unity", "rectilinear"]
WRAP = ["unwraprad", "unwrapdeg"]
ALL = sorted(SCALAR) + PLANE + WRAP + ["groupdelay", "cplxpolar"]


def expect(proj, x, y):
    """vertices of the line of one column"""
    if proj in SCALAR:
        return x, SCALAR[proj](y)
    if proj in PLANE:
        return (y.real, y.imag) if np.iscomplexobj(y) else (x, y)
    if proj in WRAP:
        p = np.arctan2(np.imag(y), np.real(y))
        out = [p[0]]
        for a, b in zip(p[:-1], p[1:]):
            d = (b - a + np.pi) % TWO_PI - np.pi
            out.append(out[-1] + d)
        p = np.asarray(out)
        return x, np.rad2deg(p) if proj == "unwrapdeg" else p
    if proj == "groupdelay":
        q = y[1:] / y[:-1]
        dphi = np.arctan2(np.imag(q), np.real(q))
        return (x[1:] + x[:-1]) / 2, -dphi / (TWO_PI * (x[1:] - x[:-1]))
    if proj == "cplxpolar":
        c = y if np.iscomplexobj(y) else x + 1j * y
        return np.arctan2(c.imag, c.real), np.abs(c)


NAMES = ["freq", "Vgs", "Vds", "rep", "T", "Pin"]
UNITS = [None, "Hz", "V", "s", "A", "m", "K", "deg", "Ohm"]


def make(ctx, proj, maxdim=4):
    nd = ctx.randint(1, maxdim)
    dims = []
    same = ctx.randint(2, 4)
    for i, nm in enumerate(ctx.sample(NAMES, nd)):
        cls = DimSweep if i == 0 or ctx.chance(.6) else DimRep
        if cls is DimSweep and i and ctx.chance(.2):
            cls = DimPartial
        n = same if ctx.chance(.6) else ctx.randint(1 if i else 2, 5)
        kind = None
        if proj == "groupdelay" and i == 0:
            kind = ctx.choice(["float", "range", "desc"])
        dims.append(gen.dim(ctx, cls, nm, n, unit=ctx.choice(UNITS),
                            kind=kind))
    if proj == "groupdelay":
        order = {DimSweep: 0, DimPartial: 0, DimRep: 1}
        dims.sort(key=lambda d: order[type(d)])
    kind = ctx.choice(["complex", "complex", "float", "int"])
    if proj == "x-si":
        kind = ctx.choice(["float", "int"])
    if proj in WRAP + ["groupdelay"]:
        kind = "complex"
    units = [u for u in UNITS if u != "deg"] if proj[:2] == "db" else UNITS
    y = gen.array(ctx, dims, kind, unit=ctx.choice(units))
    return y, kind


def columns(a):
    a = plain(a)
    return a.reshape(a.shape[0], -1)


def call(ctx, ax, args, kw):
    if ctx.chance(.5):
        plt.sca(ax)
        return plt.plot(*args, **kw)
    return ax.plot(*args, **kw)


@PROP.family(quick=900, floors=["line", "vertices"])
def lines(ctx):
    proj = ctx.choice(ALL)
    y, kind = make(ctx, proj)
    Y = columns(y)
    x = None
    how = ctx.choice(["y", "y", "y", "x1", "xall", "xnp"])
    if how == "xnp" and proj in ("groupdelay", "cplxpolar"):
        how = "x1"
    if how == "xall" and proj in ("groupdelay", "cplxpolar"):
        how = "y"
    X = np.asarray(y.dims[0].data, float)[:, None]
    if how == "x1":
        v = np.cumsum(ctx.rng.uniform(.5, 2, Y.shape[0]))
        if proj == "cplxpolar" and ctx.chance(.5):
            v = v * ctx.choice([-1, 1]) - v.mean()      # all quadrants
        x = hfarray(v, dims=(y.dims[0],), unit=ctx.choice(UNITS))
    elif how == "xall":
        x = gen.array(ctx, y.dims, "float", unit=ctx.choice(UNITS))
    elif how == "xnp":
        x = np.cumsum(ctx.rng.uniform(.5, 2, Y.shape[0]))
    if x is not None:
        X = columns(x)
    X = X * np.ones((1, Y.shape[1]))
    args = (y,) if x is None else (x, y)
    kw = {}
    if ctx.chance(.3):
        args += (ctx.choice(["r-", "b:", "kx", "o"]),)
    if ctx.chance(.3):
        kw["lw"] = 2
    axproj = proj
    if proj not in PLANE + ["cplxpolar"] and ctx.chance(.3):
        axproj = ctx.choice(["rectilinear", "mag", "db"])
        kw["projection"] = proj
    if proj == "x-si" and ctx.chance(.2):
        axproj, kw["projection"] = "mag", None
    ctx.log("plot", proj, "in", axproj, how, kind, y.dims, args[2:])
    ctx.state(proj, axproj, how, kind, y.ndim)
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection=axproj)
        n0 = len(ax.lines)
        objs = (y,) if x is None else (x, y)
        with Pure(ctx, *objs, what="plot"):
            got = call(ctx, ax, args, kw)
        ctx.check(len(got) == Y.shape[1], "number of lines", got=len(got),
                  want=Y.shape[1])
        ctx.check(list(ax.lines)[n0:] == list(got), "lines are in the axes")
        for j, line in enumerate(got):
            wx, wy = expect(proj, X[:, j], Y[:, j])
            sx = 1e-9 * (np.abs(wx).max() + 1e-300)
            sy = 1e-9 * (np.abs(wy).max() + 1e-300)
            if proj in WRAP:
                # the whole line may start in any turn
                turn = 360. if proj == "unwrapdeg" else TWO_PI
                off = plain(line.get_ydata(orig=True))[0] - wy[0]
                ctx.close(off, turn * round(off / turn), "unwrapped phase "
                          "modulo a turn", atol=1e-9 * turn)
                wy = wy + off
            ctx.close(plain(line.get_xdata(orig=True)), wx, "x of line %d" % j,
                      atol=sx)
            ctx.close(plain(line.get_ydata(orig=True)), wy, "y of line %d" % j,
                      atol=sy)
            ctx.close(line.get_xydata(), np.stack([wx, wy], -1),
                      "vertices of line %d" % j, atol=max(sx, sy))
            ctx.ev("line")
            ctx.ev("vertices", len(wx))
            if kw.get("lw"):
                ctx.check(line.get_linewidth() == 2, "line style passed on")
            if args[2:] or (len(args) == 2 and isinstance(args[1], str)):
                f = args[-1]
                ls, mk, co = dict([("r-", ("-", "None", "r")),
                                   ("b:", (":", "None", "b")),
                                   ("kx", ("None", "x", "k")),
                                   ("o", ("None", "o", None))])[f]
                ctx.check(line.get_linestyle() == ls and
                          line.get_marker() == mk and
                          (co is None or line.get_color() == co),
                          "format string passed on", fmt=f)
    finally:
        plt.close(fig)


# --- ticks and labels ----------------------------------------------------------
PREFIX = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21,
          "Y": 24, "m": -3, "u": -6, "n": -9, "p": -12, "f": -15, "a": -18,
          "z": -21, "y": -24, "r": -27, "q": -30, "R": 27, "Q": 30, u"\xb5": -6, u"\u03bc": -6}


def number(ctx, text):
    """value and resolution of a printed number with optional prefix"""
    t = text.replace(u"\u2212", "-").strip()
    m = re.match(r"^(-?\d+)(?:\.(\d+))?(?:e([-+]\d+))?\s*(\D?)$", t)
    ctx.check(m is not None and m.group(4) in PREFIX, "tick text", text=text)
    e = int(m.group(3) or 0) + PREFIX[m.group(4)]
    v = float("%s.%se%d" % (m.group(1), m.group(2) or "0", e))
    return v, 10. ** (e - len(m.group(2) or ""))


def shown_unit(unit):
    return {"deg": u"\xb0", None: "U"}.get(unit, unit)


def multiplier(ctx, label, unit, power):
    if power:
        m = re.search(r"\$\[10\^\{+(-?\d+)\}+(.*)\]\$$", label)
        ctx.check(m is not None, "label with power of ten", label=label)
        ctx.check((unit is None and not m.group(2)) or
                  (unit is not None and shown_unit(unit) in m.group(2)),
                  "unit in label", label=label, unit=unit)
        return 10. ** int(m.group(1))
    m = re.search(r"\[([^\]]*)\]$", label)
    u = shown_unit(unit)
    ctx.check(m is not None and m.group(1).endswith(u), "unit in label",
              label=label, unit=unit)
    p = m.group(1)[:-len(u)]
    ctx.check(p in PREFIX, "prefix in label", label=label)
    return 10. ** PREFIX[p]


def ticks(ctx, axis, label, unit, simple=False, power=False):
    """tick texts times label prefix are the tick places"""
    mult = multiplier(ctx, label, unit, power)
    if simple:
        ctx.check(mult == 1, "no prefix promised", label=label)
    n = 0
    for loc, t in zip(axis.get_majorticklocs(), axis.get_majorticklabels()):
        if not t.get_text():
            continue
        v, res = number(ctx, t.get_text())
        # plain numbers keep three decimals of the engineering mantissa
        tol = 1.001e-3 * mult
        if not re.match(u"^[-\u22120-9.]+$", t.get_text()):
            tol = .501 * res * mult
        ctx.close(v * mult, loc, "tick text times prefix", rtol=1e-9,
                  atol=tol, text=t.get_text(), label=label,
                  locs=list(axis.get_majorticklocs()))
        n += 1
    ctx.ev("tick", n)
    return n


@PROP.family(quick=350, floors=["tick"])
def labels(ctx):
    """labels and ticks after one plot in fresh axes"""
    proj = ctx.choice(["mag", "real", "imag", "cplx", "x-si", "db", "db10",
                       "mag_square", "groupdelay", "deg", "rad"])
    y, kind = make(ctx, proj, 2)
    scale = 10. ** ctx.randint(-20, 20) if ctx.chance(.5) else 1.
    if proj != "x-si":
        y = hfarray(plain(y) * scale, dims=y.dims, unit=y.unit)
    ctx.log("labels", proj, y.dims, y.unit, scale)
    fig = plt.figure(figsize=(4, 3), dpi=50)
    try:
        ax = fig.add_subplot(111, projection=proj)
        ax.plot(y)
        fig.canvas.draw()
        cplx = proj == "cplx" and np.iscomplexobj(y)
        xunit = y.unit if cplx else y.dims[0].unit
        if proj == "cplx":
            name = "Real"
        else:
            name = {"Hz": "Frequency", "s": "Time", "m": "Length"}.get(
                xunit, y.dims[0].name)
        xl = ax.get_xlabel()
        ctx.check(xl.startswith(name + " ["), "name in the x label", label=xl,
                  want=name)
        ticks(ctx, ax.xaxis, xl, xunit)
        if proj == "x-si":
            return
        yl = ax.get_ylabel()
        unit = y.unit
        if unit is None:
            unit = dict(db="dB", db10="dB", deg="deg", rad="rad").get(proj)
        if proj == "cplx":
            ctx.check(yl.startswith("Imaginary ["), "name in the y label",
                      label=yl)
        ticks(ctx, ax.yaxis, yl, unit, simple=proj in ("db", "db10"))
        ctx.check(ax.get_xlabel_unit() in (None, "", shown_unit(xunit)),
                  "x unit", got=ax.get_xlabel_unit())
        if xunit is not None:
            ctx.check(ax.get_xlabel_unit() == shown_unit(xunit), "x unit",
                      got=ax.get_xlabel_unit(), want=xunit)
        ctx.state("labels", proj, xunit, unit, round(np.log10(scale)) // 6)
    finally:
        plt.close(fig)


@PROP.family(quick=350, floors=["tick"])
def formatters(ctx):
    """explicit tick places and label formats, also changed afterwards"""
    fig = plt.figure(figsize=(4, 3), dpi=50)
    try:
        ax = fig.add_subplot(111, projection=ctx.choice(
            ["mag", "real", "db", "cplx", "mag_square"]))
        which = ctx.choice("xy")
        axis = getattr(ax, which + "axis")
        simple = which == "y" and ax.name == "db"
        for rounds in range(ctx.randint(1, 3)):
            unit = ctx.choice(["Hz", "V", "m", "W", "deg"])
            power = ctx.chance(.3) and not simple
            name = ctx.choice(["Gain", "foo", "x y", ""])
            fmt = (name + " " + ("[^]" if power else "[]")).strip()
            if simple and unit == "deg":
                unit = "V"
            top = ctx.choice([hp, ph])
            if ctx.chance(.5):
                getattr(ax, "set_%slabel_fmt" % which)(fmt, unit)
            else:
                fn = getattr(top, which + "label_fmt")
                if ctx.chance(.5):
                    plt.sca(ax)
                    fn(fmt, unit)
                else:
                    fn(fmt, unit=unit, axes=ax)
            ctx.check(getattr(ax, "get_%slabel_fmt" % which)() == fmt,
                      "label format is the one set")
            ctx.check(getattr(ax, "get_%slabel_unit" % which)() ==
                      shown_unit(unit), "label unit is the one set")
            if ctx.chance(.3):
                unit = ctx.choice(["Hz", "V", "m"])
                getattr(ax, "set_%slabel_unit" % which)(unit)
            k = ctx.randint(0, 5)
            r = ctx.rng
            e = ctx.randint(-25, 26) if not simple else ctx.randint(-1, 3)
            if k == 0:
                locs = np.arange(-3, 4) * 10. ** e
            elif k == 1:
                locs = np.sort(r.uniform(-5, 5, 5)) * 10. ** e
            elif k == 2:
                locs = 10. ** np.arange(e - 6, e + 1)
            elif k == 3:
                locs = r.integers(1, 999) * (1 + np.arange(4)) * 10. ** e
            elif k == 4:
                locs = np.array([0., 10. ** e])
            else:
                locs = 10. ** e * (1 + np.arange(5) * 10. ** -ctx.randint(0,
                                                                          3))
            ctx.log("ticks", which, fmt, unit, list(locs))
            getattr(ax, "set_%sticks" % which)(locs)
            getattr(ax, "set_%slim" % which)(min(locs), max(locs))
            fig.canvas.draw()
            label = getattr(ax, "get_%slabel" % which)()
            if name:
                ctx.check(label.startswith(name + " "), "name in label",
                          label=label)
            n = ticks(ctx, axis, label, unit, simple, power)
            ctx.check(n == len(locs), "every tick has a text")
            ctx.state("fmt", ax.name, which, power, k, e // 4, unit)
    finally:
        plt.close(fig)


@PROP.family(quick=60, thorough=400, floors=["helper"])
def helpers(ctx):
    """figure helpers touch what they name"""
    plt.close("all")
    try:
        nfig = ctx.randint(1, 4)
        nums = ctx.sample(range(1, 9), nfig)
        figs = dict((n, plt.figure(n, figsize=(3, 2), dpi=40)) for n in nums)
        got = ph.all_figures()
        ctx.check(got == [figs[n] for n in sorted(nums)], "all open figures",
                  got=got)
        fig = figs[ctx.choice(nums)]
        plt.figure(fig.number)
        axes = [fig.add_subplot(1, 3, i + 1) for i in range(3)]
        want = []
        for i, ax in enumerate(axes):
            for j in range(ctx.randint(0, 3)):
                lb = ctx.choice(["a", "b%d" % j, "_hidden", None])
                line, = ax.plot([1, 2], [j, 2], label=lb)
                lab = line.get_label()
                if not lab.startswith("_"):
                    want.append((i, line, lab))
        sub = ctx.sample(range(3), 2)
        lines, labs = ph.build_figlegend()
        ctx.check([(a, b) for a, b in zip(lines, labs)] ==
                  [(l, b) for i, l, b in want] and len(lines) == len(labs),
                  "legend entries of the figure", got=labs)
        lines, labs = ph.build_figlegend([axes[i] for i in sub])
        ctx.check(list(zip(lines, labs)) ==
                  [(l, b) for k in sub for i, l, b in want if i == k],
                  "legend entries of given axes", got=labs)
        if want:
            fn = ctx.choice([ph.twin_axes_legend, ph.twin_fig_legend])
            plt.sca(axes[0])
            fn(loc="upper right")
            lg = (fig.legends if fn is ph.twin_fig_legend else
                  [axes[0].get_legend()])[-1]
            ctx.check([t.get_text() for t in lg.get_texts()] ==
                      [b for i, l, b in want], "texts of the legend")
        # ticks
        major, minor = ctx.choice([(1., .25), (2., 1.), (.5, .1)])
        which = ctx.choice("xy")
        k = ctx.randint(0, 2)
        before = [[tuple(getattr(a, "get_%sticks" % w)()) for w in "xy"]
                  for a in axes]
        for a in axes:
            a.axis([0, 4, 0, 4])
        form = ctx.randint(0, 2)
        fn = getattr(ph, "set_%stick" % which)
        plt.sca(axes[k])
        if form == 0:
            fn(major, minor)
        elif form == 1:
            fn(major, minor, axes[k])
        else:
            fn(major, minor, [axes[k]])
        ax = getattr(axes[k], which + "axis")
        lim = np.arange(0, 4 + 1e-9, major)
        g = [t for t in ax.get_majorticklocs() if -1e-9 <= t <= 4 + 1e-9]
        ctx.close(g, lim, "major ticks", atol=1e-9)
        gm = [t for t in ax.get_minorticklocs() if -1e-9 <= t <= 4 + 1e-9]
        wm = [t for t in np.arange(0, 4 + 1e-9, minor)
              if np.min(np.abs(lim - t)) > 1e-9]
        ctx.close(gm, wm, "minor ticks", atol=1e-9)
        o = axes[(k + 1) % 3]
        ctx.check(not isinstance(getattr(o, which + "axis")
                                 .get_major_locator(),
                                 type(ax.get_major_locator())),
                  "other axes keep their ticks")
        other = getattr(axes[k], "yx"["xy".index(which)] + "axis")
        ctx.check(not isinstance(other.get_major_locator(),
                                 type(ax.get_major_locator())),
                  "other axis keeps its ticks")
        # width
        dw = ctx.rng.uniform(-.05, .05)
        pos = [a.get_position().frozen() for a in axes]
        form = ctx.randint(0, 2)
        if form == 0:
            ph.adjust_axwidth(dw)
            sel = [0, 1, 2]
        else:
            sel = [k]
            ph.adjust_axwidth(dw, axes[k] if form == 1 else [axes[k]])
        for i, a in enumerate(axes):
            p, q = pos[i], a.get_position()
            d = dw if i in sel else 0
            ctx.close([q.x0, q.y0, q.x1, q.y1],
                      [p.x0, p.y0, p.x1 + d, p.y1], "width of axes",
                      atol=1e-12)
        # tick texts
        plt.sca(axes[k])
        getattr(ph, "no_%stick_text" % which)()
        fig.canvas.draw()
        ctx.check(all(not t.get_text() for t in
                      getattr(axes[k], "get_%sticklabels" % which)()),
                  "tick texts are removed")
        # files
        alpha = ctx.choice([None, .5, 1.])
        fig.patch.set_alpha(alpha)
        name = ctx.path("out.png")
        tr = ctx.chance(.5)
        if tr:
            ph.savefig(name, facetransparent=True)
        else:
            ph.savefig(name)
        ctx.check(fig.patch.get_alpha() == alpha, "figure face is restored",
                  got=fig.patch.get_alpha())
        img = plt.imread(name)
        ctx.close(img[0, 0, 3], 0. if tr else 1. if alpha is None else alpha,
                  "transparency of the face", atol=.01)
        name = ctx.path("all.pdf")
        ph.save_all_figures_to_pdf(name)
        with open(name, "rb") as f:
            data = f.read()
        pages = len(re.findall(br"/Type /Page\b(?!s)", data))
        ctx.check(pages == nfig, "one page per figure", got=pages, want=nfig)
        bad = ctx.path("all.png")
        ctx.raises(ValueError, ph.save_all_figures_to_pdf, "not a pdf", bad)
        ctx.check(not os.path.exists(bad), "refused file was not made")
        ctx.ev("helper")
        ctx.state("helper", nfig, form, which, tr)
    finally:
        plt.close("all")
