"""C22: tab separated measurement tables."""
import itertools

import numpy as np

from hftools.dataset import hfarray, DataBlock, DimSweep, DimMatrix_i, \
    DimMatrix_j
from hftools.file_formats import read_spdata, save_spdata, read_data
from hftools.file_formats.common import Comments
from hfmon import files, gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, invariant

PROP = Property(
    "C22", "An independent serializer writes random tables (plain, "
    "bracketed-unit, real/imaginary, magnitude/angle, matrix element, "
    "repeated and text columns in any order, settings, header comments, "
    "blank lines, LF/CRLF, one or several sections), which are read with all "
    "combinations of reading options and compared value by value with what "
    "the text denotes. Random blocks are saved and read back; malformed "
    "tables must be refused. Distinct state = (column kinds, options, "
    "sections, line end).",
    ["repeated columns of a table are repeated equally often",
     "sections of a file share columns and the sweep of the first column",
     "blocks to be saved hold at least one swept variable or sweep, and a "
     "dimension is either the first of all its variables or of none",
     "no bool or complex scalar data is saved"])

SWEEPS = ["freq", "Vds", "Pin", "idx", "tau", "_t"]
VARS = ["Id", "gain", "Pout", "delay", "u_x", "Ex", "my col", "a.b", "K/f", "_raw"]
SETS = ["Vgs", "Temp", "att", "n_run"]
UNITS = [("V", 1, "V"), ("mV", 1e-3, "V"), ("GHz", 1e9, "Hz"),
         ("uA", 1e-6, "A"), ("dBm", 1, "dBm"), ("dB", 1, "dB"),
         ("Ohm", 1, "Ohm"), ("kV", 1e3, "V"), ("pF", 1e-12, "F"),
         ("ms", 1e-3, "s"), ("foo", 1, "foo"), ("m", 1, "m"), ("W", 1, "W")]
ANY = object()


def numbers(ctx, shape, odd=False):
    x = ctx.rng.normal(size=shape) * 10.0 ** ctx.rng.integers(-3, 6)
    if ctx.chance(.2):
        x = np.round(x)
        return files.text_of(ctx, x, "%d")
    if odd:
        x = files.unusual(ctx, x, inf=False)
    return files.text_of(ctx, x, ctx.choice(
        ["%.16e", "%r", "%.6f", "%.3E", "%.9G", "%g", "%12.4e", "%+.5f"]))


def unit(ctx):
    return ctx.choice(UNITS) if ctx.chance(.4) else None


def col(ctx, name, f, texts, u):
    h = (f + "(%s)" if f else "%s") % name
    if u:
        h += ctx.choice([" [%s]", "[%s]", "  [%s]"]) % u[0]
    return (h, texts)


def columns(ctx, n, taken):
    """[(header, texts)...], [wanted variables] for one section."""
    cols, want = [], []
    nrep = ctx.randint(2, 4)
    for nm in ctx.sample([v for v in VARS if v not in taken],
                         ctx.randint(0, 4)):
        kind = ctx.choice(["plain", "plain", "reim", "magarg", "rep", "text"])
        u = unit(ctx)
        if kind == "plain":
            t, v = numbers(ctx, n, True)
            cols.append(col(ctx, nm, None, t, u))
        elif kind == "text":
            t = np.array([ctx.choice(["on", "off", "x 1", "pass"])
                          for _ in range(n)], object)
            u, v = None, t
            cols.append(col(ctx, nm, None, t, u))
        elif kind == "rep":
            t, v = numbers(ctx, (n, nrep), True)
            h = col(ctx, nm, None, None, u)[0]
            cols += [(h, t[:, k]) for k in range(t.shape[1])]
        else:
            a, av = numbers(ctx, n)
            b, bv = numbers(ctx, n)
            fs = ("Re", "Im") if kind == "reim" else ("Mag", "Arg")
            if kind == "magarg":
                a, av = files.text_of(ctx, abs(av) + .1, "%.9g")
                b, bv = files.text_of(ctx, ctx.rng.uniform(-180, 360, n),
                                      "%.7f")
                v = av * np.exp(1j * np.deg2rad(bv))
                ua = u
                ub = ctx.choice([None, ("deg", 1, "deg")])
            else:
                v = av + 1j * bv
                ua = ub = u
            ca = col(ctx, nm, fs[0], a, ua)
            cb = col(ctx, nm, fs[1], b, ub)
            if kind == "reim":
                # both spelled the same way
                cb = (ca[0].replace("Re(", "Im(", 1), b)
            cols += ctx.shuffled([ca, cb]) if ctx.chance(.5) else [ca, cb]
        want.append((nm, kind, v, u))
    if ctx.chance(.5):
        m, k = ctx.choice([(2, 2), (2, 2), (3, 3), (1, 2), (2, 3)])
        io, jo = ctx.choice([(1, 1), (1, 1), (1, 2)])
        style = ctx.choice(["plain", "reim", "magarg"])
        full = np.zeros((n, m, k), float if style == "plain" else complex)
        els = []
        u = unit(ctx) if style == "plain" and ctx.chance(.3) else None
        for i in range(m):
            for j in range(k):
                e = "S%d%d" % (i + io, j + jo)
                a, av = numbers(ctx, n)
                b, bv = numbers(ctx, n)
                if style == "plain":
                    full[:, i, j] = av
                    els.append([col(ctx, e, None, a, u)])
                elif style == "reim":
                    full[:, i, j] = av + 1j * bv
                    els.append([("Re(%s)" % e, a), ("Im(%s)" % e, b)])
                else:
                    a, av = files.text_of(ctx, abs(av) + .1, "%.9g")
                    b, bv = files.text_of(
                        ctx, ctx.rng.uniform(-180, 180, n), "%.6f")
                    full[:, i, j] = av * np.exp(1j * np.deg2rad(bv))
                    els.append([("Mag(%s)" % e, a), ("Arg(%s)" % e, b)])
        for e in ctx.shuffled(els):
            cols += e
        want.append(("S", "matrix" + style, full, (u, io, jo)))
    if not cols:
        t, v = numbers(ctx, n)
        cols.append(("Id", t))
        want.append(("Id", "plain", v, None))
    # keep pairs apart now and then (not the repeated ones, whose order counts)
    if ctx.chance(.4):
        heads = [h for h, _ in cols]
        idx = ctx.shuffled(list(range(len(cols))))
        reps = sorted(i for i in idx if heads.count(heads[i]) > 1)
        it = {}
        for h in set(heads):
            it[h] = iter([i for i in reps if heads[i] == h])
        cols = [cols[next(it[heads[i]])] if heads.count(heads[i]) > 1
                else cols[i] for i in idx]
    return cols, want


def section(ctx, x, cols, settings, head):
    lines = []
    for h in head:
        lines.append(ctx.choice(["!", "! "]) + h)
    for t in settings:
        lines.insert(ctx.randint(0, len(lines)), t)
    lines.append("\t".join([x[0]] + [c[0] for c in cols]))
    for k in range(len(x[1])):
        lines.append("\t".join([x[1][k]] + [c[1][k] for c in cols]))
    return lines


def pad(ctx, lines):
    out = []
    for l in lines:
        if ctx.chance(.05):
            out.append(ctx.choice(["", "  "]))
        out.append(l)
    return out


def setting(ctx, name):
    t, v = numbers(ctx, ())
    u = unit(ctx)
    s = "!@" + name
    if u:
        s += " [%s]" % u[0]
        v = v * u[1]
    s += ctx.choice(["=", ": ", " = "]) + str(t[()]).strip()
    return s, float(v), u[2] if u else None


def scaled(v, u, guess):
    return v * u[1] if (u and guess and v.dtype != object) else v


def bare(name, u, header, guess):
    """Name under which a column is found."""
    if u and not guess:
        return header
    return name


def compare(ctx, db, nm, v, u, guess, sweep, what, extra=()):
    ctx.check(nm in db.vardata, "%s: variable %r lost" % (what, nm),
              got=list(db.vardata.keys()))
    a = db[nm]
    invariant(ctx, a, nm)
    want = tuple(sweep) + tuple(extra)
    got = tuple(d.name for d in a.dims)
    ctx.check(got[:len(want)] == want and a.ndim == np.ndim(v),
              "%s: dimensions of %s" % (what, nm), got=a.dims, want=want)
    if v.dtype == object:
        ctx.check(plain(a).tolist() == v.tolist(), "%s: text of %s" %
                  (what, nm), got=a)
    else:
        v = scaled(v, u, guess)
        ctx.close(plain(a), v, "%s: values of %s" % (what, nm), rtol=1e-12,
                  atol=1e-300)
    if u and guess:
        ctx.check(a.unit == u[2], "%s: unit of %s" % (what, nm), got=a.unit,
                  want=u[2])
        ctx.ev("unit compared")
    if extra:
        ctx.check(list(a.dims[-1].data) == list(range(a.shape[-1])),
                  "%s: numbers of repeated columns" % what,
                  got=a.dims[-1].data)
    ctx.ev("column compared")


def options(ctx):
    o = {}
    for k, p in (("guess_unit", .3), ("make_complex", .3),
                 ("make_matrix", .3)):
        if ctx.chance(p):
            o[k] = False
    return o


def sweep_column(ctx, n):
    nm = ctx.choice(SWEEPS + ["Freq"])
    c = np.cumsum(ctx.rng.uniform(.1, 1, n)) * 10.0 ** ctx.rng.integers(0, 4)
    if ctx.chance(.3):
        c = ctx.rng.permutation(c)
    t, c = files.text_of(ctx, c, ctx.choice(["%.12e", "%r", "%.6f"]))
    u = unit(ctx)
    h = nm + (" [%s]" % u[0] if u else "")
    if nm == "Freq" and not u:
        h = nm = "freq"
    return h, nm, t, c, u


def check_sweep(ctx, db, h, nm, c, u, guess):
    name = nm if guess or not u else h
    if name in ("Freq", "Freq [Hz]", "Freq [GHz]"):
        # normalisation of well known names
        name = [x for x in (name, "freq") if x in db.ivardata][:1]
        ctx.check(name, "sweep lost", got=db.ivardata.keys())
        name = name[0]
    ctx.check(name in db.ivardata, "sweep %s lost" % name,
              got=db.ivardata.keys())
    want = scaled(c, u, guess)
    d = db.ivardata[name]
    ctx.close(d.data, want, "sweep %s" % name, rtol=1e-12)
    if u and guess:
        ctx.check(d.unit == u[2], "unit of sweep", got=d.unit)
    ctx.ev("sweep compared")
    return name


@PROP.family(quick=3500, thorough=50000, floors=["column compared",
                                                 "setting compared"])
def read(ctx):
    n = gen.length(ctx, 1, 6)
    h, nm, t, c, u = sweep_column(ctx, n)
    cols, want = columns(ctx, n, {nm})
    setts = dict((s, setting(ctx, s)) for s in ctx.sample(
        SETS, ctx.choice([0, 0, 1, 2])))
    taken = {nm, "freq", "S"} | set(w[0] for w in want) | set(setts)
    head, props = files.header(ctx, 4, taken=taken, wide=True)
    lines = pad(ctx, section(ctx, (h, t), cols,
                             [s[0] for s in setts.values()], head))
    nl = ctx.choice(["\n", "\n", "\r\n"])
    p = files.write(ctx.path("x.txt"), lines, nl)
    ctx.log(files.show(p)[:1800])
    o = options(ctx)
    guess = o.get("guess_unit", True)
    fn = ctx.choice([read_spdata, read_spdata, read_data])
    ctx.log(fn.__name__, o)
    db = fn(p, **o)
    sw = check_sweep(ctx, db, h, nm, c, u, guess)
    cplx, mat = o.get("make_complex", True), o.get("make_matrix", True)
    heads = [x[0] for x in cols]

    def spelled(name, f=None):
        f = (f + "(%s)" if f else "%s") % name
        for x in heads:
            if x == f or x.replace(" ", "").startswith(
                    f.replace(" ", "") + "["):
                return x

    def find(name, f, uu):
        if uu and not guess:
            return spelled(name, f)
        return (f + "(%s)" if f else "%s") % name
    seen = set()
    for name, kind, v, uu in want:
        if kind in ("plain", "text", "rep"):
            k = find(name, None, uu)
            compare(ctx, db, k, v.squeeze() if False else v, uu, guess,
                    [sw] if n > 1 or kind != "rep" else [], "read",
                    ["rep"] if kind == "rep" else []) \
                if not (kind == "rep" and n == 1) else \
                ctx.close(plain(db[k]).ravel(),
                          scaled(v, uu, guess).ravel(), "repeated column",
                          rtol=1e-12, atol=1e-300)
            seen.add(k)
        elif kind in ("reim", "magarg"):
            fs = ("Re", "Im") if kind == "reim" else ("Mag", "Arg")
            if cplx:
                if uu and not guess:
                    k = [x for x in db.vardata if
                         x.replace(" ", "") ==
                         name.replace(" ", "") + "[%s]" % uu[0]]
                    ctx.check(len(k) == 1, "complex %s" % name,
                              got=list(db.vardata.keys()))
                    k = k[0]
                else:
                    k = name
                compare(ctx, db, k, v, uu, guess, [sw], "complex")
                ctx.check(np.iscomplexobj(db[k]), "complex data", got=db[k])
                seen.add(k)
            elif kind == "reim":
                for f, w in zip(fs, (v.real, v.imag)):
                    k = find(name, f, uu)
                    compare(ctx, db, k, w, uu, guess, [sw], "parts")
                    seen.add(k)
            else:
                k = find(name, "Mag", uu)
                compare(ctx, db, k, abs(v), uu, guess, [sw], "parts")
                k2 = [x for x in db.vardata if x.startswith("Arg(%s)" % name)]
                ctx.check(len(k2) == 1, "angle lost",
                          got=list(db.vardata.keys()))
                ctx.close(np.exp(1j * np.deg2rad(plain(db[k2[0]]))),
                          v / abs(v), "angle", rtol=1e-8)
                seen |= {k, k2[0]}
        else:
            uu, io, jo = uu
            style = kind[6:]
            m, q = v.shape[1:]
            if mat and (cplx or style == "plain") and (guess or not uu):
                compare(ctx, db, "S", v, uu, guess, [sw], "matrix")
                kk = [type(d).__name__ for d in db["S"].dims[-2:]]
                ctx.check(kk == ["DimMatrix_i", "DimMatrix_j"],
                          "matrix dimensions", got=db["S"].dims)
                ctx.check([tuple(d.data) for d in db["S"].dims[-2:]] ==
                          [tuple(range(m)), tuple(range(q))],
                          "matrix coordinates", got=db["S"].dims)
                seen.add("S")
                ctx.ev("matrix compared")
            else:
                for i, j in itertools.product(range(m), range(q)):
                    e = "S%d%d" % (i + io, j + jo)
                    if cplx or style == "plain":
                        k = find(e, None, uu)
                        compare(ctx, db, k, v[:, i, j], uu, guess, [sw],
                                "element")
                        seen.add(k)
                    elif style == "reim":
                        compare(ctx, db, "Re(%s)" % e, v[:, i, j].real, None,
                                guess, [sw], "element")
                        compare(ctx, db, "Im(%s)" % e, v[:, i, j].imag, None,
                                guess, [sw], "element")
                        seen |= {"Re(%s)" % e, "Im(%s)" % e}
                    else:
                        compare(ctx, db, "Mag(%s)" % e, abs(v[:, i, j]), None,
                                guess, [sw], "element")
                        seen |= {"Mag(%s)" % e, "Arg(%s)" % e}
    for s, (_, v, uu) in setts.items():
        ctx.check(s in db.ivardata, "setting %s lost" % s,
                  got=list(db.ivardata.keys()))
        d = db.ivardata[s]
        ctx.close(np.asarray(d.data).ravel(), [v], "setting %s" % s,
                  rtol=1e-12, atol=1e-300)
        if uu or not guess:
            ctx.check(d.unit == uu, "unit of setting %s" % s, got=d.unit,
                      want=uu)
        ctx.ev("setting compared")
    files.check_props(ctx, db.comments, props, "read", guess)
    files.check_comments(ctx, db.comments, head, "read")
    left = [x for x in db.vardata if x not in seen and x not in props and
            x not in ("FILENAME", "FILEINDEX", sw)]
    ctx.check(not left, "variables from nowhere", got=left)
    ctx.state(sorted(set(w[1] for w in want)), o, nl, bool(setts), bool(head),
              fn.__name__)


@PROP.family(quick=2000, thorough=30000, floors=["sections merged"])
def sections(ctx):
    n = gen.length(ctx, 2, 5)
    h, nm, t, c, u = sweep_column(ctx, n)
    if nm == "Freq":
        raise Skip()
    names = ctx.sample(SETS, ctx.randint(1, 3))
    grid = ctx.chance(.4)
    if grid:
        axes = [np.array(sorted(set(np.round(
            ctx.rng.normal(size=k), 3))))
            for k in gen.lengths(ctx, len(names), 2, 3, .01, 66)]
        combos = list(itertools.product(*axes))
    else:
        axes = None
        combos = [tuple(np.round(ctx.rng.normal(size=len(names)), 3))
                  for _ in range(ctx.randint(2, 5))]
    hyper = grid and ctx.chance(.7)
    if not grid or ctx.chance(.5):
        combos = ctx.shuffled(combos)
    if len(combos) < 2 or len(combos) > 12 or \
            (grid and min(len(a) for a in axes) < 2):
        raise Skip()
    us = [unit(ctx) for _ in names]
    proto, want0 = columns(ctx, n, {nm})
    kinds = dict((w[0], w[1]) for w in want0)
    lines, wants, extra = [], [], []
    heads = [x[0] for x in proto]
    withp = ctx.chance(.5)
    for cb in combos:
        # same headers, new numbers
        cols, vals = [], {}
        for hd, tx in proto:
            if isinstance(tx[0], str) and not tx[0].strip()[:1] in \
                    "+-.0123456789" and tx[0].strip().lower() != "nan":
                tt = np.array([ctx.choice(["on", "off", "pass"])
                               for _ in range(n)], object)
                vv = tt
            elif hd.startswith("Mag("):
                tt, vv = files.text_of(ctx, ctx.rng.uniform(.1, 9, n), "%.9g")
            elif hd.startswith("Arg("):
                tt, vv = files.text_of(ctx, ctx.rng.uniform(-180, 180, n),
                                       "%.6f")
            else:
                tt, vv = numbers(ctx, n)
            cols.append((hd, tt))
            vals.setdefault(hd, []).append(vv)
        st = []
        for s, uu, v in zip(names, us, cb):
            st.append("!@%s%s=%r" % (s, " [%s]" % uu[0] if uu else "",
                                     float(v)))
        hd = ["free text"] if ctx.chance(.3) else []
        if withp:
            x = ctx.randint(-5, 5) * 1.5
            hd.append("run level : %r" % x)
            extra.append(x)
        lines += pad(ctx, section(ctx, (h, t), cols, st, hd))
        wants.append(vals)
    p = files.write(ctx.path("x.txt"), lines, ctx.choice(["\n", "\r\n"]))
    ctx.log(files.show(p)[:2500])
    ctx.log("hyper", hyper, "settings", names)
    db = ctx.choice([read_spdata, read_data])(p, hyper=hyper)
    sw = check_sweep(ctx, db, h, nm, c, u, True)
    stack = {}
    for hd in heads:
        stack[hd] = np.array([w[hd] for w in wants])   # section, rep, n

    def pick(name, f=None):
        f = (f + "(%s)" if f else "%s") % name
        for x in heads:
            if x == f or x.replace(" ", "").startswith(
                    f.replace(" ", "") + "["):
                return stack[x]
        raise KeyError(f)

    def cvals(name, style):
        if style == "reim":
            return pick(name, "Re")[:, 0] + 1j * pick(name, "Im")[:, 0]
        if style == "magarg":
            return pick(name, "Mag")[:, 0] * \
                np.exp(1j * np.deg2rad(pick(name, "Arg")[:, 0]))
        return pick(name)[:, 0]

    def verify(name, v, uu, mats, rep=False):
        """v: section, n, ..."""
        ctx.check(name in db.vardata, "sections: variable %r lost" % name,
                  got=list(db.vardata.keys()))
        a = db[name]
        invariant(ctx, a, name)
        gn = [d.name for d in a.dims]
        if hyper:
            need = {sw} | set(names)
        else:
            need = {sw, "INDEX1"}
        if rep:
            need = need | {"rep"}
        ctx.check(set(gn[:len(need)]) == need and a.ndim ==
                  len(need) + mats, "sections: dimensions of %s" % name,
                  got=a.dims, want=sorted(need))
        arr = plain(a)
        inner = [sw] + (["rep"] if rep else [])
        order = [gn.index(x) for x in (names if hyper else ["INDEX1"]) +
                 inner]
        arr = arr.transpose(order + list(range(len(need), a.ndim)))
        for k, cb in enumerate(combos):
            if hyper:
                idx = []
                for s, uu2, y in zip(names, us, cb):
                    m = uu2[1] if uu2 else 1
                    d = np.asarray(db.ivardata[s].data, float)
                    hit = np.flatnonzero(abs(d - y * m) <= 1e-9 * abs(y * m))
                    ctx.check(len(hit) == 1, "setting %s value %r" % (s, y),
                              got=d)
                    idx.append(hit[0])
                g = arr[tuple(idx)]
            else:
                g = arr[k]
            w = v[k]
            if w.dtype == object or w.dtype.kind in "US":
                ctx.check(g.tolist() == w.tolist(), "sections: text %s" %
                          name, got=g, want=w)
            else:
                ctx.close(g, w * (uu[1] if uu else 1), "sections: values of "
                          "%s, section %d" % (name, k), rtol=1e-12,
                          atol=1e-300)
        if uu:
            ctx.check(a.unit == uu[2], "sections: unit of %s" % name,
                      got=a.unit)
        ctx.ev("variable over sections compared")
    for name, kind, v, uu in want0:
        if kind in ("plain", "text"):
            verify(name, pick(name)[:, 0], uu, 0)
        elif kind == "rep":
            verify(name, pick(name).swapaxes(1, 2), uu, 0, rep=True)
        elif kind in ("reim", "magarg"):
            verify(name, cvals(name, kind), uu, 0)
        else:
            uu, io, jo = uu
            m, q = v.shape[1:]
            w = np.stack([np.stack([cvals("S%d%d" % (i + io, j + jo),
                                          kind[6:]) for j in range(q)], -1)
                          for i in range(m)], -2)
            if m == 1 or q == 1:
                # merging drops dimensions of length one
                g = db["S"]
                ctx.check(g.size == w.size, "sections: matrix",
                          got=g.dims)
                continue
            verify("S", w, uu, 2)
    if not hyper:
        for s, uu, col_ in zip(names, us, zip(*combos)):
            a = db[s]
            ctx.check([d.name for d in a.dims] == ["INDEX1"],
                      "setting %s over sections" % s, got=a.dims)
            ctx.close(plain(a), np.array(col_) * (uu[1] if uu else 1),
                      "setting %s" % s, rtol=1e-12)
            if uu:
                ctx.check(a.unit == uu[2], "unit of setting", got=a.unit)
        if withp:
            a = db["run level"]
            ctx.check([d.name for d in a.dims] == ["INDEX1"],
                      "property over sections", got=a.dims)
            ctx.close(plain(a), extra, "property over sections")
            ctx.ev("property over sections")
    ctx.ev("sections merged")
    ctx.state(hyper, len(names), sorted(set(kinds.values())), withp)


@PROP.family(quick=2500, thorough=30000, floors=["round trip"])
def saved(ctx):
    nd = ctx.choice([1, 1, 2, 2, 3])
    names = ctx.sample(["freq", "Vds", "Pin", "x"], nd)
    pool = []
    for nm, n in zip(names, gen.lengths(ctx, nd, 2, 4)):
        pool.append(DimSweep(nm, gen.coords(ctx, n),
                             unit=ctx.choice([None, "V", "Hz"]),
                             outputformat=ctx.choice([None, "%.16e",
                                                      "%r"])))
    first = pool[0]
    db = DataBlock()
    fmts, ports = [None, None, "%.16e", "%r", "%25.16e", "%-25.16e"], {}
    for nm in ctx.sample(["Id", "gain", "Pout", "delay", "S", "Z", "my col"],
                         ctx.randint(1, 4)):
        ds = [first] + ctx.sample(pool[1:], ctx.randint(0, nd - 1))
        if ctx.chance(.5):
            ds = list(pool)
        kind = ctx.choice(["float", "complex", "int"])
        if nm in ("S", "Z"):
            m, n = ctx.choice([(2, 2), (3, 3), (2, 3)])
            ds = ds + files.ports(ctx, ports, m, n)
        fmt = ctx.choice(fmts) if kind != "int" else ctx.choice(
            [None, "%d", "%5d"])
        db[nm] = gen.array(ctx, ds, kind, fmt=fmt,
                           unit=ctx.choice([None, "A", "dBm"]))
    if ctx.chance(.1):
        db["lone"] = DimSweep("lone", gen.coords(ctx, 3))
    scal = ctx.sample(["Vgs", "Tj", "count"], ctx.randint(0, 2))
    for nm in scal:
        db[nm] = hfarray(float(ctx.rng.normal()) if nm != "count" else
                         ctx.randint(0, 9), unit=ctx.choice([None, "V"]))
    head, props = files.header(
        ctx, 3, taken=set(db.vardata) | set(db.ivardata), wide=True)
    if head or ctx.chance(.4):
        if scal and ctx.chance(.3):
            # not what the variable is saved as
            head = head + [ctx.choice(["%s2: 3.5", "%s is set by hand"])
                           % ctx.choice(scal)]
        db.comments = Comments(head)
    p = ctx.path("o.txt")
    ctx.log("save", db, [(k, v.dims, v.dtype.kind, v.outputformat)
                         for k, v in db.vardata.items()], head)
    with Pure(ctx, db, what="save_spdata"):
        save_spdata(db, p)
    ctx.log(files.show(p)[:1500])
    groups = set(tuple(d.name for d in v.dims if d in pool)
                 for v in db.vardata.values() if v.ndim)
    if len(groups) == 1 and "lone" not in db:
        whole(ctx, db, p, pool, list(groups)[0], props, head)
        ctx.ev("whole block compared")
    else:
        parts(ctx, db, p, pool)
    ctx.ev("round trip")
    ctx.state(nd, sorted((v.dtype.kind, len(v.dims), v.outputformat)
                         for v in db.vardata.values()), bool(head))


def whole(ctx, db, p, pool, dims, props, head):
    got = ctx.choice([read_spdata, read_data])(p, hyper=True)
    byname = dict((d.name, d) for d in pool)
    for nm in dims:
        ctx.check(nm in got.ivardata, "saved sweep %s lost" % nm,
                  got=list(got.ivardata.keys()))
        g = np.asarray(got.ivardata[nm].data, float)
        w = np.asarray(byname[nm].data, float)
        if nm == dims[0]:
            ctx.close(g, w, "saved sweep %s" % nm, rtol=1e-15)
        else:
            ctx.close(np.sort(g), np.sort(w), "saved sweep %s" % nm,
                      rtol=1e-12)
        if byname[nm].unit:
            ctx.check(got.ivardata[nm].unit == byname[nm].unit,
                      "unit of saved sweep", got=got.ivardata[nm].unit,
                      want=byname[nm].unit)
    for k, v in db.vardata.items():
        ctx.check(k in got.vardata, "saved variable %s lost" % k,
                  got=list(got.vardata.keys()))
        a = got[k]
        invariant(ctx, a, k)
        if v.ndim == 0:
            ctx.check(np.all(abs(plain(a) - plain(v)) <=
                             1e-9 * abs(plain(v))),
                      "saved scalar %s" % k, got=a, want=v)
            continue
        gn = [d.name for d in a.dims]
        vn = [d.name for d in v.dims]
        nm = len([x for x in vn if x not in byname])
        ctx.check(set(gn[:len(dims)]) == set(dims) and a.ndim == v.ndim,
                  "dimensions of saved %s" % k, got=a.dims)
        arr = plain(a).transpose([gn.index(x) for x in dims] +
                                 list(range(len(dims), a.ndim)))
        for ax, x in enumerate(dims):
            src = np.asarray(byname[x].data, float)
            g = np.asarray(got.ivardata[x].data, float)
            arr = np.take(arr, [np.argmin(abs(g - y)) for y in src], ax)
        w = plain(v).transpose([vn.index(x) for x in dims] +
                               list(range(len(dims), v.ndim)))
        ctx.close(arr, w, "saved values of %s" % k, rtol=1e-15)
        if v.unit:
            ctx.check(a.unit == v.unit, "unit of saved %s" % k, got=a.unit,
                      want=v.unit)
        ctx.ev("variable compared")
    files.check_props(ctx, got.comments, props, "saved", True)
    files.check_comments(ctx, got.comments, head, "saved")


def parts(ctx, db, p, pool):
    """Groups of variables on different sweeps come as separate sections,
    each complete: judged from the text of the file."""
    lines = [l for l in files.show(p).splitlines() if l.strip()]
    nums = []
    for l in lines:
        if l.startswith("!") or l[:1].isalpha() or l[:1] == "_":
            continue
        nums += [float(x) for x in l.split("\t")]
    nums = np.sort(np.array(nums))
    for k, v in db.vardata.items():
        if v.ndim == 0:
            continue
        w = plain(v)
        w = np.concatenate([w.real.ravel(), w.imag.ravel()]) \
            if w.dtype.kind == "c" else w.ravel()
        pos = np.clip(np.searchsorted(nums, w), 1, len(nums) - 1)
        near = np.minimum(abs(nums[pos] - w), abs(nums[pos - 1] - w))
        ctx.check(np.all(near <= 1e-12 * abs(w)), "saved numbers of %s lost" %
                  k, got=w[near > 1e-12 * abs(w)])
        ctx.ev("numbers found in file")
    if "lone" in db:
        w = np.asarray(db.ivardata["lone"].data, float)
        ctx.check(all(np.any(abs(nums - x) <= 1e-6 * abs(x) + 1e-300)
                      for x in w), "saved sweep lost", got=w)


@PROP.family(quick=600, floors=["refused"])
def malformed(ctx):
    n = ctx.randint(2, 5)
    h, nm, t, c, u = sweep_column(ctx, n)
    cols, want = columns(ctx, n, {nm})
    if any(w[1] == "text" for w in want):
        raise Skip()
    lines = section(ctx, (h, t), cols, [], ["a comment"])
    how = ctx.choice(["no header", "header last", "comment last", "short row",
                      "long row", "extra head", "empty"])
    if how == "no header":
        del lines[1]
    elif how == "header last":
        lines = lines[:2]
    elif how == "comment last":
        lines.append("! the end")
    elif how == "short row":
        k = ctx.randint(2, len(lines) - 1)
        lines[k] = lines[k].rsplit("\t", 1)[0]
    elif how == "long row":
        k = ctx.randint(2, len(lines) - 1)
        lines[k] += "\t1.5"
    elif how == "extra head":
        lines[1] += "\tmore"
    else:
        lines = ["", ""]
    p = files.write(ctx.path("bad.txt"), lines)
    ctx.log(how, files.show(p)[:1200])
    ctx.raises(Exception, lambda: read_spdata(p),
               "malformed table accepted (%s)" % how)
    ctx.ev("refused")
    ctx.state(how)
