"""C19: Touchstone files."""
import numpy as np

from hftools.dataset import hfarray, DataBlock, DimSweep, DimMatrix_i, \
    DimMatrix_j
from hftools.file_formats import read_touchstone, save_touchstone, read_data
from hftools.file_formats.common import Comments
from hftools.networks.multiports import SArray
from hfmon import files, gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, descs, invariant

PROP = Property(
    "C19", "An independent serializer writes random N-port data in random "
    "Touchstone dialects (RI/MA/DB, Hz..PHz, S/Y/Z/G/H, 1-9 ports, 1..6 "
    "frequencies, per-row / four-pairs / one-line wrapping, blank lines, full "
    "line and trailing comments, LF/CRLF, noise sections), the reader's "
    "blocks are compared value by value with what the text denotes; random "
    "blocks are saved and read back; malformed variants must be refused. "
    "Distinct state = (format, unit, type, ports, wrapping, noise, line end).",
    ["option line is unit, type, format and optionally R and the impedance",
     "noise reflection is compared in magnitude-angle files only (the "
     "standard fixes that form)",
     "Z0 and Rn are compared only when the option line gives the impedance"])

MULT = {"Hz": 1, "kHz": 1e3, "MHz": 1e6, "GHz": 1e9, "THz": 1e12,
        "PHz": 1e15}


def decode(fmt, x, y):
    if fmt == "RI":
        return x + 1j * y
    m = x if fmt == "MA" else 10 ** (x / 20)
    return m * (np.cos(np.deg2rad(y)) + 1j * np.sin(np.deg2rad(y)))


def raw(ctx, fmt, shape):
    """Two columns of numbers denoting random complex data."""
    r = ctx.rng
    if fmt == "RI":
        return r.uniform(-1, 1, shape), r.uniform(-1, 1, shape)
    ang = r.uniform(-180, 180, shape)
    if ctx.chance(.2):
        ang = np.round(ang / 90) * 90
    if fmt == "MA":
        return r.uniform(0, 1, shape), ang
    return r.uniform(-80, .5, shape), ang


def case(ctx, s):
    return ctx.choice([str, str.upper, str.lower])(s)


def freqs(ctx, nf):
    f = np.cumsum(ctx.rng.uniform(.5, 3, nf)) + 1
    if ctx.chance(.3):
        f = np.arange(nf) + ctx.randint(2, 5)
    style = ctx.choice(["%.10f", "%r", "%.6e", "%.4f"])
    t, v = files.text_of(ctx, f, style)
    if (np.diff(v) <= 0).any():
        raise Skip()
    return t, v


def wrap(ctx, how, ft, cells):
    """Lines of one frequency; cells is a list of rows of number texts."""
    sep = ctx.choice([" ", "  ", "\t", "   "])
    if how == "line":
        return [sep.join([ft] + [x for row in cells for x in row])]
    out = []
    for k, row in enumerate(cells):
        row = ([ft] if k == 0 else []) + list(row)
        if how == "four":
            first = 9 if k == 0 else 8
            parts = [row[:first]] + [row[i:i + 8]
                                     for i in range(first, len(row), 8)]
        else:
            parts = [row]
        out += [(sep if i or k else "") + sep.join(p)
                for i, p in enumerate(parts)]
    return out


def network(ctx, n, fmt, nf):
    x, y = raw(ctx, fmt, (nf, n, n))
    if fmt == "RI":
        x, y = [files.unusual(ctx, v, inf=False) for v in (x, y)]
    style = ctx.choice(["%.8f", "%r", "%.6e", "%+.5f", "%g"])
    xt, xv = files.text_of(ctx, x, style)
    yt, yv = files.text_of(ctx, y, style)
    return xt, yt, decode(fmt, xv, yv)


def rows_of(n, xt, yt, k):
    """Rows of number texts at frequency k in file order."""
    pair = lambda i, j: [xt[k, i, j], yt[k, i, j]]
    if n == 2:       # S11 S21 S12 S22
        return [pair(0, 0) + pair(1, 0) + pair(0, 1) + pair(1, 1)]
    return [sum((pair(i, j) for j in range(n)), []) for i in range(n)]


def generate(ctx, n=None, noise=None, fmt=None):
    n = n or ctx.choice([1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
    nf = ctx.choice([1, 1, 2, 3, 4, gen.length(ctx, 6, 6, .1)])
    fmt = fmt or ctx.choice(["RI", "MA", "DB"])
    unit = ctx.choice(sorted(MULT))
    kind = ctx.choice("SSSYZ" if n != 2 else "SSSYZGH")
    how = "line" if n <= 2 else ctx.choice(["line", "row", "four"])
    ft, fv = freqs(ctx, nf)
    xt, yt, want = network(ctx, n, fmt, nf)
    z0 = None
    opt = [case(ctx, unit), case(ctx, kind), case(ctx, fmt)]
    if ctx.chance(.85):
        z0 = ctx.choice([50, 75, 1, 377, 12.5])
        opt += [case(ctx, "R"), ctx.choice(["%g", "%.1f", "%s"]) % z0]
    sp = ctx.choice([" ", "  ", "\t"])
    head, props = files.header(ctx, 4, taken=("Z0", "S", "Y", "Z", "G", "H"),
                               wide=True)
    head = ["!" + ctx.choice(["", " "]) + h for h in head]
    cut = ctx.randint(0, len(head))
    lines = head[:cut] + ["#" + ctx.choice(["", " "]) + sp.join(opt)] + \
        head[cut:]

    def body(ls):
        for l in ls:
            if ctx.chance(.06):
                lines.append("")
            if ctx.chance(.08):
                l += ctx.choice([" ! note", "!note", "\t! x=3", " ! 1 2 ! 3",
                                 "!was! 0.5"])
            lines.append(ctx.choice(["", "", " "]) + l)
    for k in range(nf):
        body(wrap(ctx, how, ft[k], rows_of(n, xt, yt, k)))
        if ctx.chance(.05):
            lines.append("! between the data")
    nz = None
    if n == 2 and (noise if noise is not None else ctx.chance(.4)):
        same = ctx.chance(.4)
        if same:
            nft, nfv = ft, fv
        elif nf > 1 and ctx.chance(.4):
            # as many as the network has, from some point on others
            k = ctx.randint(1, nf - 1)
            nft = list(ft)
            off = ctx.rng.uniform(.2, .8) * np.diff(fv)[k - 1:]
            if ctx.chance(.5):
                off = fv[k:] * 10.0 ** ctx.rng.uniform(-4, -2)
            t, v = files.text_of(ctx, fv[k:] + off, "%.8e")
            nft[k:] = t
            nfv = np.append(fv[:k], v)
            if np.allclose(nfv, fv, rtol=3e-5) or (np.diff(nfv) <= 0).any():
                raise Skip()
        else:
            m = ctx.randint(1, 4)
            nfv = np.sort(ctx.rng.uniform(.1, fv[-1], m))
            nft, nfv = files.text_of(ctx, nfv, "%.8e")
            if nfv[0] > fv[-1] or (np.diff(nfv) <= 0).any():
                raise Skip()
        m = len(nft)
        Ft, Fv = files.text_of(ctx, ctx.rng.uniform(.1, 5, m), "%.6f")
        gx, gy = raw(ctx, fmt, m)
        gxt, gxv = files.text_of(ctx, gx, "%.7f")
        gyt, gyv = files.text_of(ctx, gy, "%.7f")
        Rt, Rv = files.text_of(ctx, ctx.rng.uniform(.01, 3, m), "%.6f")
        if ctx.chance(.5):
            lines.append("! noise parameters")
        body([" ".join(x) for x in zip(nft, Ft, gxt, gyt, Rt)])
        nz = dict(f=nfv * MULT[unit], Fmin=10 ** (Fv / 10), Rn=Rv,
                  Gopt=decode(fmt, gxv, gyv) if fmt == "MA" else None,
                  same=same)
    d = dict(n=n, nf=nf, fmt=fmt, unit=unit, kind=kind, how=how, z0=z0,
             f=fv * MULT[unit], want=want, noise=nz, props=props,
             head=head)
    return lines, d


def compare(ctx, db, d, what):
    k = d["kind"]
    ctx.check(k in db.vardata, "%s: no %s matrix" % (what, k),
              got=db.vardata.keys())
    a = db[k]
    invariant(ctx, a, what)
    n = d["n"]
    ctx.check([type(x).__name__ for x in a.dims] ==
              ["DimSweep", "DimMatrix_i", "DimMatrix_j"] and
              a.dims[0].name == "freq" and a.dims[0].unit == "Hz" and
              a.shape == (d["nf"], n, n), "%s: shape" % what, got=a.dims)
    ctx.close(a.dims[0].data, d["f"], "%s: frequencies" % what, rtol=1e-14)
    ctx.close(plain(db["freq"]), d["f"], "%s: freq" % what, rtol=1e-14)
    ctx.close(plain(a), d["want"], "%s: matrix" % what, rtol=1e-12,
              atol=1e-14)
    ctx.ev("matrix compared")
    if d["z0"] is not None:
        ctx.close(float(plain(db["Z0"])), d["z0"], "%s: Z0" % what,
                  rtol=1e-15)
    nz = d["noise"]
    if nz is None:
        for v in ("Rn", "Fmin", "Gopt"):
            ctx.check(v not in db, "%s: noise from nowhere" % what, got=v)
        return
    ctx.ev("noise section")
    name = "freq" if nz["same"] else None
    for v in ("Fmin", "Rn", "Gopt"):
        x = db[v]
        invariant(ctx, x, what)
        ctx.check(x.ndim == 1 and x.dims[0].unit == "Hz" and
                  (name is None or x.dims[0].name == name),
                  "%s: %s dimensions" % (what, v), got=x.dims)
        ctx.close(x.dims[0].data, nz["f"], "%s: noise frequencies" % what,
                  rtol=1e-14)
    ctx.close(plain(db.Fmin), nz["Fmin"], "%s: Fmin" % what, rtol=1e-12)
    if d["z0"] is not None:
        ctx.close(plain(db.Rn), nz["Rn"] * d["z0"], "%s: Rn" % what,
                  rtol=1e-12)
    if nz["Gopt"] is not None:
        ctx.close(plain(db.Gopt), nz["Gopt"], "%s: Gopt" % what, rtol=1e-12,
                  atol=1e-14)


@PROP.family(quick=2500, thorough=40000,
             floors=["matrix compared", "noise section"])
def read(ctx):
    lines, d = generate(ctx)
    p = ctx.path("x.s%dp" % d["n"])
    nl = ctx.choice(["\n", "\n", "\r\n"])
    files.write(p, lines, nl)
    ctx.log(files.show(p)[:1500])
    guess = ctx.chance(.5)
    db = ctx.choice([read_touchstone, read_data])(p, guess_unit=guess)
    compare(ctx, db, d, "read")
    files.check_props(ctx, db.comments, d["props"], "read", guess)
    files.check_comments(ctx, db.comments, d["head"], "read")
    ctx.state(d["fmt"], d["unit"], d["kind"], d["n"], d["how"],
              d["noise"] is not None, nl, min(d["nf"], 3))


@PROP.family(quick=1500, thorough=20000, floors=["round trip"])
def saved(ctx):
    n = ctx.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    nf = ctx.choice([1, 2, 3, gen.length(ctx, 5, 5, .1)])
    f = np.cumsum(ctx.rng.uniform(.5, 3, nf)) * \
        10.0 ** ctx.choice([0, 3, 6, 9])
    if ctx.chance(.2):
        f = [int(x) + k for k, x in enumerate(f)]
    dims = (DimSweep("freq", f, unit=ctx.choice([None, "Hz"])),
            gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n))
    S = ctx.rng.normal(size=(nf, n, n))
    if ctx.chance(.85):
        S = S + 1j * ctx.rng.normal(size=S.shape)
    cls = ctx.choice([hfarray, SArray])
    db = DataBlock()
    fmt = ctx.choice([None, "%.16e", "%.8e", "%.10f"])
    db.S = cls(gen.layout(ctx, S), dims=dims)
    if fmt:
        db.S.outputformat = fmt
    want = {}
    if ctx.chance(.4):
        db.Z0 = hfarray(ctx.choice([75.0, 50.0, 12.5, 49.9876543, 123456.75,
                                    float(ctx.rng.uniform(1, 99))]))
    for nm in ctx.sample(["Vgs", "Id", "count", "label"], ctx.randint(0, 3)):
        if nm == "label":
            want[nm] = ctx.choice(["some text", "a b", "LIN"])
        elif nm == "count":
            want[nm] = ctx.randint(0, 9)
        else:
            want[nm] = float(ctx.rng.normal())
        db[nm] = hfarray(want[nm])
    head, props = files.header(ctx, 3, taken=("Z0", "S", "Vgs", "Id"),
                               wide=True)
    if head or ctx.chance(.5):
        db.comments = Comments(head)
    p = ctx.path("out.s%dp" % n)
    ctx.log("save", db, fmt, head)
    with Pure(ctx, db, what="save_touchstone"):
        save_touchstone(db, p)
    got = ctx.choice([read_touchstone, read_data])(p, guess_unit=False)
    a = got.S
    invariant(ctx, a, "saved")
    atol = {None: 1e-15, "%.16e": 1e-15, "%.8e": 1e-7, "%.10f": 1e-9}[fmt]
    ctx.check(a.shape == S.shape, "saved: shape", got=a.shape)
    ctx.close(plain(a), S, "saved: matrix", rtol=1e-15, atol=atol)
    ctx.close(a.dims[0].data, np.array(f, float), "saved: frequencies",
              rtol=1e-15)
    ctx.close(float(plain(got.Z0)), float(plain(db.Z0)) if "Z0" in db
              else 50.0, "saved: reference impedance", rtol=1e-12)
    files.check_props(ctx, got.comments, props, "saved")
    files.check_comments(ctx, got.comments, head, "saved")
    for nm, v in want.items():
        ctx.check(nm in got, "saved: scalar %s lost" % nm)
        g = plain(got[nm])
        ok = str(g) == v if isinstance(v, str) else \
            abs(float(g) - v) <= 1e-15 * abs(v)
        ctx.check(ok, "saved: scalar %s" % nm, got=g, want=v)
    ctx.ev("round trip")
    ctx.state(n, nf, fmt, S.dtype.kind, cls.__name__, sorted(want))


def sections(rows, size):
    """Number of leading rows forming frequencies of *size* numbers each, in
    increasing order; None when a frequency is cut or too long."""
    k, last = 0, None
    while k < len(rows):
        if last is not None and rows[k][0] <= last:
            return k
        last, have = rows[k][0], 0
        while have < size and k < len(rows):
            have += len(rows[k])
            k += 1
        if have != size:
            return None
    return k


def fits(lines):
    """Can the numbers of the file be a network of any number of ports?"""
    rows = [[float(x) for x in l.split("!")[0].split()] for l in lines
            if l.strip() and l.strip()[0] not in "!#"]
    total = sum(map(len, rows))
    for n in range(1, int(total ** .5) + 2):
        k = sections(rows, 2 * n * n + 1)
        if k and k == len(rows):
            return True
        if k and n == 2 and sections(rows[k:], 5) == len(rows) - k:
            return True
    return False


@PROP.family(quick=600, floors=["refused"])
def malformed(ctx):
    lines, d = generate(ctx, n=ctx.choice([1, 2, 3, 4]), noise=False)
    opt = [k for k, l in enumerate(lines) if l.startswith("#")][0]
    data = [k for k, l in enumerate(lines)
            if k > opt and l.strip() and not l.strip().startswith("!")]
    how = ctx.choice(["no option", "two options", "unit", "format", "drop",
                      "extra", "word", "order", "truncate", "empty"])
    if how == "no option":
        del lines[opt]
    elif how == "two options":
        lines.insert(ctx.choice(data), lines[opt])
    elif how == "unit":
        lines[opt] = "# Gcycles S RI R 50"
    elif how == "format":
        lines[opt] = "# GHz S XY R 50"
    elif how in ("drop", "extra", "word"):
        k = ctx.choice(data)
        w = lines[k].split("!")[0].split()
        if how == "drop":
            w = w[:-1]
        elif how == "extra":
            w = w + ["0.5"]
        else:
            w[ctx.randint(0, len(w) - 1)] = "abc"
        lines[k] = " ".join(w)
    elif how == "order":
        if d["nf"] < 2 or d["how"] != "line":
            raise Skip()
        i, j = ctx.sample(range(d["nf"]), 2)
        lines[data[i]], lines[data[j]] = lines[data[j]], lines[data[i]]
    elif how == "truncate":
        if d["how"] == "line" or len(data) < 2:
            raise Skip()
        del lines[data[-1]]
    else:
        lines = [l for k, l in enumerate(lines) if k not in data]
    if how in ("drop", "extra", "order", "truncate") and fits(lines):
        raise Skip()        # reads as another valid file
    p = files.write(ctx.path("bad.s2p"), lines)
    ctx.log(how, files.show(p)[:800])
    ctx.raises(Exception, lambda: read_touchstone(p),
               "malformed file accepted (%s)" % how)
    ctx.ev("refused")
    ctx.state(how, d["n"], d["how"])
