"""C20: CITI files."""
import numpy as np

from hftools.dataset import hfarray, DataBlock, DimSweep, DimMatrix_i, \
    DimMatrix_j
from hftools.file_formats import read_citi, save_citi, read_data
from hftools.file_formats.common import Comments
from hfmon import files, gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, descs, invariant, like

PROP = Property(
    "C20", "An independent serializer writes random CITI packages (0-3 swept "
    "variables as lists or segments, MAG/RI/MAGANGLE data arrays, matrix "
    "elements as Sij or S[i,j] in any order, comments at every permitted "
    "place in every style, blank lines, indentation, LF/CRLF); the reader's "
    "block is compared value by value with what the text denotes. Random "
    "blocks are saved and read back. Malformed variants must be refused. "
    "Distinct state = (dims, formats, sweep styles, matrix style, line end).",
    ["one package per file", "names without blanks",
     "all data arrays depend on all swept variables (the format has no other)",
     "matrix indices 1..9, more than one element"])

DIMS = ["Freq", "freq", "Vgs", "Power", "T_amb", "x"]
VARS = ["Id", "gain", "Pout", "PORT", "delay", "u_x", "E1", "END_point",
        "NAMEx", "DATAx"]


def numbers(ctx, shape, scale=True):
    x = ctx.rng.normal(size=shape)
    if scale:
        x = x * 10.0 ** ctx.rng.integers(-3, 9)
    x = files.unusual(ctx, x, inf=scale)
    return files.text_of(ctx, x, ctx.choice(
        ["%.16e", "%r", "%.6f", "%.3E", "%.9G", "%g", "%+.8e"]))


def decode(fmt, x, y):
    if fmt == "RI":
        return x + 1j * y
    return x * (np.cos(np.deg2rad(y)) + 1j * np.sin(np.deg2rad(y)))


def data(ctx, fmt, shape):
    if fmt == "MAG":
        t, v = numbers(ctx, shape)
        return [[a] for a in t.ravel()], v
    if fmt == "RI":
        a, av = numbers(ctx, shape, False)
        b, bv = numbers(ctx, shape, False)
    else:
        a, av = files.text_of(ctx, ctx.rng.uniform(0, 2, shape), "%.9g")
        b, bv = files.text_of(ctx, ctx.rng.uniform(-180, 180, shape), "%.9g")
    return list(zip(a.ravel(), b.ravel())), decode(fmt, av, bv)


def clines(ctx, heads):
    out = []
    for h in heads:
        out.append(ctx.choice(["!", "! ", "#", "# ", "COMMENT ",
                               "COMMENT  "]) + h)
    return out


def generate(ctx):
    nd = ctx.choice([0, 1, 1, 1, 2, 3])
    dims, dlines, lists = [], [], []
    for nm, n in zip(ctx.sample(DIMS[1:] if ctx.chance(.7) else
                                [d for d in DIMS if d != "freq"], nd),
                     gen.lengths(ctx, nd, 1, 4)):
        lo, hi = sorted(ctx.rng.uniform(0, 10, 2) * 10.0 **
                        ctx.rng.integers(0, 9))
        if ctx.chance(.3):
            (a, b), (av, bv) = files.text_of(ctx, [lo, hi], "%.9g")
            c = np.linspace(av, bv, n)
            lists.append(["SEG_LIST_BEGIN", "SEG %s %s %d" % (a, b, n),
                          "SEG_LIST_END"])
            how = "seg"
        else:
            c = np.cumsum(ctx.rng.uniform(.1, 1, n)) * 10.0 ** \
                ctx.rng.integers(0, 9)
            if ctx.chance(.3):
                c = ctx.rng.permutation(c)
            t, c = files.text_of(ctx, c, ctx.choice(["%.12e", "%r", "%.6f"]))
            lists.append(["VAR_LIST_BEGIN"] + list(t) + ["VAR_LIST_END"])
            how = "list"
        dlines.append("VAR %s MAG %d" % (nm, n))
        dims.append((nm, c, how))
    shape = tuple(len(d[1]) for d in dims)
    arrays, want = [], {}
    for nm in ctx.sample(VARS, ctx.randint(0, 3)):
        fmt = ctx.choice(["MAG", "RI", "MAGANGLE"])
        t, v = data(ctx, fmt, shape)
        arrays.append((nm, fmt, t))
        want[nm] = ("v", v)
    mstyle = None
    if ctx.chance(.6) or not arrays:
        mstyle = ctx.choice(["S%d%d", "S[%d,%d]"])
        m, n = ctx.choice([(2, 2), (2, 2), (1, 2), (3, 1), (3, 3), (2, 3)])
        io, jo = ctx.choice([(1, 1), (1, 1), (2, 4)])
        full = np.zeros(shape + (m, n), complex)
        fmt = ctx.choice(["RI", "MAGANGLE", "MAG"])
        for i in range(m):
            for j in range(n):
                f = fmt if ctx.chance(.8) else ctx.choice(["RI", "MAG"])
                t, v = data(ctx, f, shape)
                full[..., i, j] = v
                arrays.append((mstyle % (i + io, j + jo), f, t))
        want["S"] = ("m", full)
    arrays = ctx.shuffled(arrays)
    taken = set(want) | set(d[0] for d in dims) | {"freq"}
    lines, props = [], {}

    def comments():
        h, p = files.header(ctx, 2, taken=taken, wide=True)
        lines.extend(clines(ctx, h))
        props.update(p)
    comments()
    head = ctx.chance(.9)
    if head:
        lines.append("CITIFILE A.01.0%d" % ctx.randint(0, 1))
        comments()
    name = ctx.choice(["CH1_DATA", "RAW", "my measurement", "x"])
    lines.append("NAME " + name)
    comments()
    if ctx.chance(.2):
        lines.append("CONSTANT A_B 3")
    when = None
    if ctx.chance(.2):
        when = ("2011", "03", "07", "12", "05",
                ctx.choice(["09", "36.8", "09.125", "59"]))
        lines.append("CONSTANT TIME " + " ".join(when))
    lines += dlines
    comments()
    lines += ["DATA %s %s" % a[:2] for a in arrays]
    comments()
    for l in lists:
        lines += l
    comments()
    for nm, fmt, t in arrays:
        sep = ctx.choice([",", ", ", " ,"])
        lines += ["BEGIN"] + [sep.join(x) for x in t] + ["END"]
    out = []
    inside = ctx.chance(.3)      # comments anywhere
    for k, l in enumerate(lines):
        if ctx.chance(.05):
            out.append("")
        if inside and k and ctx.chance(.1):
            h, q = files.header(ctx, 1, taken=taken | set(props))
            out += clines(ctx, h)
            props.update(q)
        out.append(ctx.choice(["", "", "", "  ", "\t"]) + l)
    return out, dict(dims=dims, want=want, props=props, name=name, head=head,
                     when=when, mstyle=mstyle,
                     fmts=sorted(set(a[1] for a in arrays)))


@PROP.family(quick=2500, thorough=40000, floors=["data array compared"])
def read(ctx):
    lines, d = generate(ctx)
    nl = ctx.choice(["\n", "\n", "\r\n"])
    p = files.write(ctx.path("x.cti"), lines, nl)
    ctx.log(files.show(p)[:1500])
    guess = ctx.chance(.4)
    fn = read_citi
    if lines[0].startswith("CITIFILE") and ctx.chance(.5):
        fn = read_data
    db = fn(p, guess_unit=guess)
    ren = lambda n: "freq" if n == "Freq" else n
    for k, c, how in d["dims"]:
        k = ren(k)
        ctx.check(k in db.ivardata, "swept variable lost", name=k)
        ctx.close(db.ivardata[k].data, c, "sweep %s" % k, rtol=1e-12)
        ctx.close(plain(db[k]), c, "sweep %s" % k, rtol=1e-12)
        ctx.ev("sweep list compared")
    for k, (kind, v) in d["want"].items():
        ctx.check(k in db.vardata, "data array %s lost" % k,
                  got=db.vardata.keys())
        a = db[k]
        invariant(ctx, a, k)
        names = [x.name for x in a.dims]
        kinds = [type(x).__name__ for x in a.dims]
        nd = len(d["dims"])
        ctx.check(names[:nd] == [ren(x[0]) for x in d["dims"]] and
                  kinds[:nd] == ["DimSweep"] * nd and
                  kinds[nd:] == (["DimMatrix_i", "DimMatrix_j"]
                                 if kind == "m" else []),
                  "dimensions of %s" % k, got=a.dims)
        ctx.close(plain(a), v, "values of %s" % k, rtol=1e-12, atol=1e-300)
        ctx.ev("data array compared")
    left = [x for x in db.vardata if x not in d["want"] and
            x not in d["props"] and x not in
            ("FILENAME", "Measurement time", "Freq", "freq")]
    ctx.check(not left, "variables from nowhere", got=left)
    files.check_props(ctx, db.comments, d["props"], "read", guess)
    if d["when"]:
        ctx.check(plain(np.asarray(
            db.comments.property["Measurement time"])) ==
            np.datetime64("2011-03-07T12:05:" + d["when"][-1]),
            "CONSTANT TIME", got=db.comments.property)
        ctx.ev("time compared")
    ctx.check(db.blockname == d["name"], "package name", got=db.blockname)
    ctx.state(len(d["dims"]), d["fmts"], d["mstyle"], nl,
              [x[2] for x in d["dims"]], d["head"], guess)


@PROP.family(quick=1500, thorough=20000, floors=["round trip"])
def saved(ctx):
    nd = ctx.choice([0, 1, 1, 2, 2, 3])
    pool = [DimSweep(nm, gen.coords(ctx, n)) for nm, n in zip(
        ctx.sample(["freq", "Vgs", "Power", "x"], nd),
        gen.lengths(ctx, nd, 1, 4))]
    db = DataBlock()
    fmts, ports = [None, "%.16e", "%r"], {}
    for nm in ctx.sample(VARS + ["S", "Z"], ctx.randint(1, 3)):
        ds = list(pool) if ctx.chance(.6) else ctx.shuffled(pool)
        kind = ctx.choice(["float", "complex", "int"])
        if nm in ("S", "Z"):
            m, n = ctx.choice([(2, 2), (3, 3), (1, 2), (2, 3), (2, 1)])
            ds = ds + files.ports(ctx, ports, m, n)
        db[nm] = gen.array(ctx, ds, kind, fmt=ctx.choice(fmts))
        if kind == "complex" and ctx.chance(.25):
            v = db.vardata[nm]
            v.imag[...] = 0
    if nd:
        for nm in ctx.sample(["Vds", "Tj", "count"], ctx.randint(0, 2)):
            db[nm] = hfarray(float(ctx.rng.normal()) if nm != "count" else
                             ctx.randint(0, 9), unit=ctx.choice([None, "V"]))
    head, props = files.header(
        ctx, 3, taken=set(db.vardata) | set(db.ivardata), wide=True)
    if head or ctx.chance(.4):
        db.comments = Comments(head)
    db.blockname = ctx.choice(["blk", "CH1 data", "x"])
    p = ctx.path("o.cti")
    ctx.log("save", db, [(k, v.dims, v.dtype.kind)
                         for k, v in db.vardata.items()], head)
    with Pure(ctx, db, what="save_citi"):
        save_citi(db, p)
    got = ctx.choice([read_citi, read_data])(p, guess_unit=False)
    for dm in pool:
        ctx.check(dm.name in got.ivardata, "sweep %s lost" % dm.name)
        ctx.close(got.ivardata[dm.name].data, dm.data, "saved sweep %s" %
                  dm.name, rtol=1e-15)
    for k, v in db.vardata.items():
        ctx.check(k in got.vardata, "variable %s lost" % k,
                  got=got.vardata.keys())
        a = got[k]
        invariant(ctx, a, k)
        w = plain(v)
        sweeps = [x.name for x in v.dims if x.name in [y.name for y in pool]]
        if v.ndim == 0:
            ctx.check(a.ndim == 0, "scalar %s" % k, got=a.dims)
            ctx.close(plain(a), w, "saved scalar %s" % k, rtol=1e-15)
            ctx.ev("scalar compared")
            continue
        gs = [x.name for x in a.dims[:nd]]
        ctx.check(sorted(gs) == sorted(sweeps) and a.ndim == w.ndim,
                  "dimensions of %s" % k, got=a.dims)
        perm = [sweeps.index(x) for x in gs] + list(range(nd, w.ndim))
        ctx.close(plain(a), w.transpose(perm), "saved values of %s" % k,
                  rtol=1e-15)
        ctx.ev("variable compared")
    ctx.check(got.blockname == db.blockname, "saved block name",
              got=got.blockname)
    files.check_props(ctx, got.comments, props, "saved")
    files.check_comments(ctx, got.comments, head, "saved")
    ctx.ev("round trip")
    ctx.state(nd, [(v.dtype.kind, len(v.dims)) for v in db.vardata.values()],
              bool(head))


@PROP.family(quick=600, floors=["refused"])
def malformed(ctx):
    lines, d = generate(ctx)
    if not d["dims"] or not any(l.strip() == "BEGIN" for l in lines):
        raise Skip()
    find = lambda *w: [k for k, l in enumerate(lines)
                       if l.strip().split(" ")[0] in w]
    how = ctx.choice(["lost value", "extra value", "no END", "no BEGIN",
                      "no list end", "type", "junk", "no NAME", "lost array"])
    if how in ("lost value", "extra value"):
        b = ctx.choice(find("BEGIN")) + 1
        while not lines[b].strip() or lines[b].strip()[0] in "!#C":
            b += 1
        if how == "lost value":
            del lines[b]
        else:
            lines.insert(b, lines[b])
    elif how == "no END":
        del lines[ctx.choice(find("END"))]
    elif how == "no BEGIN":
        del lines[ctx.choice(find("BEGIN"))]
    elif how == "no list end":
        del lines[ctx.choice(find("VAR_LIST_END", "SEG_LIST_END"))]
    elif how == "type":
        k = ctx.choice(find("DATA"))
        lines[k] = " ".join(lines[k].split()[:2] + ["XY"])
    elif how == "junk":
        lines.insert(ctx.randint(1, len(lines) - 1), "What is this")
    elif how == "no NAME":
        del lines[find("NAME")[0]]
    else:
        b, e = find("BEGIN")[-1], find("END")[-1]
        del lines[b:e + 1]
    p = files.write(ctx.path("bad.cti"), lines)
    ctx.log(how, files.show(p)[:1200])
    ctx.raises(Exception, lambda: read_citi(p),
               "malformed file accepted (%s)" % how)
    ctx.ev("refused")
    ctx.state(how, len(d["dims"]))
