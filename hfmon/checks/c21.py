"""C21: MDIF files."""
import itertools

import numpy as np

from hftools.dataset import hfarray, DataBlock, DimSweep, DimRep, \
    DimMatrix_i, DimMatrix_j
from hftools.file_formats import read_mdif, save_mdif
from hftools.file_formats.common import Comments
from hfmon import files, gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, invariant

PROP = Property(
    "C21", "An independent serializer writes random MDIF files (1-3 groups "
    "of 1-8 blocks each with VAR settings in any order, attributes, one or "
    "several header lines, real/integer/complex/string columns, matrix and "
    "vector elements in any column order, comments and blank lines, SWEEP. "
    "prefixes, LF/CRLF); what the reader returns is compared value by value "
    "at every setting. Random blocks are saved and read back. Malformed "
    "variants must be refused. Distinct state = (blocks, VARs, attributes, "
    "header lines, column kinds, matrix shape).",
    ["blocks of one name have the same columns and sweep",
     "vectors of a block are as long as its matrices are wide",
     "text columns hold no blanks or quotes",
     "saved variables depend on all sweeps, all but the first, or none; "
     "sweeps in the same order; matrix dimensions i and j"])

VARS = ["Id", "gain", "OUT.Pout", "noise_x", "te1x", "w.m", "Tj"]
SETS = ["Vgs", "Vds", "Temp", "Pin_x", "DC.bias"]


def text(ctx):
    return gen.ident(ctx)


def words(ctx):
    return ctx.choice([gen.ident(ctx), "a=b", "x = 1, y = 2", "two words",
                       "http://host/?q=3&r==", "# 3", "p50%", "(real) = 3",
                       'say "x" now', " padded "])


def column(ctx, kind, n):
    """(texts per row, values)"""
    if kind == "real":
        t, v = files.text_of(ctx, files.unusual(
            ctx, ctx.rng.normal(size=n) * 10.0 ** ctx.rng.integers(-6, 6)))
        return [[x] for x in t], v
    if kind == "integer":
        v = ctx.rng.integers(-50, 50, n)
        if ctx.chance(.1):
            v = v + 2 ** ctx.randint(53, 61) + 1
        return [["%d" % x] for x in v], v
    if kind == "complex":
        a, av = files.text_of(ctx, files.unusual(
            ctx, ctx.rng.normal(size=n), inf=False))
        b, bv = files.text_of(ctx, files.unusual(
            ctx, ctx.rng.normal(size=n), inf=False))
        return [list(x) for x in zip(a, b)], av + 1j * bv
    v = np.array([text(ctx) for _ in range(n)])
    return [['"%s"' % x] if ctx.chance(.7) else [str(x)] for x in v], v


def group(ctx, name, lines, props, taken):
    """Blocks of one name; returns what they denote."""
    nf = ctx.choice([1, 2, 3, 5])
    sname = ctx.choice(["freq", "freq", "Vx", "time"])
    ft, fv = files.text_of(ctx, np.cumsum(ctx.rng.uniform(.1, 1, nf)) *
                           10.0 ** ctx.rng.integers(0, 9),
                           ctx.choice(["%.10e", "%r"]))
    cols = [(nm, ctx.choice(["real", "integer", "complex", "string", "real"]))
            for nm in ctx.sample(VARS, ctx.randint(0, 3))]
    if ctx.chance(.15):
        # elements that make no matrix or vector stay what they are
        cols += [(nm, ctx.choice(["real", "complex", "integer"]))
                 for nm in ctx.choice([["T[1,1]", "T[2,2]"], ["T[1,2]"],
                                       ["V[2]", "V[3]"], ["V[1]", "V[3]"],
                                       ["T[2,1]", "V[2]"]])]
    mat, vec = None, None
    elems = [(nm, kind, nm, ()) for nm, kind in cols]
    if ctx.chance(.6) or not elems:
        m, n = ctx.choice([(2, 2), (2, 2), (1, 1), (1, 2), (3, 2), (3, 3)])
        if ctx.chance(.04):
            m, n = ctx.choice([(1, 11), (12, 1), (10, 10), (2, 13)])
        mk = ctx.choice(["complex", "complex", "real"])
        mat = (ctx.choice(["S", "OUT.S", "icor"]), m, n, mk)
        elems += [("%s[%d,%d]" % (mat[0], i + 1, j + 1), mk, mat[0], (i, j))
                  for i in range(m) for j in range(n)]
    if ctx.chance(.25):
        # dimensions of one name have one length in a block
        n = mat[2] if mat else ctx.choice([1, 2, 3, 3, 11])
        vec = ("PortZ", n)
        elems += [("PortZ[%d]" % (i + 1), "real", "PortZ", (i,))
                  for i in range(n)]
    elems = ctx.shuffled(elems)
    sets = ctx.sample(SETS, ctx.choice([0, 0, 1, 1, 2, 3]))
    sweep = ctx.choice(["", "SWEEP."])
    if sets:
        levels = [sorted(set(float("%.4g" % x)
                             for x in ctx.rng.normal(size=k)))
                  for k in gen.lengths(ctx, len(sets), 1, 3, .01, 40)]
        points = list(itertools.product(*levels))
        if ctx.chance(.3):
            points = ctx.shuffled(points)
        if ctx.chance(.2):
            points = points[:ctx.randint(1, len(points))]
    else:
        points = [()] * ctx.choice([1, 1, 2, 3])
    attribs = ctx.sample(["Power", "SWEEP.Bias"], ctx.choice([0, 0, 1, 2]))
    akinds = dict((a, ctx.choice(["real", "real", "string", "complex"]))
                  for a in attribs)
    cut = sorted(ctx.rng.integers(0, len(elems) + 1,
                                  ctx.choice([0, 0, 1, 2])))
    rows = [elems[a:b] for a, b in zip([0] + cut, cut + [len(elems)])]
    rows = [r for k, r in enumerate(rows) if k == 0 or r]
    out = dict(sname=sname, f=fv, sets=sets, points=points, mat=mat,
               vec=vec, kinds=dict(cols), nb=len(points), rows=len(rows),
               vals={}, attribs={})
    for pt in points:
        for s, v in zip(sets, pt):
            lines.append("VAR %s%s(real) = %r" % (sweep, s, v))
        lines.append("BEGIN " + name)
        for a in attribs:
            t, v = files.num(ctx, ctx.rng.normal())
            kd = akinds[a]
            if kd == "string":
                v = words(ctx)
                t = '"%s"' % v
            elif kd == "complex":
                t2, v2 = files.num(ctx, ctx.rng.normal())
                t, v = t + ctx.choice([" ", "\t", "  "]) + t2, v + 1j * v2
            lines.append("#%s%s(%s)%s%s" % (
                ctx.choice(["", " "]), a, kd,
                ctx.choice([" = ", "=", "= "]), t))
            out["attribs"].setdefault(a.split(".")[-1], []).append(v)
        for k, r in enumerate(rows):
            h = ["%s(%s)" % (nm, kd) for nm, kd, _, _ in r]
            if k == 0:
                h = [sweep + sname + "(real)"] + h
            lines.append("%" + ctx.choice(["", " "]) + " ".join(h))
        data = {}
        for nm, kd, _, _ in elems:
            t, v = column(ctx, kd, nf)
            data[nm] = t
            out["vals"].setdefault(nm, []).append(v)
        sep = ctx.choice([" ", "\t", "   "])
        for q in range(nf):
            for k, r in enumerate(rows):
                cells = [ft[q]] if k == 0 else []
                for nm, kd, _, _ in r:
                    cells += data[nm][q]
                lines.append(ctx.choice(["", "  "]) + sep.join(cells))
            if ctx.chance(.05):
                lines.append("")
        lines.append("END")
        if ctx.chance(.4):
            lines.append("")
    return out


def generate(ctx):
    head, props = files.header(ctx, 3, taken=set(VARS + SETS + [
        "freq", "Vx", "time", "Power", "Bias", "S", "OUT.S", "icor",
        "PortZ"]))
    lines = ["!" + h for h in head]
    groups = {}
    for nm in ctx.sample(["Spar", "RF.meas", "blk2", "two words"],
                         ctx.choice([1, 1, 2, 3])):
        groups[nm] = group(ctx, nm, lines, props, ())
    if ctx.chance(.2):
        lines.append("! the end")
    first = list(groups)[0]
    return lines, groups, first, props, head


def value(ctx, db, nm, k, nb, sname, what, mat=()):
    """Values of variable nm of block k in the merged result, (nf, ...)"""
    a = db[nm]
    invariant(ctx, a, what)
    names = [d.name for d in a.dims]
    want = [sname] + (["INDEX"] if nb > 1 else []) + list(mat)
    ctx.check(sorted(names) == sorted(want), "%s: dimensions of %s" %
              (what, nm), got=names, want=want)
    v = plain(a).transpose([names.index(x) for x in want])
    return v[:, k] if nb > 1 else v


@PROP.family(quick=2000, thorough=30000,
             floors=["column compared", "setting compared"])
def read(ctx):
    lines, groups, first, props, head = generate(ctx)
    nl = ctx.choice(["\n", "\n", "\r\n"])
    p = files.write(ctx.path("x.mdif"), lines, nl)
    ctx.log(files.show(p)[:1500])
    guess = ctx.chance(.5)
    if ctx.chance(.7):
        dbs = read_mdif(p, guess_unit=guess, verbose=False)
        ctx.check(sorted(dbs) == sorted(groups), "blocks", got=sorted(dbs))
        units = lambda b: (dict((k, v.unit) for k, v in b.vardata.items()),
                           dict((k, v.unit) for k, v in b.ivardata.items()))
        other = read_mdif(p, guess_unit=not guess, verbose=False)
        for g in groups:
            a, b = (dbs[g], other[g]) if guess else (other[g], dbs[g])
            ctx.check(b.ivardata[groups[g]["sname"]].unit is None,
                      "unit of the sweep guessed unasked")
            b.guess_units()
            ctx.check(units(a) == units(b), "guessed units", got=units(a),
                      want=units(b))
            ctx.ev("units guessed")
    else:
        dbs = dict((g, read_mdif(p, blockname=g, verbose=False))
                   for g in groups)
    for g, d in groups.items():
        db, nb = dbs[g], d["nb"]
        ctx.check(isinstance(db, DataBlock), "no block", got=db)
        ctx.check(db.blockname == g, "block name", got=db.blockname)
        ctx.close(db.ivardata[d["sname"]].data, d["f"], "sweep", rtol=1e-15)
        for nm, kind in d["kinds"].items():
            for k in range(nb):
                v = value(ctx, db, nm, k, nb, d["sname"], "read")
                ctx.equal(v, d["vals"][nm][k], "column %s of block %d" %
                          (nm, k))
                ctx.ev("column compared")
        if d["mat"]:
            nm, m, n, mk = d["mat"]
            for k in range(nb):
                v = value(ctx, db, nm, k, nb, d["sname"], "read", "ij")
                ctx.check(v.shape[1:] == (m, n), "matrix shape", got=v.shape)
                for i in range(m):
                    for j in range(n):
                        ctx.equal(v[:, i, j], d["vals"]["%s[%d,%d]" %
                                                        (nm, i + 1, j + 1)][k],
                                  "element %d,%d of %s in block %d" %
                                  (i, j, nm, k))
                ctx.ev("matrix compared")
        if d["vec"]:
            nm, n = d["vec"]
            for k in range(nb):
                v = value(ctx, db, nm, k, nb, d["sname"], "read", "j")
                for i in range(n):
                    ctx.equal(v[:, i], d["vals"]["%s[%d]" % (nm, i + 1)][k],
                              "vector element")
                ctx.ev("vector compared")
        for q, s in enumerate(d["sets"]):
            w = [pt[q] for pt in d["points"]]
            got = plain(db[s]).ravel() if nb > 1 else \
                np.asarray(db.ivardata[s].data)
            ctx.equal(got, w, "setting %s" % s)
            if nb > 1:
                ctx.check([x.name for x in db[s].dims] == ["INDEX"],
                          "dimensions of setting %s" % s, got=db[s].dims)
            ctx.ev("setting compared")
        for s, w in d["attribs"].items():
            ctx.check(plain(db[s]).ravel().tolist() == w,
                      "attribute %s" % s, got=db[s], want=w)
            ctx.ev("attribute compared")
        ctx.check(set(plain(db["FILENAME"]).ravel().tolist()) == {str(p)},
                  "file name", got=db["FILENAME"])
        if g == first:
            files.check_props(ctx, db.comments, props, "read", True)
            files.check_comments(ctx, db.comments, head, "read")
        allowed = set(d["kinds"]) | set(d["attribs"]) | set(d["sets"]) | \
            {"FILENAME", "FILEINDEX"} | set(x[0] for x in
                                            (d["mat"], d["vec"]) if x)
        extra = [v for v in db.vardata if v not in allowed and v not in props]
        ctx.check(not extra, "variables from nowhere", got=extra)
        ctx.state(nb, len(d["sets"]), len(d["attribs"]), d["rows"],
                  sorted(d["kinds"].values()), d["mat"] and d["mat"][1:],
                  len(groups))


@PROP.family(quick=1500, thorough=20000, floors=["round trip"])
def saved(ctx):
    nd = ctx.choice([1, 1, 2, 2, 3])
    pool = [ctx.choice([DimSweep, DimSweep, DimRep])(
        nm, gen.coords(ctx, n)) for nm, n in zip(
            ctx.sample(["freq", "Vgs", "Power", "x"], nd),
            gen.lengths(ctx, nd, 1, 4))]
    pool.sort(key=lambda d: d.sortprio)
    db = DataBlock()
    fmts, ports = [None, "%.16e", "%r"], {}
    for nm in ctx.sample(["Id", "gain", "u_x", "S", "Z"], ctx.randint(1, 3)):
        ds = list(pool)
        if nm in ("S", "Z"):
            m, n = ctx.choice([(2, 2), (3, 3), (1, 2), (2, 3), (1, 1)])
            if any(len(v.dims) > nd and v.shape[-2:] != (m, n)
                   for v in db.vardata.values()):
                continue
            ds = ds + files.ports(ctx, ports, m, n, "i", "j")
        db[nm] = gen.array(ctx, ds, ctx.choice(["float", "complex", "int"]),
                           fmt=ctx.choice(fmts))
    if nd > 1:
        for nm in ctx.sample(["Tj", "label"], ctx.randint(0, 2)):
            shape = tuple(len(d.data) for d in pool[1:])
            if nm == "Tj":
                db[nm] = gen.array(ctx, pool[1:], ctx.choice(
                    ["float", "complex", "int"]))
            else:
                v = np.array([words(ctx) for _ in
                              range(int(np.prod(shape)))]).reshape(shape)
                db[nm] = hfarray(v, dims=tuple(pool[1:]))
    if ctx.chance(.2):
        shape = tuple(len(d.data) for d in pool)
        v = [text(ctx) for _ in range(int(np.prod(shape)))]
        db["state"] = hfarray(np.array(v).reshape(shape), dims=tuple(pool))
    for nm in ctx.sample(["Vds", "count", "name"], ctx.randint(0, 2)):
        db[nm] = hfarray(ctx.randint(0, 9) if nm == "count" else words(ctx).strip()
                         if nm == "name" else float(ctx.rng.normal()))
    if nd == 1 and ctx.chance(.2):
        db["gamma"] = hfarray(complex(*ctx.rng.normal(size=2)))
    head, props = files.header(
        ctx, 3, taken=set(db.vardata) | set(db.ivardata), wide=True)
    if head or ctx.chance(.4):
        db.comments = Comments(head)
    db.blockname = ctx.choice(["blk", "CH1.data", "my block", None])
    p = ctx.path("o.mdif")
    ctx.log("save", db, [(k, v.dims, v.dtype.kind)
                         for k, v in db.vardata.items()], head)
    with Pure(ctx, db, what="save_mdif"):
        save_mdif(db, p)
    ctx.log(files.show(p)[:1500])
    dbs = read_mdif(p, guess_unit=False, verbose=False)
    ctx.check(len(dbs) == 1, "one block in, several out", got=list(dbs))
    got = list(dbs.values())[0]
    if db.blockname:
        ctx.check(list(dbs) == [db.blockname], "block name", got=list(dbs))
    pts = list(itertools.product(*[range(len(d.data)) for d in pool[1:]]))
    nb = len(pts)
    ctx.close(got.ivardata[pool[0].name].data, pool[0].data, "sweep",
              rtol=1e-15)
    for q, d in enumerate(pool[1:]):
        g = plain(got[d.name]).ravel() if nb > 1 else \
            got.ivardata[d.name].data
        ctx.close(g, [d.data[pt[q]] for pt in pts], "setting %s" % d.name,
                  rtol=1e-15)
        ctx.ev("setting compared")
    for k, v in db.vardata.items():
        ctx.check(k in got.vardata, "variable %s lost" % k,
                  got=got.vardata.keys())
        w = plain(v)
        for q, pt in enumerate(pts):
            if v.ndim >= nd and v.dims[:nd] == tuple(pool):
                g = value(ctx, got, k, q, nb, pool[0].name, "saved",
                          "ij" if v.ndim > nd else "")
                if v.dtype.kind == "U":
                    ctx.check(g.tolist() == w[(slice(None),) + pt].tolist(),
                              "texts of %s" % k, got=g)
                else:
                    ctx.close(g, w[(slice(None),) + pt], "values of %s" % k,
                              rtol=1e-15)
            elif v.ndim:
                g = plain(got[k]).ravel()
                if v.dtype.kind == "U":
                    ctx.check(str(g[q]) == str(w[pt]), "values of %s" % k,
                              got=g[q], want=w[pt])
                else:
                    ctx.close(g[q], w[pt], "values of %s" % k, rtol=1e-15)
            else:
                # header comment, or attribute of each block
                g = plain(got[k]).ravel()[0]
                ok = str(g) == str(w) if v.dtype.kind == "U" else \
                    abs(complex(g) - w) <= 1e-15 * abs(w)
                ctx.check(ok, "scalar %s" % k, got=g, want=w)
            ctx.ev("variable compared")
    files.check_props(ctx, got.comments, props, "saved")
    files.check_comments(ctx, got.comments, head, "saved")
    ctx.ev("round trip")
    ctx.state(nd, nb, [(v.dtype.kind, len(v.dims))
                       for v in db.vardata.values()], bool(head))


@PROP.family(quick=500, floors=["refused"])
def malformed(ctx):
    lines, groups, first, props, head = generate(ctx)
    find = lambda w: [k for k, l in enumerate(lines) if l.startswith(w)]
    how = ctx.choice(["no BEGIN", "no END", "type", "drop", "no block",
                      "var type", "cut", "sweep", "twice"])
    if how == "no BEGIN":
        del lines[ctx.choice(find("BEGIN"))]
    elif how == "no END":
        del lines[ctx.choice(find("END"))]
    elif how == "type":
        k = ctx.choice(find("%"))
        lines[k] = lines[k].replace("(", "(x", 1)
    elif how == "var type":
        if not find("VAR"):
            raise Skip()
        k = ctx.choice(find("VAR"))
        lines[k] = lines[k].replace("(real)", "(rael)")
    elif how == "drop":
        k = ctx.choice(find("END")) - 1
        while not lines[k].strip():
            k -= 1
        lines[k] = " ".join(lines[k].split()[:-1])
    elif how == "sweep":
        # another sweep in one of the blocks of a name
        g = [x for x in find("BEGIN") if groups[lines[x][6:]]["nb"] > 1]
        if not g:
            raise Skip()
        k = ctx.choice(g)
        while not lines[k].strip()[:1] in list("+-.0123456789"):
            k += 1
        w = lines[k].split()
        lines[k] = " ".join([repr(float(w[0]) * 1.5 + 1)] + w[1:])
    elif how == "twice":
        k = ctx.choice(find("%"))
        w = lines[k][1:].split()
        if len(w) < 2:
            raise Skip()
        w[0 if ctx.chance(.3) else 1] = w[-1] if len(w) > 2 else w[0]
        if len(set(w)) == len(w):
            raise Skip()
        lines[k] = "%" + " ".join(w)
    elif how == "cut":
        lines = lines[:find("END")[-1]]
    p = files.write(ctx.path("bad.mdif"), lines)
    ctx.log(how, files.show(p)[:1200])
    if how == "no block":
        ctx.raises(Exception, lambda: read_mdif(p, blockname="nope",
                                                verbose=False),
                   "missing block not reported")
    else:
        ctx.raises(Exception, lambda: read_mdif(p, verbose=False),
                   "malformed file accepted (%s)" % how)
    ctx.ev("refused")
    ctx.state(how, len(groups))
