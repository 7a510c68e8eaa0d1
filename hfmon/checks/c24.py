"""C24: format detection, several files, cache and reading options."""
import contextlib
import io
import itertools
import os
import random

import numpy as np

from hftools.dataset import hfarray, DataBlock
from hftools.file_formats import read_data, read_touchstone, read_citi, \
    read_mdif, read_spdata, read_hdf5, save_hdf5, read_to_cache, \
    read_from_cache
from hfmon import files
from hfmon.checks import c19, c20, c21, c22, c23
from hfmon.core import Property, Skip
from hfmon.model import plain, invariant, snap, diff

PROP = Property(
    "C24", "Generated files of every format under arbitrary names are read "
    "with the general and the specific reader and compared in full; sets of "
    "files (patterns and lists, numbered names) are compared row by row with "
    "reading each; histories of cached reads (changed sources, rereading, "
    "exceptions in the body, failing saves) run against a model of the "
    "cache; tables are read with all combinations of the reading options "
    "and compared with an oracle that applies only the named steps. "
    "Distinct state = (format, number of files, options, history).",
    ["sets of files are of one text format with the same columns and sweep",
     "MDIF data (several blocks) are not cached"])

READ = dict(touchstone=read_touchstone, citi=read_citi, mdif=read_mdif,
            table=read_spdata, hdf5=read_hdf5)
NAMES = ["x.txt", "data.s2p", "a b.dat", "noext", "x.cti", "m.mdif",
         "t.s1p", "a.b.c", "x.citi", "v10.tab", u"m\xe4tning.txt", "1"]


def table(ctx):
    n = ctx.randint(1, 5)
    h, nm, t, c, u = c22.sweep_column(ctx, n)
    cols, want = c22.columns(ctx, n, {nm})
    setts = dict((s, c22.setting(ctx, s)) for s in ctx.sample(
        c22.SETS, ctx.choice([0, 0, 1, 2])))
    taken = {nm, "freq", "S"} | set(w[0] for w in want) | set(setts)
    head, props = files.header(ctx, 4, taken=taken)
    return c22.pad(ctx, c22.section(ctx, (h, t), cols,
                                    [s[0] for s in setts.values()], head))


def one(ctx, fmt, path):
    """Write a random file of the format."""
    if fmt == "hdf5":
        db = c23.make(ctx)
        save_hdf5(db, path)
        return
    if fmt == "touchstone":
        lines = c19.generate(ctx)[0]
    elif fmt == "citi":
        lines, d = c20.generate(ctx)
        if not d["head"]:
            raise Skip()
        k = [l.startswith("CITIFILE") for l in map(str.strip, lines)].index(
            True)
        lines[k] = lines[k].strip()
    elif fmt == "mdif":
        lines = c21.generate(ctx)[0]
    else:
        lines = table(ctx)
    files.write(path, lines, ctx.choice(["\n", "\r\n"]))
    ctx.log(files.show(path)[:1200])


def alike(ctx, a, b, what):
    """Everything in two results of reading is the same."""
    if isinstance(b, dict):
        ctx.check(isinstance(a, dict) and sorted(a) == sorted(b),
                  "%s: blocks" % what, got=a)
        for k in b:
            alike(ctx, a[k], b[k], what)
        return
    if isinstance(b, (list, tuple)):
        ctx.check(isinstance(a, (list, tuple)) and len(a) == len(b),
                  "%s: number of blocks" % what, got=a)
        for x, y in zip(a, b):
            alike(ctx, x, y, what)
        return
    x, y = snap(a), snap(b)
    ctx.check(x == y, "%s: differs" % what, how=diff(x, y))
    ctx.ev("block compared")


def quiet(fn, *k, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*k, **kw)


@PROP.family(quick=2500, thorough=30000, floors=["format recognised",
                                                 "hdf5 recognised"])
def detect(ctx):
    fmt = ctx.choice(["touchstone", "citi", "mdif", "table", "table", "hdf5"])
    p = ctx.path(ctx.choice(NAMES))
    one(ctx, fmt, p)
    o = {}
    if fmt != "hdf5" and ctx.chance(.5):
        for k in ctx.sample(["guess_unit", "property_to_vars", "normalize",
                             "make_matrix", "make_complex"],
                            ctx.randint(1, 3)):
            if fmt == "mdif" and k in ("make_matrix", "make_complex",
                                       "normalize"):
                continue
            o[k] = False
    if fmt == "mdif":
        o["verbose"] = False
    ctx.log(fmt, os.path.basename(p), o)
    arg = p
    if fmt != "hdf5" and ctx.chance(.3):
        arg = ctx.choice([[p], (p,)])
    got = read_data(arg, **o)
    want = READ[fmt](arg, **o)
    alike(ctx, got, want, "read_data")
    ctx.ev("format recognised")
    ctx.ev("%s recognised" % fmt)
    ctx.state(fmt, os.path.splitext(p)[1], sorted(o), type(arg).__name__)


# --- several files -----------------------------------------------------------

def renumber(ctx, line, fmt, keep_first):
    """The same line with new numbers."""
    out = []
    words = line.split("\t") if fmt == "table" else line.split()
    for k, w in enumerate(words):
        try:
            float(w)
        except ValueError:
            out.append(w)
            continue
        new = "%.9g" % ctx.rng.uniform(.01, 5)
        if fmt == "mdif" and w.lstrip("+-").isdigit():
            new = str(ctx.randint(0, 999))
        out.append(w if k == 0 and keep_first else new)
    return ("\t" if fmt == "table" else " ").join(out)


def fileset(ctx, fmt, n):
    """n files with the same names and sweep, other numbers."""
    if fmt == "touchstone":
        d = None
        while d is None or d["how"] != "line":
            base, d = c19.generate(ctx, n=ctx.choice([1, 2, 3]), noise=False)
        main = [d["kind"]]
    elif fmt == "citi":
        d = None
        while d is None or not d["head"] or not d["dims"] or \
                not all(len(x[1]) > 1 for x in d["dims"]):
            base, d = c20.generate(ctx)
        main = list(d["want"])
        k = [l.strip().startswith("CITIFILE") for l in base].index(True)
        base = [l.strip() for l in base]
    elif fmt == "mdif":
        d = None
        while d is None or any(g["rows"] > 1 for g in d.values()):
            base, d, _, _, _ = c21.generate(ctx)
        main = d
    else:
        m = ctx.randint(2, 4)
        h, nm, t, c, u = c22.sweep_column(ctx, m)
        if nm == "Freq":
            raise Skip()
        cols, want = c22.columns(ctx, m, {nm})
        head, _ = files.header(ctx, 3, taken={nm, "freq", "S"} |
                               set(w[0] for w in want))
        base = c22.section(ctx, (h, t), cols, [], head)
        main = None
    out = []
    for k in range(n):
        lines, inside = [], False
        for l in base:
            s = l.strip()
            if fmt == "touchstone":
                ok = s[:1] not in ("!", "#", "")
                lines.append(renumber(ctx, s.split("!")[0], fmt, True)
                             if ok else l)
            elif fmt == "citi":
                if s in ("BEGIN", "END"):
                    inside = s == "BEGIN"
                elif inside and s and s[0] in "+-.0123456789":
                    l = ",".join("%.9g" % ctx.rng.uniform(.01, 5)
                                 for _ in s.split(","))
                lines.append(l)
            elif fmt == "mdif":
                ok = s[:1] and s[0] in "+-.0123456789"
                lines.append(renumber(ctx, l, fmt, True) if ok else l)
            else:
                ok = s[:1] and s[0] in "+-.0123456789"
                lines.append(renumber(ctx, l, fmt, True) if ok else l)
        out.append(lines)
    return out, main


def row(ctx, a, k, what):
    names = [d.name for d in a.dims]
    ctx.check(names.count("INDEX1") == 1, "%s: no row dimension" % what,
              got=a.dims)
    return np.take(plain(a), k, axis=names.index("INDEX1")), \
        [n for n in names if n != "INDEX1"]


@PROP.family(quick=900, thorough=12000, floors=["file compared"])
def several(ctx):
    fmt = ctx.choice(["touchstone", "citi", "table", "table"])
    n = ctx.choice([1, 2, 3, 12])
    texts, main = fileset(ctx, fmt, n)
    stem, ext = ctx.choice(["f", "m 2_", "a.b", "run-"]), \
        ctx.choice([".dat", ".s2p", ".txt", ""])
    start = ctx.choice([1, 8, 98])
    sub = ctx.path("d")
    os.makedirs(sub)
    paths = [os.path.join(sub, "%s%d%s" % (stem, start + k, ext))
             for k in range(n)]
    if fmt == "touchstone":
        ctx.log(texts[0][:40])
    order = list(range(n))
    for k in ctx.shuffled(order):       # creation order does not matter
        files.write(paths[k], texts[k])
    if ctx.chance(.3):
        files.write(os.path.join(sub, "other"), ["not read"])
    ctx.log(fmt, n, files.show(paths[0])[:1200])
    fn = ctx.choice([read_data, read_data, READ[fmt]])
    how = ctx.choice(["pattern", "list", "patterns"])
    if how == "pattern":
        arg = os.path.join(sub, stem + "*")
    elif how == "list":
        order = ctx.shuffled(order)
        arg = [paths[k] for k in order]
        if ctx.chance(.3):
            arg = tuple(arg)
    else:
        cut = ctx.randint(0, n - 1)
        arg = paths[:cut] + [os.path.join(sub, stem + "*")]
        order = list(range(cut)) + list(range(n))
    o = {}
    if ctx.chance(.2):
        o["guess_unit"] = False
    if ctx.chance(.2):
        o["property_to_vars"] = False
    singles = [READ[fmt](paths[k], **o) for k in order]
    if ctx.chance(.3):
        # blocks one by one
        got = fn(arg, merge=False, **o)
        ctx.check(isinstance(got, list) and len(got) == len(order),
                  "blocks of unmerged files", got=got)
        for nth, (k, g, s) in enumerate(zip(order, got, singles)):
            ctx.check(str(plain(g.FILENAME)) == paths[k], "file name",
                      got=g.FILENAME, want=paths[k])
            ctx.check(list(g.ivardata["FILEINDEX"].data) == [nth],
                      "file number", got=g.ivardata["FILEINDEX"].data)
            for nm in s.vardata:
                ctx.equal(plain(g[nm]), plain(s[nm]), "unmerged %s" % nm) \
                    if s[nm].dtype.kind != "U" else \
                    ctx.check(plain(g[nm]).tolist() == plain(s[nm]).tolist(),
                              "unmerged %s" % nm, got=g[nm])
            ctx.ev("file compared")
        ctx.state(fmt, n, how, "unmerged")
        return
    got = fn(arg, **o)
    ctx.check(isinstance(got, DataBlock), "merged files", got=type(got))
    if len(order) == 1:
        x, y = snap(got), snap(singles[0])
        ctx.check(x == y, "one file", how=diff(x, y))
        ctx.ev("one file")
        return
    for nm in (main or [v for v in singles[0].vardata
                        if singles[0][v].ndim]) + ["FILENAME"]:
        ctx.check(nm in got.vardata, "variable %s lost" % nm,
                  got=list(got.vardata.keys()))
        a = got[nm]
        invariant(ctx, a, nm)
        ctx.check("INDEX1" in [d.name for d in a.dims] and
                  a.shape[[d.name for d in a.dims].index("INDEX1")] ==
                  len(order), "rows of %s" % nm, got=a.dims)
        for k, s in enumerate(singles):
            v, names = row(ctx, a, k, nm)
            w = s[nm]
            # dimensions of one point may be dropped
            wn = [d.name for d in w.dims]
            want = plain(w)
            ctx.check([x for x, q in zip(wn, w.shape) if q > 1] ==
                      [x for x, q in zip(names, v.shape) if q > 1],
                      "dimensions of %s" % nm, got=names, want=wn)
            want = want.reshape(v.shape)
            if nm == "FILENAME":
                ctx.check(str(v) == paths[order[k]], "file name of row %d" %
                          k, got=v, want=paths[order[k]])
            elif want.dtype.kind == "U":
                ctx.check(v.tolist() == want.tolist(), "text of %s" % nm,
                          got=v, want=want)
            else:
                ctx.equal(v, want, "%s of file %d" % (nm, k))
            ctx.ev("file compared")
    ctx.equal(plain(got.FILEINDEX).ravel(), np.arange(len(order)),
              "FILEINDEX")
    ctx.state(fmt, n, how, start, fn.__name__, sorted(o))


@PROP.family(quick=300, thorough=4000, floors=["mdif file compared"])
def mdifs(ctx):
    n = ctx.choice([2, 3, 11])
    texts, groups = fileset(ctx, "mdif", n)
    paths = [ctx.path("f%d.mdif" % (k + 1)) for k in range(n)]
    for k in ctx.shuffled(list(range(n))):
        files.write(paths[k], texts[k])
    order = list(range(n))
    arg = ctx.path("f*.mdif")
    if ctx.chance(.5):
        order = ctx.shuffled(order)
        arg = [paths[k] for k in order]
    ctx.log(files.show(paths[0])[:1200])
    got = ctx.choice([read_data, read_mdif])(arg, verbose=False)
    singles = [read_mdif(paths[k], verbose=False) for k in order]
    ctx.check(sorted(got) == sorted(groups), "blocks", got=sorted(got))
    for g, d in groups.items():
        names = list(d["kinds"]) + ([d["mat"][0]] if d["mat"] else [])
        names += list(d["attribs"]) + ["FILENAME"]
        for q, s in enumerate(d["sets"]):
            ctx.equal(plain(got[g][s]), [pt[q] for pt in d["points"]] * n,
                      "setting %s" % s)
        ctx.check(plain(got[g]["FILENAME"]).tolist() ==
                  [str(paths[k]) for k in order for _ in range(d["nb"])],
                  "file names", got=got[g]["FILENAME"])
        for nm in names:
            a = got[g][nm]
            invariant(ctx, a, nm)
            dn = [x.name for x in a.dims]
            ctx.check("INDEX" in dn and a.shape[dn.index("INDEX")] ==
                      n * d["nb"], "rows of %s" % nm, got=a.dims)
            v = np.moveaxis(plain(a), dn.index("INDEX"), 0)
            for k, s in enumerate(singles):
                w = s[g][nm]
                wn = [x.name for x in w.dims]
                w = plain(w)
                w = np.moveaxis(w, wn.index("INDEX"), 0) if "INDEX" in wn \
                    else w[None]
                q = v[k * d["nb"]:(k + 1) * d["nb"]]
                ctx.check(q.tolist() == w.tolist(), "%s of file %d" %
                          (nm, k), got=q, want=w)
                ctx.ev("mdif file compared")
        ctx.state(n, d["nb"], len(groups), type(arg).__name__)


@PROP.family(quick=150, thorough=2000, floors=["settings swept"])
def swept(ctx):
    """Files with settings, read as a multi-dimensional sweep."""
    m = ctx.randint(2, 4)
    a = sorted(set(np.round(ctx.rng.normal(size=3), 2)))
    b = sorted(set(np.round(ctx.rng.normal(size=2), 2)))
    if len(a) < 2 or len(b) < 2:
        raise Skip()
    pts = ctx.shuffled(list(itertools.product(a, b)))
    f = np.arange(m) + 1.
    vals = {}
    for k, (x, y) in enumerate(pts):
        v = ctx.rng.normal(size=m)
        vals[x, y] = v
        files.write(ctx.path("p%d.txt" % k), ["!@Va=%r" % float(x),
                                              "!@Vb=%r" % float(y), "t\tq"] +
                    ["%r\t%r" % (float(p), float(q)) for p, q in zip(f, v)])
    got = read_data(ctx.path("p*.txt"), hyper=True)
    q = got.q
    invariant(ctx, q, "swept")
    names = [d.name for d in q.dims]
    ctx.check(sorted(names) == ["Va", "Vb", "t"], "dimensions", got=q.dims)
    q = q.reorder_dimensions("Va", "Vb", "t")
    for (i, x), (j, y) in itertools.product(enumerate(q.dims[0].data),
                                            enumerate(q.dims[1].data)):
        ctx.equal(plain(q)[i, j], vals[x, y], "at Va=%r Vb=%r" % (x, y))
        ctx.ev("settings swept")
    ctx.state(len(a), len(b), m)


@PROP.family(quick=100, floors=["missing"])
def missing(ctx):
    p = ctx.path("nothing*")
    arg = ctx.choice([p, [p], [p, ctx.path("zip")], ctx.path("zip.s2p")])
    fn = ctx.choice([read_data, read_spdata, read_touchstone, read_citi,
                     read_mdif])
    ctx.raises(IOError, lambda: fn(arg), "no such file")
    ctx.ev("missing")
    ctx.state(fn.__name__, type(arg).__name__)


# --- cache -------------------------------------------------------------------

class Stop(Exception):
    pass


class Unstorable(object):
    pass


@PROP.family(quick=700, thorough=8000, floors=["read from cache", "cached",
                                               "body failed",
                                               "save failed"])
def cache(ctx):
    fmts = ["touchstone", "citi", "table", "table", "hdf5"]
    src = ctx.path(ctx.choice(["meas.txt", "x.s2p", "a b", "m.1.txt"]))
    cdir = ctx.path(ctx.choice(["cache", "deep/cache"]))
    cname = ctx.choice([None, "c1", "other"])
    stored, fresh = None, False     # content of the cache
    key = cname or os.path.splitext(os.path.basename(src))[0]
    cfile = os.path.join(cdir, key + ".hdf5")
    hist = []
    for step in range(ctx.randint(2, 6)):
        if not os.path.exists(src) or ctx.chance(.3):
            if os.path.exists(src):
                os.remove(src)
            one(ctx, ctx.choice(fmts), src)
            hist.append("write")
        reread = ctx.chance(.25)
        how = ctx.choice(["good", "good", "good", "body", "save"])
        use = stored is not None and not reread
        ctx.log("read_to_cache", reread, how, "cached" if use else "read")
        want = stored if use else read_data(src)
        mark = float(ctx.rng.normal())
        held = {}

        def run():
            with read_to_cache(src, cachename=cname, cachedir=cdir,
                               reread=reread, verbose=False) as (db, new):
                held["new"], held["db"] = new, snap(db)
                ctx.check(bool(new) == (not use), "data is new", got=new,
                          want=not use)
                if use:
                    c23.restored(ctx, db, want)
                    ctx.ev("read from cache")
                else:
                    x, y = snap(db), snap(want)
                    ctx.check(x == y, "first read", how=diff(x, y))
                if how == "body":
                    raise Stop()
                if how == "save" and not use:
                    db["bad"] = hfarray(np.array([Unstorable()], object),
                                        dims=None)
                elif new and ctx.chance(.5):
                    db["mark"] = hfarray(mark)
                    want["mark"] = hfarray(mark)
        if how == "body":
            ctx.raises(Stop, run, "exception in the body")
            ctx.ev("body failed")
        elif how == "save" and not use:
            ctx.raises(Exception, run, "block that can not be stored")
            ctx.ev("save failed")
        else:
            quiet(run)
            if not use:
                stored = want
                ctx.ev("cached")
        hist.append((reread, how, use))
        ctx.check(os.path.exists(cfile) == (stored is not None),
                  "presence of the cache", got=os.listdir(cdir))
        if stored is not None and ctx.chance(.5):
            c23.restored(ctx, read_from_cache(key, cachedir=cdir), stored)
            ctx.ev("read from cache")
        if stored is None:
            ctx.raises(Exception, lambda: read_from_cache(key, cachedir=cdir),
                       "read_from_cache without a cache")
    if cname is None and stored is not None and ctx.chance(.4):
        # files of other names have caches of their own
        base, ext = os.path.splitext(src)
        src2 = ctx.choice([base[:-1] + "2", base + "1",
                           base + (".1" if ext else "_1")]) + ext
        one(ctx, ctx.choice(fmts), src2)
        want = read_data(src2)

        def again():
            with read_to_cache(src2, cachedir=cdir, verbose=False) as (db, new):
                ctx.check(new, "cache of another file used")
                ctx.check(snap(db) == snap(want), "data of another file")
        quiet(again)
        c23.restored(ctx, read_from_cache(key, cachedir=cdir), stored)
        ctx.ev("other file")
    ctx.state(hist)


# --- options -----------------------------------------------------------------

TR = {"b1/a1": "b11", "b1/a2": "b12", "b2/a1": "b21", "b2/a2": "b22",
      "a1": "a11", "a1/a2": "a12", "a2/a1": "a21", "a2": "a22",
      "b1/a1 raw": "b11", "b1/a2 raw": "b12", "b2/a1 raw": "b21",
      "b2/a2 raw": "b22", "a1 raw": "a11", "a1/a2 raw": "a12",
      "a2/a1 raw": "a21", "a2 raw": "a22", "Frequency": "freq",
      "Freq": "freq"}
GUESS = dict(Id="A", Vds="V", Vgs="V", Ig="A", freq="Hz", Freq="Hz",
             Frequency="Hz")


def oracle(cols, sweep, props, o):
    """{name: (values, unit or None for unknown)} by applying the steps."""
    v = dict((h, (x, None)) for h, x in cols)
    if o["make_complex"]:
        for h in list(v):
            for f, g in (("Re", "Im"), ("Mag", "Arg")):
                if not h.startswith(f + "("):
                    continue
                nm, rest = h[len(f) + 1:].split(")", 1)
                mate = "%s(%s)" % (g, nm)
                mates = [x for x in v if x.startswith(mate)]
                if len(mates) != 1:
                    continue
                a, b = v.pop(h)[0], v.pop(mates[0])[0]
                v[nm + rest] = (a + 1j * b if f == "Re" else
                                a * np.exp(1j * np.deg2rad(b)), None)
    if o["property_to_vars"]:
        for k, x in props.items():
            v[k] = (x, None)
    if o["guess_unit"]:
        w = {}
        for h, (x, u) in v.items():
            if h.endswith("]") and "[" in h:
                h, u = h[:-1].split("[")
                h = h.rstrip()
                m, u = UNIT[u]
                x = x * m
            else:
                u = GUESS.get(h)
            w[h] = (x, u)
        v = w
    if o["normalize"]:
        w = {}
        for h, x in v.items():
            h = TR.get(h, h)
            if h.startswith("Mean(") and h.endswith(")"):
                h = h[5:-1]
            if h.startswith("Std(") and h.endswith(")"):
                h = "s_" + h[4:-1]
            w[h] = x
        v = w
        sweep = TR.get(sweep, sweep)
    if o["make_matrix"]:
        for m in set(h[:-2] for h in v if h[-2:].isdigit() and
                     h[:-2].replace("_", "").isalpha()):
            idx = sorted((int(h[-2]), int(h[-1])) for h in v
                         if h[:-2] == m and h[-2:].isdigit())
            ii = sorted(set(i for i, _ in idx))
            jj = sorted(set(j for _, j in idx))
            if len(idx) < 2 or len(idx) != len(ii) * len(jj):
                continue
            el = [[v["%s%d%d" % (m, i, j)] for j in jj] for i in ii]
            x = np.array([[e[0] for e in r] for r in el])
            us = set(e[1] for r in el for e in r)
            for i in ii:
                for j in jj:
                    del v["%s%d%d" % (m, i, j)]
            v[m] = (x.transpose(2, 0, 1), us.pop() if len(us) == 1 else None)
    return v, sweep


UNIT = dict((u[0], (u[1], u[2])) for u in c22.UNITS)
UNIT["deg"] = (1, "deg")


def flat(ctx, n):
    """Columns of a table: [(header, texts, values)]."""
    out = []

    def add(h, pos=False):
        if any(h.split("[")[0].strip() == x[0].split("[")[0].strip()
               for x in out):
            return
        t, v = c22.numbers(ctx, n)
        if pos:
            t, v = files.text_of(ctx, abs(v) + .1, "%.9g")
        out.append((h, t, v))
    kinds = ctx.sample(["plain", "unit", "reim", "magarg", "half", "mat",
                        "ratio", "mean", "known", "odd", "partial"],
                       ctx.randint(1, 5))
    u = lambda: ctx.choice(["mV", "GHz", "uA", "dBm", "foo", "pF"])
    for k in kinds:
        if k == "plain":
            add(ctx.choice(["gain", "P_x", "Q"]))
        elif k == "known":
            add(ctx.choice(["Id", "Ig", "Vgs"]))
        elif k == "unit":
            add("Eff [%s]" % u())
            if ctx.chance(.3):
                add("Id [%s]" % ctx.choice(["uA", "mV"]))
        elif k == "reim":
            s = " [%s]" % u() if ctx.chance(.4) else ""
            add("Re(wave)" + s)
            add("Im(wave)" + s)
        elif k == "magarg":
            add("Mag(G)", True)
            add("Arg(G)" + ctx.choice(["", " [deg]"]))
        elif k == "half":
            add(ctx.choice(["Re(h)", "Im(h)", "Mag(h)", "Arg(h)"]))
        elif k == "mat":
            c = ctx.choice([0, 1, .5])        # chance of complex elements
            s = " [%s]" % u() if ctx.chance(.4) else ""
            for e in ctx.shuffled(["S11", "S12", "S21", "S22"]):
                if s and ctx.chance(.1):
                    s = " [%s]" % u()           # another unit
                if ctx.chance(c):
                    add("Re(%s)" % e + s)
                    add("Im(%s)" % e + s)
                else:
                    add(e + s)
        elif k == "partial":
            for e in ["y11", "y12", "y21"][:ctx.randint(1, 3)]:
                add(e)
        elif k == "ratio":
            raw = ctx.choice(["", " raw"])
            for e in ctx.sample(["b1/a1", "b1/a2", "b2/a1", "b2/a2", "a1",
                                 "a2/a1"], ctx.randint(1, 6)):
                add(e + raw)
        elif k == "mean":
            nm = ctx.choice(["w", "b1/a1"])
            for f in ctx.sample(["Mean", "Std"], ctx.randint(1, 2)):
                add("%s(%s)" % (f, nm))
        else:
            add(ctx.choice(["Meanx", "Std_dev", "my col", "dB(S)",
                            "Frequenzy"]))
    return ctx.shuffled(out)


@PROP.family(quick=3000, thorough=40000, floors=["variable compared",
                                                 "option off"])
def options(ctx):
    n = ctx.randint(1, 5)
    cols = flat(ctx, n)
    sweep = ctx.choice(["Freq", "Frequency", "freq", "t", "V_x"])
    x = np.cumsum(ctx.rng.uniform(.1, 1, n))
    xt, x = files.text_of(ctx, x, "%.9g")
    if len(set(x)) < n:
        raise Skip()
    props, lines = {}, []
    for k in ctx.sample(["Power", "Vds", "label", "n_run"],
                        ctx.randint(0, 3)):
        if k == "label":
            props[k] = ctx.choice(["LIN", "abc"])
            lines.append("!%s: %s" % (k, props[k]))
        else:
            props[k] = float("%.4g" % ctx.rng.normal())
            lines.append("!%s=%r" % (k, props[k]))
    lines.append("\t".join([sweep] + [c[0] for c in cols]))
    for k in range(n):
        lines.append("\t".join([xt[k]] + [c[1][k] for c in cols]))
    o = dict((k, ctx.chance(.5)) for k in (
        "make_complex", "property_to_vars", "guess_unit", "normalize",
        "make_matrix"))
    want, sw = oracle([(c[0], c[2]) for c in cols], sweep, props, o)
    # names that would collide are another matter
    names = [c[0] for c in cols]
    on = oracle([(c[0], c[2]) for c in cols], sweep, props,
                dict.fromkeys(o, True))[0]
    base = [h for h in names if not h.startswith(("Im(", "Arg("))]
    if len(set(TR.get(b, b) for b in base)) < len(base) or \
            "Mean(b1/a1)" in names or "Std(b1/a1)" in names and \
            "b1/a1" in names:
        raise Skip()
    enc = ctx.choice([None, None, "utf-8", "latin-1"])
    note = ctx.choice([u"\xe5ngstr\xf6m", u"chuck \xb0C",
                       u"\xe9t\xe9"]) if ctx.chance(.3) else None
    if note:
        lines.insert(0, u"!note: " + note)
        if o["property_to_vars"]:
            want["note"] = (note, None)
    p = files.write(ctx.path("o.txt"), lines, encoding=enc or "cp1252")
    ctx.log(lines[:20], o, enc)
    given = dict((k, v) for k, v in o.items() if not v or ctx.chance(.3))
    fn = ctx.choice([read_spdata, read_data])
    if enc:
        given["encoding"] = enc
        ctx.ev("encoding given")
    db = fn(p, **given)
    if note:
        ctx.check(db.comments.property.get("note") == note, "accented text",
                  got=db.comments.property)
    ctx.check(sw in db.ivardata, "sweep %s" % sw, got=db.ivardata.keys())
    ctx.close(db.ivardata[sw].data, x, "sweep", rtol=1e-14)
    if o["guess_unit"]:
        ctx.check(db.ivardata[sw].unit == GUESS.get(sw), "unit of sweep",
                  got=db.ivardata[sw].unit)
    else:
        ctx.check(db.ivardata[sw].unit is None, "unit of sweep",
                  got=db.ivardata[sw].unit)
    left = set(db.vardata) - set(want) - {"FILENAME"}
    ctx.check(not left, "unexpected variables", got=sorted(left),
              want=sorted(want))
    for k, (v, u) in want.items():
        ctx.check(k in db.vardata, "variable %s missing" % k,
                  got=sorted(db.vardata.keys()))
        a = db[k]
        invariant(ctx, a, k)
        nd = [sw] if np.ndim(v) else []
        ctx.check([d.name for d in a.dims[:1]] == nd and
                  a.ndim == np.ndim(v), "dimensions of %s" % k, got=a.dims)
        if isinstance(v, str):
            ctx.check(str(plain(a)) == v, "text of %s" % k, got=a)
        else:
            ctx.close(plain(a), v, "values of %s" % k, rtol=1e-12,
                      atol=1e-300)
        ctx.check(a.unit == u, "unit of %s" % k, got=a.unit, want=u)
        ctx.ev("variable compared")
    for k, v in props.items():
        ctx.check(k in db.comments.property, "property %s" % k,
                  got=db.comments.property)
    if not all(o.values()):
        ctx.ev("option off")
    ctx.state(sorted(k for k in o if o[k]),
              sorted(set(len(np.shape(v[0])) for v in on.values())))


CLASH = [["S", "Re(S)", "Im(S)"], ["S", "S11", "S12", "S21", "S22"],
         ["Vgs", "Vgs [mV]"], ["Vgs [mV]", "Vgs [V]"], ["b1/a1", "b1/a1 raw"],
         ["b1/a1", "b11"], ["a2 raw", "a22"], ["Mean(x)", "x"],
         ["Std(x)", "s_x"], ["Mean(x)", "Mean(x) [V]"], ["Frequency", "Freq"],
         ["Re(S)", "Im(S)", "Mag(S)", "Arg(S)"], ["S11", "Re(S11)",
                                                  "Im(S11)"],
         ["Re(S11)", "Im(S11)", "Re(S12)", "Im(S12)", "S"],
         ["Vgs [mV]", "Vgs"], ["Mean(Std(y))", "Std(y)"]]


@PROP.family(quick=300, floors=["column found again"])
def clashes(ctx):
    """Columns whose names become the same: refused or all still there."""
    cols = ctx.shuffled(ctx.choice(CLASH))
    if ctx.chance(.4):
        cols = cols + [c for c in ctx.choice(CLASH) if c not in cols]
    cols = ["T"] + cols
    n = ctx.randint(2, 4)
    v = 20. * np.arange(1, n + 1)[:, None] + np.arange(len(cols)) + .25
    fn = ctx.path("clash.txt")
    with open(fn, "w") as f:
        f.write("\t".join(cols) + "\n")
        for r in v:
            f.write("\t".join("%.17g" % x for x in r) + "\n")
    o = dict((k, ctx.chance(.8)) for k in (
        "make_complex", "guess_unit", "normalize", "make_matrix"))
    ctx.log(cols, o)
    try:
        db = read_data(fn, **o)
    except ValueError as e:
        ctx.check(o["normalize"] and "already in data" in str(e),
                  "refused for another reason", e=e)
        ctx.ev("clash refused")
        return
    held = [plain(hfarray(d)) for d in db.ivardata.values()]
    for k, x in db.vardata.items():
        if not x.dtype.kind in "fciu":
            continue
        x = plain(x)
        for idx in np.ndindex(*x.shape[1:]):
            y = x[(slice(None),) + idx] if x.ndim else x
            held += [y.real, y.imag, np.abs(y), np.angle(y, deg=True)]
    held = [h for h in held if h.shape == (n,)]
    for c, w in zip(cols, v.T):
        w = [w, w * 1e-3, w % 360, (w + 180) % 360 - 180]
        ctx.check(any(np.allclose(h, x) for h in held for x in w),
                  "a column is lost", column=c, got=db.vardata.keys())
        ctx.ev("column found again")
    ctx.state(cols, o)
