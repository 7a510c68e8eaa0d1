"""C23: HDF5 storage and appends."""
import os

import h5py
import numpy as np

import hftools.file_formats.hdf5.v_01 as v_01
import hftools.file_formats.hdf5.v_02 as v_02
from hftools.dataset import hfarray, DataBlock, DimSweep, DimRep, \
    DimPartial, DimMatrix_i, DimMatrix_j
from hftools.file_formats import read_hdf5, save_hdf5, append_hdf5, read_data
from hftools.file_formats.common import Comments
from hfmon import files, gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, desc, invariant

PROP = Property(
    "C23", "Random blocks (all integer, float, complex, boolean, text and "
    "date types, NaN and infinities, sweep, repetition, matrix and setting "
    "dimensions with number, text and date coordinates, odd names, comments) "
    "are stored and read back bit for bit, through paths and open files and "
    "both file versions. Histories of appends with reopened files and "
    "refused blocks in between run in lock-step with a list of rows. "
    "Distinct state = (data types, dimension kinds, version, history).",
    ["names hold no backslash", "version 0.1 files (the old format) hold no "
     "text and no output formats and names have no slash",
     "order of variables in the file is not specified",
     "properties that are not in the comment lines are not stored"])

NAMES = ["Id", "b1/a1", "x y", "gain", "S", "P_out", u"\xb5", "Re(x)", "a.b",
         "z[1]", "/lead", "trail/", "u/v/w", "n", "C", "label"]
DNAMES = ["freq", "Vgs [V]", "p/q", "rep", "T", "x1", "idx.a"]
KINDS = ["f8", "f4", "i8", "i4", "i2", "u1", "u8", "c16", "c8", "?", "U",
         "M8[us]", "M8[s]", "M8[D]", "M8[ns]"]
FMTS = [None, "%.3f", "%5d", "%s", "%.16e", "%12.4g"]
UNITS = [None, None, "V", "dBm", u"\xb5m", "Hz"]
TEXT = ["", "a", "abc", "longer text with blanks", u"\xe5\xe4\xf6", "3.5",
        "None", "x/y"]


def values(ctx, kind, shape):
    n = int(np.prod(shape, dtype=int))
    r = ctx.rng
    if kind == "U":
        v = np.array([ctx.choice(TEXT) for _ in range(n)] or [""])[:n]
    elif kind.startswith("M8"):
        v = r.integers(-10**9, 2 * 10**9, n)
        v = v.astype("M8[s]").astype(kind)
    elif kind == "?":
        v = r.random(n) < .5
    elif kind[0] in "iu":
        i = np.iinfo(kind)
        v = r.integers(i.min, i.max, n, dtype=kind, endpoint=True)
    else:
        v = r.normal(size=n) * 10.0 ** r.integers(-30, 30)
        if kind[0] == "c":
            v = v + 1j * r.normal(size=n)
        if ctx.chance(.2):
            for k in range(n):
                if r.random() < .3:
                    v[k] = ctx.choice([np.nan, np.inf, -np.inf, -0.0, 5e-324])
        v = v.astype(kind)
    return np.asarray(v).reshape(shape)


def dim(ctx, name, cls=None):
    cls = cls or ctx.choice([DimSweep, DimSweep, DimRep])
    n = gen.length(ctx, 1, 4, .015)
    how = ctx.choice(["num", "num", "num", "str", "date"])
    if how == "str":
        n = min(n, 4)
    if how == "num":
        c = gen.coords(ctx, n)
    elif how == "str":
        c = np.array(ctx.sample(["a", "bb", "long name", u"\xe5", "3"], n
                                if n < 6 else 5))
    else:
        c = (np.arange(n) * 86400 + ctx.randint(-10**6, 10**9)).astype(
            "M8[s]").astype(ctx.choice(["M8[s]", "M8[us]"]))
    return cls(name, c, unit=ctx.choice(UNITS),
               outputformat=ctx.choice([None, "%.3f", "%s", "%d"])
               if how == "num" else None)


def make(ctx, names=None, kinds=KINDS, dnames=DNAMES, expand=False):
    pool = [dim(ctx, nm) for nm in ctx.sample(dnames, ctx.randint(0, 3))]
    n = ctx.randint(1, 3)
    mat = [gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n)]
    db = DataBlock()
    for nm in ctx.sample(names or NAMES, ctx.randint(1, 5)):
        ds = ctx.sample(pool, ctx.randint(0, len(pool)))
        if ctx.chance(.25):
            ds = ds + mat
        kind = ctx.choice(kinds)
        v = values(ctx, kind, tuple(len(d.data) for d in ds))
        if v.dtype.kind not in "U":
            v = gen.layout(ctx, v)
        fmt = None if kind[0] in "UM?" else ctx.choice(FMTS)
        db[nm] = hfarray(v, dims=tuple(ds), unit=ctx.choice(UNITS),
                         outputformat=fmt)
    if not expand:
        if ctx.chance(.2):
            db["lone"] = dim(ctx, "lone")
        if ctx.chance(.2):
            db["Temp"] = DimPartial("Temp", [float(ctx.rng.normal())],
                                    unit=ctx.choice(UNITS))
    if ctx.chance(.6):
        db.comments = Comments(files.header(ctx, 4, wide=True)[0])
    if ctx.chance(.5):
        db.blockname = ctx.choice(["blk", "my block", u"\xe5"])
    return db


def bits(a):
    a = np.ascontiguousarray(plain(a))
    if a.dtype.kind == "U":
        return a.tolist()
    return a.tobytes()


def stored_dim(ctx, got, want, what, fmt=True):
    ctx.check(type(got) is type(want), "%s: kind" % what, got=got, want=want)
    ctx.check(got.name == want.name, "%s: name" % what, got=got.name)
    g, w = np.asarray(got.data), np.asarray(want.data)
    ctx.check(g.dtype.kind == w.dtype.kind and g.shape == w.shape and
              g.tolist() == w.tolist(), "%s: coordinates" % what, got=g,
              want=w, types=(g.dtype, w.dtype))
    ctx.check(got.unit == want.unit, "%s: unit" % what, got=got.unit,
              want=want.unit)
    if fmt:
        ctx.check(got.outputformat == want.outputformat, "%s: format" % what,
                  got=got.outputformat, want=want.outputformat)


def restored(ctx, got, db, v01=False):
    ctx.check(set(got.vardata) == set(db.vardata), "stored variables",
              got=list(got.vardata.keys()), want=list(db.vardata.keys()))
    for k, v in db.vardata.items():
        a = got[k]
        invariant(ctx, a, k)
        ctx.check(type(a) is type(v) or v01, "class of %s" % k, got=type(a))
        same = a.dtype == v.dtype or (a.dtype.kind == v.dtype.kind == "U")
        ctx.check(same, "data type of %s" % k, got=a.dtype, want=v.dtype)
        ctx.check(a.shape == v.shape and bits(a) == bits(v),
                  "stored values of %s" % k, got=a, want=v)
        for d, e in zip(a.dims, v.dims):
            stored_dim(ctx, d, e, "dimension %s of %s" % (e.name, k),
                       not v01)
        ctx.check(a.unit == v.unit, "unit of %s" % k, got=a.unit,
                  want=v.unit)
        if not v01:
            ctx.check(a.outputformat == v.outputformat, "format of %s" % k,
                      got=a.outputformat, want=v.outputformat)
        ctx.ev("variable restored")
        ctx.ev("type %s" % v.dtype.kind)
    ctx.check(set(got.ivardata) == set(db.ivardata), "stored dimensions",
              got=list(got.ivardata.keys()), want=list(db.ivardata.keys()))
    for k, d in db.ivardata.items():
        stored_dim(ctx, got.ivardata[k], d, "dimension %s" % k, not v01)
        ctx.ev("dimension restored")
    ctx.check(got.blockname == db.blockname, "stored block name",
              got=got.blockname, want=db.blockname)
    if db.comments and db.comments.fullcomments:
        g = [x.strip() for x in got.comments.fullcomments]
        w = [x.strip() for x in db.comments.fullcomments]
        ctx.check(g == w, "stored comments", got=g, want=w)
        ctx.check(sorted(got.comments.property) ==
                  sorted(db.comments.property), "stored properties",
                  got=sorted(got.comments.property))
        ctx.ev("comments restored")
    else:
        ctx.check(not got.comments or not got.comments.fullcomments,
                  "comments from nowhere", got=got.comments)


@PROP.family(quick=1500, thorough=20000, floors=["variable restored",
                                                 "comments restored"])
def store(ctx):
    db = make(ctx)
    p = ctx.path("x.hdf5")
    ctx.log("store", db, [(k, v.dtype, v.dims, v.unit, v.outputformat)
                          for k, v in db.vardata.items()],
            [(k, d.data, d.unit) for k, d in db.ivardata.items()],
            db.comments and db.comments.fullcomments)
    how = ctx.randint(0, 3)
    if ctx.chance(.2):
        save_hdf5(make(ctx), p)           # will be replaced
    with Pure(ctx, db, what="save_hdf5"):
        if how == 0:
            save_hdf5(db, p)
        elif how == 1:
            v_02.save_hdf5(db, p)
        elif how == 2:
            with h5py.File(p, "w") as f:
                save_hdf5(db, f)
        else:
            with h5py.File(p, "w") as f:
                v_02.save_hdf5_handle(db, f)
    rd = ctx.randint(0, 3)
    if rd == 0:
        got = read_hdf5(p)
    elif rd == 1:
        with h5py.File(p, "r") as f:
            got = read_hdf5(f)
            ctx.check(bool(f.id), "reader closed the caller's file")
    elif rd == 2:
        got = v_02.read_hdf5(p)
    else:
        got = read_data(p)
    restored(ctx, got, db)
    # and once more: what was read is stored the same
    if ctx.chance(.3):
        q = ctx.path("y.hdf5")
        save_hdf5(got, q)
        restored(ctx, read_hdf5(q), db)
        ctx.ev("second generation")
    ctx.state(sorted(v.dtype.str for v in db.vardata.values()), how, rd,
              [type(d).__name__ for d in db.ivardata.values()])


@PROP.family(quick=500, thorough=6000, floors=["variable restored"])
def version01(ctx):
    kinds = [k for k in KINDS if k != "U"]
    db = make(ctx, names=[n for n in NAMES if "/" not in n], kinds=kinds,
              dnames=[n for n in DNAMES if "/" not in n])
    for k, d in list(db.ivardata.items()):
        if np.asarray(d.data).dtype.kind == "U":
            db.replace_dim(d, d.__class__(k, range(len(d.data)),
                                          unit=d.unit))
    p = ctx.path("x.hdf5")
    ctx.log("store 0.1", db, [(k, v.dtype, v.dims) for k, v in
                              db.vardata.items()])
    if db.comments and any(ord(c) > 127 for x in db.comments.fullcomments
                           for c in x):
        raise Skip()
    if db.blockname is not None and db.blockname.lower() == "none":
        raise Skip()
    with Pure(ctx, db, what="save_hdf5"):
        if ctx.chance(.5):
            save_hdf5(db, p, version="0.1")
        else:
            v_01.save_hdf5(db, p)
    got = read_hdf5(p) if ctx.chance(.5) else v_01.read_hdf5(p)
    restored(ctx, got, db, v01=True)
    ctx.state(sorted(v.dtype.str for v in db.vardata.values()))


def row_of(ctx, proto, dims):
    """Another block with the layout of *proto*."""
    db = DataBlock()
    for k, (kind, ds, u) in proto.items():
        v = values(ctx, kind, tuple(len(d.data) for d in ds))
        db[k] = hfarray(v, dims=tuple(ds), unit=u)
    return db


@PROP.family(quick=600, thorough=8000, floors=["row compared", "append",
                                               "append refused"])
def append(ctx):
    pool = [dim(ctx, nm) for nm in ctx.sample(DNAMES, ctx.randint(0, 2))]
    n = ctx.randint(2, 3)
    mat = [gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n)]
    proto = {}
    for nm in ctx.sample(NAMES, ctx.randint(1, 4)):
        ds = ctx.sample(pool, ctx.randint(0, len(pool)))
        if ds and ctx.chance(.3):
            ds = ds + mat
        proto[nm] = (ctx.choice(KINDS), ds, ctx.choice(UNITS))
    ename, kw = "INDEX", {}
    if ctx.chance(.3):
        ename = ctx.choice(["INDEX", "run", "meas"])
        kw["expanddim"] = ctx.choice([DimRep, DimSweep])(
            ename, 1 if ctx.chance(.6) else [ctx.choice([0, 1, 7, 100])],
            unit=ctx.choice(UNITS))
    start = int(kw["expanddim"].data[0]) if kw else 0
    p = ctx.path("x.hdf5")
    rows = [row_of(ctx, proto, pool)]
    if ctx.chance(.5):
        rows[0].comments = Comments(["a = 3"])
    fil = h5py.File(p, "w")
    try:
        with Pure(ctx, rows[0], what="save_hdf5"):
            v_02.save_hdf5(rows[0], fil, expandable=True, **kw)
        ctx.log("expandable", proto, ename)
        hist = []
        for _ in range(ctx.choice([0, 1, 2, 3, 4, ctx.choice([5, 12])])):
            if ctx.chance(.3):
                fil.close()
                fil = h5py.File(p, "a")
                hist.append("reopen")
            if ctx.chance(.3):
                bad, how = spoil(ctx, row_of(ctx, proto, pool), proto)
                if bad is None:
                    continue
                ctx.log("append", how)
                ctx.raises(Exception, lambda: append_hdf5(bad, fil, **kw),
                           "block stored that does not fit (%s)" % how)
                hist.append(how)
                ctx.ev("append refused")
            else:
                b = row_of(ctx, proto, pool)
                turn = [k for k in proto if len(proto[k][1]) > 1]
                if turn and ctx.chance(.15):
                    # dimensions in another order: refused, or stored right
                    k = ctx.choice(turn)
                    b[k] = b[k].transpose(*range(b[k].ndim)[::-1])
                    try:
                        append_hdf5(b, fil, **kw)
                    except ValueError:
                        ctx.ev("append refused")
                    else:
                        b[k] = b[k].transpose(*range(b[k].ndim)[::-1])
                        rows.append(b)
                    hist.append("turned")
                    continue
                if ctx.chance(.3):
                    c = DataBlock()
                    for k in ctx.shuffled(list(b.vardata.keys())):
                        c[k] = b[k]
                    b = c
                with Pure(ctx, b, what="append_hdf5"):
                    append_hdf5(b, fil, **kw)
                rows.append(b)
                hist.append("append")
                ctx.ev("append")
            if ctx.chance(.3):
                fil.flush()
                compare(ctx, read_hdf5(fil), rows, proto, ename, start)
                hist.append("read")
    finally:
        fil.close()
    got = read_hdf5(p)
    compare(ctx, got, rows, proto, ename, start)
    if "expanddim" in kw:
        e = kw["expanddim"]
        g = got.ivardata[ename]
        ctx.check(type(g) is type(e) and g.unit == e.unit,
                  "kind or unit of the index", got=(g, g.unit), want=e)
    ctx.state(hist, sorted(x[0] for x in proto.values()))


def spoil(ctx, b, proto):
    ways = ["missing", "extra"]
    if any(x[1] for x in proto.values()):
        ways += ["sweep", "sweep", "dims"]
    if any(x[0] in ("i8", "i4", "?", "f4", "i2") for x in proto.values()):
        ways += ["type", "type"]
    how = ctx.choice(ways)
    if how == "missing":
        k = ctx.choice(list(b.vardata.keys()))
        c = DataBlock()
        for x in b.vardata:
            if x != k:
                c[x] = b[x]
        return c, how
    if how == "extra":
        b["unknown"] = hfarray(3.0)
        return b, how
    if how == "sweep":
        ds = [d for d in b.ivardata.values()
              if not isinstance(d, (DimMatrix_i, DimMatrix_j))]
        if not ds:
            return None, how
        d = ctx.choice(ds)
        if np.asarray(d.data).dtype.kind in "UM":
            return None, how
        c = list(d.data)
        c[-1] = c[-1] + 1e3
        b.replace_dim(d, d.__class__(d.name, c, unit=d.unit))
        return b, how
    if how == "dims":
        k = [x for x in proto if len(proto[x][1]) > 0]
        k = ctx.choice(k)
        kind, ds, u = proto[k]
        b[k] = hfarray(values(ctx, kind, ()), unit=u)
        return b, how
    k = ctx.choice([x for x in proto if proto[x][0] in
                    ("i8", "i4", "?", "f4", "i2")])
    kind, ds, u = proto[k]
    new = {"i8": "f8", "i4": "i8", "?": "i8", "f4": "f8", "i2": "f4"}[kind]
    b[k] = hfarray(np.ones(tuple(len(d.data) for d in ds)).astype(new) *
                   np.array(1.0).astype(new),
                   dims=tuple(ds), unit=u)
    if b[k].dtype == np.dtype(kind):
        return None, how
    return b, how


def compare(ctx, got, rows, proto, ename, start=0):
    ctx.check(set(got.vardata) == set(proto), "variables of appended file",
              got=list(got.vardata.keys()))
    ctx.check(ename in got.ivardata, "index lost")
    ctx.check(np.asarray(got.ivardata[ename].data).tolist() ==
              list(range(start, start + len(rows))), "index of rows",
              got=got.ivardata[ename].data, want=len(rows))
    for k, (kind, ds, u) in proto.items():
        a = got[k]
        invariant(ctx, a, k)
        gn = [d.name for d in a.dims]
        want = [ename] + [d.name for d in ds]
        ctx.check(sorted(gn) == sorted(want), "dimensions of %s" % k,
                  got=a.dims, want=want)
        for d in ds:
            stored_dim(ctx, a.dims[gn.index(d.name)], d, "dimension %s of %s"
                       % (d.name, k))
        arr = plain(a).transpose([gn.index(x) for x in want])
        ctx.check(len(arr) == len(rows), "number of rows of %s" % k,
                  got=len(arr), want=len(rows))
        ctx.check(a.dtype.kind == rows[0][k].dtype.kind,
                  "data type of %s" % k, got=a.dtype)
        for i, b in enumerate(rows):
            ctx.check(bits(arr[i]) == bits(b[k]), "row %d of %s" % (i, k),
                      got=arr[i], want=b[k])
            ctx.ev("row compared")
        ctx.check(a.unit == u, "unit of %s" % k, got=a.unit, want=u)
        ctx.check(a.outputformat == rows[0][k].outputformat,
                  "format of %s" % k, got=a.outputformat)
    if rows[0].comments:
        ctx.check(list(got.comments.fullcomments) ==
                  list(rows[0].comments.fullcomments), "comments",
                  got=got.comments.fullcomments)
