"""C31: printed reports tell what a block, array or comment set holds."""
import re

import numpy as np

from hftools.dataset import (DataBlock, DimMatrix_i, DimMatrix_j, DimRep,
                             DimSweep, hfarray)
from hftools.dataset.arrayobj import _hfarray
from hftools.dataset.comments import Comments as DComments
from hftools.file_formats.common import Comments as FComments
import hftools.networks.multiports as mp
from hfmon import blocks, gen
from hfmon.core import Property
from hfmon.model import Pure, plain

PROP = Property(
    "C31", "Blocks with any number of variables and dimensions (numeric of "
    "all magnitudes, integer, date, text, boolean, complex and empty "
    "coordinates, with and without units) are printed in both layouts and "
    "with the report options on and off, also in the middle of histories of "
    "updates; the rows are parsed by an independent parser and every name, "
    "unit, length, smallest and largest coordinate compared with the block. "
    "Distinct state = (layout, options, kinds of dimension).",
    ["layout of columns, the unit of integer coordinates and digits beyond "
     "the twelfth are not specified", "names are without blanks"])

PRINT = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21,
         "Y": 24, "m": -3, "u": -6, "n": -9, "p": -12, "f": -15, "a": -18,
         "z": -21, "y": -24, u"\u03bc": -6, u"\u00b5": -6}
KINDS = ["float", "float", "float", "wide", "int", "int", "date", "text",
         "bool", "complex", "empty"]
UNITS = [None, None, "Hz", "V", "A", "dBm", "m", "s", "deg", "m per s"]


def make_dim(ctx, cls, name):
    kind = ctx.choice(KINDS)
    n = gen.length(ctx, 1, 5)
    r = ctx.rng
    unit = ctx.choice(UNITS)
    if kind == "float":
        v = r.normal(size=n) * 10. ** ctx.randint(-20, 20)
        if ctx.chance(.2):
            v[0] = 0
    elif kind == "wide":
        v = 10. ** r.uniform(-23, 26, n) * np.where(r.random(n) < .4, -1, 1)
    elif kind == "int":
        v = r.integers(-2000, 2000, n)
        if ctx.chance(.3):
            v = v.astype(ctx.choice([np.int32, np.int16]))
    elif kind == "date":
        v = np.datetime64("2013-01-05T03:04:05.000000") + \
            r.integers(0, 10 ** 9, n) * np.timedelta64(1, "s")
        unit = None
    elif kind == "text":
        v = np.array([ctx.choice("abc") + str(k) for k in range(n)])
        unit = None
    elif kind == "bool":
        v = np.array([True, False])[:n]
    elif kind == "complex":
        v = r.normal(size=n) + 1j
    else:
        v = np.array([], ctx.choice([float, int]))
    return kind, cls(name, v, unit=unit)


def make_block(ctx):
    names = ctx.sample(gen.NAMES, ctx.randint(0, 4))
    pool, kinds = [], {}
    for n in names:
        k, d = make_dim(ctx, ctx.choice([DimSweep, DimSweep, DimRep]), n)
        pool.append(d)
        kinds[n] = k
    db = DataBlock()
    vn = ctx.sample(blocks.VARS + ["a_rather_long_variable_name", "q"],
                    ctx.randint(0, 6))
    for v in vn:
        d = ctx.sample(pool, ctx.randint(0, len(pool)))
        if ctx.chance(.3):
            k = ctx.randint(1, 3)
            if any(x.name == "i" for w in db.vardata.values()
                   for x in w.dims):
                k = len(db.ivardata["i"].data)
            d = d + [gen.mdim(ctx, DimMatrix_i, k), gen.mdim(ctx, DimMatrix_j, k)]
        db[v] = gen.array(ctx, d, ctx.choice(["float", "complex", "int"]),
                          unit=ctx.choice(UNITS), hostile=False)
    if ctx.chance(.3):
        for d in pool:
            if d.name not in db.ivardata:
                db.ivardata[d.name] = d
    if ctx.chance(.5):
        db.blockname = ctx.choice(["RF.meas", "x y", "b" * 30])
    return db


def number(ctx, value, unitstr, unit, what):
    """the printed number"""
    x = float(value)
    unit = unit or ""
    ctx.check(unitstr.endswith(unit), "%s: unit" % what, got=unitstr,
              want=unit)
    pre = unitstr[:len(unitstr) - len(unit)] if unit else unitstr
    ctx.check(pre in PRINT, "%s: prefix" % what, got=unitstr, want=unit)
    return x * 10. ** PRINT[pre]


def split(ctx, db, text):
    """(block name line, variable rows, dimension rows) in either layout"""
    lines = text.split("\n")
    ctx.check(lines[0] == "Blockname: %s" % db.blockname, "name of block",
              got=lines[0])
    rest = lines[1:]
    iv, dv = [], []
    if any(" - " in x for x in rest):
        k = rest[0].index(" - ")
        for x in rest:
            ctx.check(x[k:k + 3] == " - ", "columns in line", got=x)
            dv.append(x[:k].rstrip())
            iv.append(x[k + 3:].rstrip())
        layout = "beside"
    else:
        cur = None
        for x in rest:
            if x.startswith("Dimensions:"):
                cur = iv
            elif x.startswith("Variables:"):
                cur = dv
            elif not x.strip():
                continue
            cur.append(x.rstrip())
        layout = "below"
    iv = [x for x in iv if x.strip()]
    dv = [x for x in dv if x.strip()]
    if db.ivardata.keys():
        ctx.check(iv and iv[0] == "Dimensions:", "heading of dimensions",
                  got=iv)
    if db.vardata.keys():
        ctx.check(dv and dv[0] == "Variables:", "heading of variables",
                  got=dv)
    return layout, dv[1:], iv[1:]


def judge(ctx, db, text):
    layout, dv, iv = split(ctx, db, text)
    ctx.check([x.split()[0] for x in dv] == list(db.vardata.keys()),
              "variables listed", got=dv, want=db.vardata.keys())
    ctx.check([x.split()[0] for x in iv] == list(db.ivardata.keys()),
              "dimensions listed", got=iv, want=db.ivardata.keys())
    for row, (name, v) in zip(dv, db.vardata.items()):
        rest = row[len(name):].strip()
        want = "<%s>" % "x".join(str(n) for n in plain(v).shape)
        ctx.check(rest.endswith(want), "shape of %s" % name, got=row,
                  want=want)
        rest = rest[:len(rest) - len(want)].strip()
        if db.report_units:
            ctx.check(rest == "[%s]" % (v.unit or ""), "unit of %s" % name,
                      got=row, want=v.unit)
        else:
            ctx.check(rest == "", "no units wanted", got=row)
        ctx.ev("variable row read")
    for row, (name, d) in zip(iv, db.ivardata.items()):
        data = np.asarray(d.data)
        rest = row[len(name):].strip()
        ctx.ev("dimension row read")
        if data.dtype.kind in "USObc":
            m = re.match(r"^(?:\[.*\] *)?(?:<(\d+)> *)?\{(.*)\}$", rest)
            ctx.check(m is not None and m.group(2).strip() ==
                      str(data.dtype), "data type of %s" % name, got=row)
            if m.group(1):
                ctx.check(int(m.group(1)) == len(data), "length", got=row)
            continue
        m = re.match(r"^(\[(.*)\])? *<(\d+)> *(.*)$", rest)
        ctx.check(m is not None, "row of %s" % name, got=row)
        ctx.check(int(m.group(3)) == len(data), "length of %s" % name,
                  got=row, want=len(data))
        if m.group(1):
            ctx.check(m.group(2) == (d.unit or ""), "unit of %s" % name,
                      got=row)
        tail = m.group(4)
        if not db.report_minmax or not data.size:
            ctx.check(tail == "", "nothing after the length", got=row)
            if db.report_units:
                ctx.check(m.group(1), "unit is given", got=row)
            continue
        lo, hi = data.min(), data.max()
        if data.dtype.kind == "M":
            got = tail.split()
            ctx.check(len(got) == 2 and np.datetime64(got[0]) == lo and
                      np.datetime64(got[1]) == hi, "dates of %s" % name,
                      got=row, want=(lo, hi))
            ctx.ev("dates read")
            continue
        num = r"([-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?)"
        m = re.match(r"^%s (.*?) +%s ?(.*)$" % (num, num), tail + " ")
        ctx.check(m is not None, "smallest and largest of %s" % name,
                  got=row)
        a, au, b, bu = [x.strip() for x in m.groups()]
        unit = d.unit
        if data.dtype.kind in "iu" and not au and not bu:
            unit = ""
        a = number(ctx, a, au, unit, name)
        b = number(ctx, b, bu, unit, name)
        tol = 1e-12
        ctx.check(abs(a - lo) <= tol * abs(lo), "smallest of %s" % name,
                  got=row, want=lo)
        ctx.check(abs(b - hi) <= tol * abs(hi), "largest of %s" % name,
                  got=row, want=hi)
        ctx.ev("limits read")
    return layout


@PROP.family(quick=6000, floors=["variable row read", "dimension row read",
                                 "limits read", "dates read"])
def report(ctx):
    db = make_block(ctx)
    db.report_minmax = ctx.chance(.8)
    db.report_units = ctx.chance(.8)
    how = ctx.randint(0, 3)
    with Pure(ctx, db):
        if how == 0:
            text = str(db)
        elif how == 1:
            text = repr(db)
        elif how == 2:
            db.report_maxwidth = ctx.choice([0, 10, 40, 60, 79, 100, 300])
            text = db.report()
        else:
            text = db.report(ctx.choice([0, 10, 40, 60, 79, 100, 300]))
    ctx.log(text)
    layout = judge(ctx, db, text)
    ctx.state(layout, db.report_minmax, db.report_units,
              sorted(set(str(np.asarray(d.data).dtype.kind)
                         for d in db.ivardata.values())),
              len(db.vardata.keys()))


@PROP.family(quick=800, floors=["row in history read"])
def history(ctx):
    """the report follows the block"""
    db = make_block(ctx)
    for step in range(ctx.randint(1, 8)):
        ops = ["add"]
        if db.vardata.keys():
            ops += ["del", "rename", "unit", "slice"]
        if db.ivardata.keys():
            ops += ["renamedim", "unitdim", "coords"]
        op = ctx.choice(ops)
        k = ctx.randint(0, 99)
        ctx.log(op)
        if op == "add":
            pool = list(db.ivardata.values())
            d = [x for x in ctx.sample(pool, ctx.randint(0, len(pool)))
                 if x.name not in "ij"]
            name = "new%s" % "abcdefgh"[step]
            db[name] = gen.array(ctx, d, "float", unit=ctx.choice(UNITS),
                                 hostile=False)
        elif op == "del":
            del db[db.vardata.keys()[k % len(db.vardata.keys())]]
        elif op == "rename":
            n = db.vardata.keys()[k % len(db.vardata.keys())]
            db.rename(n, "ren%s" % "abcdefgh"[step])
        elif op == "unit":
            n = db.vardata.keys()[k % len(db.vardata.keys())]
            db.vardata[n].unit = ctx.choice(UNITS)
        elif op == "slice":
            n = db.vardata.keys()[k % len(db.vardata.keys())]
            db[n] = hfarray(1.5)
        elif op == "renamedim":
            n = list(db.ivardata.keys())[k % len(db.ivardata.keys())]
            db.rename(n, "dim%s" % "abcdefgh"[step])
        elif op == "unitdim":
            n = list(db.ivardata.keys())[k % len(db.ivardata.keys())]
            d = db.ivardata[n]
            db.replace_dim(d, d.__class__(d, unit=ctx.choice(UNITS)))
        else:
            n = list(db.ivardata.keys())[k % len(db.ivardata.keys())]
            d = db.ivardata[n]
            db.replace_dim(d, d.__class__(d, data=ctx.rng.normal(
                size=len(d.data)) * 1e5))
        judge(ctx, db, db.report(ctx.choice([0, 79, 200])))
        ctx.ev("row in history read")
        ctx.state("history", op)


@PROP.family(quick=1500, floors=["property row read"])
def comments(ctx):
    """the table of properties"""
    cls = ctx.choice([DComments, FComments])
    c = cls()
    want = {}
    for i in range(ctx.randint(0, 6)):
        k = ctx.choice(["a", "Vgs", "a_long_key_" + "x" * ctx.randint(0, 40),
                        "T_chuck", "Op"]) + "abcdefg"[i]
        v = ctx.choice([1.5, 3, "text", "two words", " padded ",
                        hfarray(2.5, unit="V"), hfarray(-3)])
        c.property[k] = v
        want[k] = v
    if want and ctx.chance(.3):
        k = ctx.choice(["D", "Description of DUT"])     # fills the row
        w = c.width - max([len(x) for x in want] + [len(k)])
        c.property[k] = want[k] = "".join(
            ctx.choice("abcdef") for _ in range(w + ctx.choice([-1, 0])))
    t = c.table()
    if not want:
        ctx.check(list(t) == [], "empty table", got=t)
        return
    ctx.check("Comments" in t[0] and t[1].split() == ["Key", "Value"],
              "heading", got=t[:2])
    rows = t[3:]
    ctx.check(len(rows) == len(want), "rows", got=rows, want=sorted(want))
    for row, k in zip(rows, sorted(want)):
        ctx.check(row.startswith(k + " "), "key", got=row, want=k)
        v = want[k]
        rest = row[len(k):].strip()
        if isinstance(v, str):
            ctx.check(rest == v.strip(), "text", got=row, want=v)
        else:
            ctx.check(float(rest) == float(v), "number", got=row, want=v)
        ctx.ev("property row read")
    ctx.check(repr(c) == "\n".join(t), "repr of comments")
    ctx.state("comments", len(want), cls.__module__)


@PROP.family(quick=1500, floors=["array text read"])
def arrays(ctx):
    """printed arrays hold the values of the array"""
    cls = ctx.choice([hfarray, hfarray, mp.SArray, mp.ZArray,
                      mp.ABCDArray])
    pool = gen.dim_pool(ctx, ctx.randint(0, 2), minlen=1)
    kind = ctx.choice(["float", "int", "bool"])
    if cls is not hfarray:
        pool = pool + [gen.mdim(ctx, DimMatrix_i, 2), gen.mdim(ctx, DimMatrix_j, 2)]
        kind = "float"
    a = gen.array(ctx, pool, kind, cls=cls)
    with Pure(ctx, a), np.printoptions(threshold=a.size + 1):
        text = repr(a)
    name = type(a).__name__
    ctx.check(text.startswith(name + "("), "name of the class", got=text[:20])
    body = text[len(name):]
    got = eval(body, {"array": np.array, "dtype": "x", "bool": bool,
                      "nan": np.nan, "inf": np.inf, "True": True,
                      "False": False})
    ctx.check(np.shape(got) == plain(a).shape and
              np.allclose(got, plain(a), rtol=1e-7, equal_nan=True),
              "printed values",
              got=text, want=plain(a))
    for d in pool:
        want = "%s(%r, shape=(%d,))" % (type(d).__name__, d.name,
                                        len(d.data))
        ctx.check(repr(d) == want, "printed dimension", got=repr(d),
                  want=want)
    if a.ndim:
        h = a.help()
        ctx.check(name in h and str(a.dtype) in h and repr(a.shape) in h,
                  "help", got=h)
        where = [h.find(repr(d)) for d in a.dims]
        ctx.check(all(w >= 0 for w in where) and where == sorted(where),
                  "help lists the dimensions in order", got=h)
    ctx.ev("array text read")
    ctx.state("array", name, a.ndim, kind)
