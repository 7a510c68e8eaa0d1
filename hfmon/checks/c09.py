"""C09: matrix element names read and write the matching entries."""
import re

import numpy as np

from hftools.dataset import (DataBlock, hfarray, DimSweep, DimRep,
                             DimMatrix_i, DimMatrix_j)
from hftools.dataset.dataset import (convert_matrices_to_elements,
                                     is_matrix_name)
from hftools.file_formats.common import make_col_from_matrix
from hftools.file_formats.readbase import (ReadFileFormat,
                                           combine_elements_to_matrix)
from hftools.networks.multiports import SArray, ZArray, YArray
from hfmon import gen
from hfmon.blocks import VARS
from hfmon.core import Property, Skip
from hfmon.model import (Model, Pure, desc, descs, plain, same, invariant,
                         snap)

PROP = Property(
    "C09", "Blocks with up to three matrix variables (1x1 to 9x9, also not "
    "square, 0-3 sweep dimensions, labelled arrays and network arrays) next "
    "to scalars with similar names; every element name is read, assigned, "
    "split and recombined and compared with the entry it names. Distinct "
    "state = (matrix size, dims, name class).",
    ["matrix dimensions are the last two, as everywhere in hftools"])

MNAMES = ["S", "Z", "Spar", "b_", "_m", "S2p", "A", "x9y", "Sdd", "H_0_q"]


def mat(ctx, cls=hfarray, maxn=9, pool=None):
    n = ctx.choice([1, 2, 2, 2, 3, 3, 4, ctx.randint(5, maxn)])
    m = n if ctx.chance(.7) else ctx.randint(1, 4)
    if cls is not hfarray:
        n = m = ctx.choice([2, 2, 3])
    d = ctx.sample(pool, ctx.randint(0, len(pool)))
    d = d + [gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, m)]
    a = gen.array(ctx, d, ctx.choice(["complex", "complex", "float"]),
                  unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS),
                  cls=hfarray)
    if cls is not hfarray:
        a = cls(plain(a), dims=a.dims)
    return a


def blocks(ctx, k=1):
    pool = [d for d in gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3,
                                    classes=[DimSweep, DimRep])]
    out = []
    for nm in ctx.sample(MNAMES, k):
        cls = ctx.choice([hfarray, hfarray, SArray, ZArray, YArray])
        out.append((nm, mat(ctx, cls, pool=pool)))
    return pool, out


@PROP.family(quick=3000, floors=["element read", "element missing"])
def read(ctx):
    pool, mats = blocks(ctx)
    (nm, a), = mats
    db = DataBlock()
    if ctx.chance(.5):
        db["Sx"] = gen.array(ctx, ctx.sample(pool, ctx.randint(0, len(pool))))
    db[nm] = a
    m = Model.of(a)
    ctx.log(nm, a.dims)
    with Pure(ctx, db, a, what="reading elements"):
        for i in range(m.v.shape[-2]):
            for j in range(m.v.shape[-1]):
                key = "%s%d%d" % (nm, i + 1, j + 1)
                got = db[key] if ctx.chance(.5) else getattr(db, key)
                if m.v.ndim > 2:
                    same(ctx, got, Model(m.v[..., i, j], m.axes[:-2]), key)
                else:
                    ctx.equal(plain(got), m.v[i, j], key)
                ctx.ev("element read")
        n, k = m.v.shape[-2:]
        for bad in ("%s%d%d" % (nm, n + 1, 1) if n < 9 else "q11",
                    "%s%d%d" % (nm, 1, k + 1) if k < 9 else "q11",
                    nm + "01", nm + "10", nm + "1", nm + "111",
                    "no%s11" % nm):
            ctx.raises((KeyError, IndexError), lambda: db[bad],
                       "element %s exists" % bad)
            ctx.ev("element missing")
    ctx.check((nm + "11") not in db.vardata, "element stored as variable")
    ctx.state(nm, m.v.shape, type(a).__name__)


@PROP.family(quick=3000, floors=["element assigned"])
def write(ctx):
    pool, mats = blocks(ctx, ctx.randint(1, 2))
    db = DataBlock()
    models = {}
    for nm, a in mats:
        db[nm] = a
        models[nm] = Model.of(a)
    cplx = dict((nm, a.dtype.kind == "c") for nm, a in mats)
    other = gen.array(ctx, pool[:1])
    db["other"] = other
    om = Model.of(other)
    for _ in range(ctx.randint(1, 6)):
        nm, a = ctx.choice(mats)
        m = models[nm]
        i = ctx.randint(1, m.v.shape[-2])
        j = ctx.randint(1, m.v.shape[-1])
        key = "%s%d%d" % (nm, i, j)
        d = a.dims[:-2]
        if ctx.chance(.7):
            val = gen.array(ctx, ctx.shuffled(ctx.sample(
                d, ctx.randint(0, len(d)))) if ctx.chance(.4) else d,
                "complex" if cplx[nm] else "float")
        else:
            val = hfarray(float(ctx.rng.normal()))
        ctx.log("assign", key, val.dims)
        with Pure(ctx, val, what="assigning an element"):
            if ctx.chance(.5):
                db[key] = val
            else:
                setattr(db, key, val)
        keys = [x[:2] for x in m.axes[:-2]]
        m.v[..., i - 1, j - 1] = Model.of(val).at(keys, m.v.shape[:-2])
        ctx.ev("element assigned")
        ctx.check(db.vardata.keys() == [n for n, _ in mats] + ["other"],
                  "element assignment made a variable",
                  got=db.vardata.keys())
        for n2 in models:
            same(ctx, db.vardata[n2], models[n2], "%s after %s" % (n2, key))
        same(ctx, db.vardata["other"], om, "other variable")
    # where no matrix has that name, it is an ordinary variable
    v = gen.array(ctx, pool[:1])
    db["q11"] = v
    same(ctx, db.vardata["q11"], Model.of(v), "q11")
    ctx.state([n for n, _ in mats], [x.v.shape for x in models.values()])


def scalars(ctx, db, pool):
    for nm in ctx.sample(["Id", "f0", "P_out", "S2p1", "m1"],
                         ctx.randint(0, 3)):
        db[nm] = gen.array(ctx, ctx.sample(pool, ctx.randint(0, len(pool))),
                           unit=ctx.choice(gen.UNITS))


@PROP.family(quick=2500, floors=["split", "recombined", "columns"])
def split(ctx):
    pool, mats = blocks(ctx, ctx.randint(1, 3))
    db = DataBlock()
    db.blockname = "blk"
    for nm, a in mats:
        db[nm] = a
    scalars(ctx, db, pool)
    fmt = None
    if ctx.chance(.4):
        fmt = lambda v, i, j: "%s(%s,%s)" % (v, i, j)
    ctx.log("split", [(n, a.dims) for n, a in mats])
    with Pure(ctx, db, what="convert_matrices_to_elements"):
        el = convert_matrices_to_elements(db, fmt) if fmt else \
            convert_matrices_to_elements(db)
    want = []
    for k in db.vardata.keys():
        v = db.vardata[k]
        if k in [n for n, _ in mats]:
            m = Model.of(v)
            for i in range(m.v.shape[-2]):
                for j in range(m.v.shape[-1]):
                    nm = ("%s(%s,%s)" if fmt else "%s%s%s") % (k, i + 1,
                                                               j + 1)
                    want.append(nm)
                    got = el.vardata[nm] if nm in el.vardata else None
                    ctx.check(got is not None, "element %s missing" % nm,
                              got=el.vardata.keys())
                    ctx.equal(plain(got), m.v[..., i, j], "split %s" % nm)
                    ctx.check(descs(got.dims) == m.axes[:-2],
                              "dims of element %s" % nm, got=got.dims)
                    ctx.ev("split")
        else:
            want.append(k)
            same(ctx, el.vardata[k], Model.of(v), "scalar %s" % k)
    ctx.check(el.vardata.keys() == want, "names after splitting",
              got=el.vardata.keys(), want=want)
    ctx.check(el.blockname == "blk", "block name lost")
    # as file columns
    header, cols = make_col_from_matrix(db.vardata.keys(),
                                        db.vardata.values(), "%s%d%d")
    ctx.check(header == [re.sub(r"\((\d),(\d)\)$", r"\1\2", n) for n in want],
              "column names", got=header)
    for h, c in zip(el.vardata.values(), cols):
        ctx.equal(plain(c), plain(h), "column of a matrix element")
        ctx.ev("columns")
    if fmt:
        return
    # recombine
    recombine(ctx, db, mats, el)
    ctx.state([n for n, _ in mats], [a.shape for _, a in mats])


class Reader(ReadFileFormat):
    """a reader whose file holds one block, handed over as it is"""
    def __init__(self, block):
        ReadFileFormat.__init__(self, make_matrix=True, make_complex=False,
                                property_to_vars=False, guess_unit=False,
                                normalize=False)
        self.block = block

    def tokenize(self, stream):
        return iter(["block"])

    def parse_blocks(self, stream):
        return [self.block]


def assembled(block):
    out = Reader(block).do_file(None)
    if "FILEINDEX" in out:
        del out["FILEINDEX"]
    return out


def recombine(ctx, db, mats, el):
    how = ctx.choice(["reader", "helper"])
    if any(not re.match("[A-Za-z_]+$", n) for n, _ in mats):
        how = "helper"
    o = DataBlock()
    for k in ctx.shuffled(el.vardata.keys()):
        v = el.vardata[k]
        o[k] = hfarray(plain(v), dims=v.dims, unit=v.unit)
    if how == "reader":
        o = assembled(o)
    else:
        for nm, a in mats:
            combine_elements_to_matrix(o, nm)
    for nm, a in mats:
        if how == "reader" and a.shape[-2:] == (1, 1):
            ctx.equal(plain(o.vardata[nm + "11"]), plain(a)[..., 0, 0],
                      "single element")
            continue
        got = o.vardata[nm]
        same(ctx, got, Model.of(a), "recombined %s" % nm)
        ctx.ev("recombined")
        if how == "reader":
            ctx.check(not [k for k in o.vardata.keys()
                           if re.match(nm + "[0-9][0-9]$", k)],
                      "elements left", got=o.vardata.keys())
    for k in db.vardata.keys():
        if k not in [n for n, _ in mats]:
            same(ctx, o.vardata[k], Model.of(db.vardata[k]), "scalar %s" % k)


@PROP.family(quick=1000, floors=["mixed types", "incomplete kept",
                                 "name taken"])
def combine(ctx):
    """Elements of different type, incomplete sets."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 2), maxlen=3, classes=[DimSweep])
    n, m = ctx.randint(1, 3), ctx.randint(2, 3)
    o = DataBlock()
    ri, rj = list(range(1, n + 1)), list(range(1, m + 1))
    if ctx.chance(.3):                  # some of the ports of a larger one
        ri = sorted(ctx.sample(range(1, 10), n))
        rj = sorted(ctx.sample(range(1, 10), m))
    want = np.zeros(tuple(len(d.data) for d in pool) + (n, m), complex)
    names = [(i, j) for i in range(n) for j in range(m)]
    drop = None
    if n * m > 2 and n > 1 and ctx.chance(.3):
        drop = ctx.choice(names)
    units = ctx.choice([[None], ["V"], ["V", "A"], [None, "V"]])
    used = []
    for i, j in ctx.shuffled(names):
        a = gen.array(ctx, pool, ctx.choice(["float", "complex", "int"]))
        a = hfarray(plain(a), dims=a.dims, unit=ctx.choice(units))
        used.append(a.unit)
        want[..., i, j] = plain(a)
        if (i, j) != drop:
            o["S%d%d" % (ri[i], rj[j])] = a
    before = MBlockSnap(o)
    if drop is None:
        if ctx.chance(.5):
            o["S11x"] = gen.array(ctx, pool)     # no element of S
        if ctx.chance(.1):
            # the name is taken: nothing is lost
            o["S"] = gen.array(ctx, pool)
            before = MBlockSnap(o)
            o = assembled(o)
            ctx.check(MBlockSnap(o) == before, "name of the matrix is taken")
            ctx.ev("name taken")
            return
        if ctx.chance(.5):
            o = assembled(o)
            ctx.check(o.vardata["S"].unit ==
                      (used[0] if len(set(used)) == 1 else None),
                      "unit of the matrix", got=o.vardata["S"].unit,
                      want=used)
        else:
            combine_elements_to_matrix(o, "S")
        got = o.vardata["S"]
        ctx.equal(plain(got), want, "matrix of mixed elements")
        ctx.ev("mixed types")
    else:
        o = assembled(o)
        ctx.check("S" not in o.vardata or drop[0] * drop[1] == 0,
                  "matrix made of incomplete elements")
        if "S" not in o.vardata:
            ctx.check(MBlockSnap(o) == before, "incomplete elements lost")
        ctx.raises(Exception, lambda: combine_elements_to_matrix(o, "S"),
                   "incomplete set accepted")
        ctx.ev("incomplete kept")
    ctx.state(n, m, drop, want.shape)


def MBlockSnap(db):
    return sorted((k, repr(snap(v))) for k, v in db.vardata.items())


@PROP.family(quick=1500, floors=["name parsed"])
def names(ctx):
    stem = ctx.choice(MNAMES + ["S1", "S11x", "", "9S", "a b", "S.", "Re(S"])
    tail = ctx.choice(["11", "12", "21", "99", "01", "10", "00", "1", "",
                       "111", "1a", "11 ", "(1,1)", "1,1"])
    x = stem + tail
    want = (None, None)
    if len(x) >= 3 and x[-1] in "123456789" and x[-2] in "123456789":
        s = x[:-2]
        ok = all(c.isascii() and (c.isalnum() or c == "_") for c in s) and \
            not s[0].isdigit() and not s[-1].isdigit()
        if ok:
            want = (s, (int(x[-2]) - 1, int(x[-1]) - 1))
    got = is_matrix_name(x)
    ctx.check(tuple(got) == want, "element name %r" % x, got=got, want=want)
    ctx.ev("name parsed")
    ctx.state(x)
