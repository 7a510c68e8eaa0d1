"""C06: dimension objects behave as immutable values."""
import datetime

import numpy as np

from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j, DimPartial
from hftools.dataset.arrayobj import Dims, DimsList
from hftools.dataset.dim import (DimAnonymous, DimBase, DiagAxis, IndepAxis,
                                 DerivAxis)
from hfmon import gen
from hfmon.core import Property
from hfmon.model import desc, snap

PROP = Property(
    "C06", "Dimensions of every kind with numeric, string and date "
    "coordinates (lists, tuples, arrays, ranges, integers, other dimensions) "
    "are built, copied with overrides, sliced and compared; a shadow record "
    "of (kind, name, coordinates, unit) decides equality, hashing and what "
    "must have been carried over. Distinct state = (kind, coordinate type, "
    "override or slice form).")

KINDS = [DimSweep, DimRep, DimMatrix_i, DimMatrix_j, DimPartial, DimAnonymous,
         DiagAxis, IndepAxis, DerivAxis]


def coords(ctx, n=None):
    n = ctx.randint(1, 5) if n is None else n
    t = ctx.choice(["num", "num", "num", "str", "date"])
    if t == "num":
        c = gen.coords(ctx, n)
    elif t == "str":
        c = ["s%d" % i for i in ctx.rng.permutation(9)[:n]]
    else:
        c = [datetime.datetime(2012, 1, 2, 3, 4, 5) +
             datetime.timedelta(seconds=int(k),
                                microseconds=int(k) * ctx.choice([0, 123]))
             for k in ctx.rng.permutation(1000)[:n]]
    return t, c


def tolist(x, t):
    return [v if not isinstance(v, datetime.datetime) else v for v in
            x.tolist()]


def wrap(ctx, c, t):
    """The ways coordinates are handed over."""
    w = ctx.choice(["list", "tuple", "array", "hfarray", "nested", "iter"])
    if t != "num":
        w = ctx.choice(["list", "tuple", "array"])
    if t == "date" and w == "array":
        return w, np.array(c, dtype="datetime64[us]")
    if w == "list":
        return w, list(c)
    if w == "tuple":
        return w, tuple(c)
    if w == "array":
        return w, np.array(c)
    if w == "hfarray":
        return w, hfarray(np.array(c), dims=(DimSweep("q", len(c)),))
    if w == "iter":
        return w, iter(list(c))
    k = ctx.randint(0, len(c))
    return w, [list(c[:k]), tuple(c[k:])]


def record(d):
    return (type(d), d.name, tuple(d.data.tolist()), d.unit)


@PROP.family(quick=4000, floors=["built", "rebuilt", "sliced", "immutable"])
def build(ctx):
    cls = ctx.choice(KINDS)
    t, c = coords(ctx)
    w, data = wrap(ctx, c, t)
    unit = ctx.choice(gen.UNITS)
    fmt = ctx.choice([None, None, "%.3f", "%s"])
    nm = ctx.choice(gen.NAMES)
    kw = {}
    if unit is not None:
        kw["unit"] = unit
    if fmt is not None:
        kw["outputformat"] = fmt
    d = cls(nm, data, **kw)
    rec = record(d)
    ctx.log(cls.__name__, nm, w, c, kw)
    ctx.check(d.name == nm and d.unit == unit, "name or unit wrong",
              got=(d.name, d.unit))
    ctx.check(d.data.tolist() == list(c), "coordinates changed or reordered",
              got=d.data.tolist(), want=c)
    if t == "date":
        ctx.check(d.data.dtype.kind == "M", "dates are no dates",
                  got=d.data.dtype)
    want = fmt or ({"num": "%d" if type(d.data.tolist()[0]) is int
                    else "%.16e"}
                   .get(t, "%s"))
    ctx.check(d.outputformat == want, "output format", got=d.outputformat,
              want=want)
    ctx.check(d.fullsize() == len(c), "fullsize", got=d.fullsize())
    ctx.ev("built")
    # source objects stay ours
    if w == "list":
        data.append("later")
        ctx.check(record(d) == rec, "dimension follows the caller's list")
    if w == "array" and t == "num":
        data[...] = 0
        ctx.check(record(d) == rec, "dimension follows the caller's array")
    # .data can not be used to change the dimension
    try:
        d.data[...] = d.data[::-1].copy()
    except ValueError:
        pass
    ctx.check(record(d) == rec, "dimension changed through its data")
    for attr in ("name", "data", "unit", "outputformat"):
        try:
            setattr(d, attr, "zz")
        except AttributeError:
            pass
        ctx.check(record(d) == rec, "attribute %s is writable" % attr)
    ctx.ev("immutable")

    if ctx.chance(.1):
        # a number of points
        k = ctx.choice([0, 1, 2, 7])
        ctx.check(cls(nm, k).data.tolist() == list(range(k)),
                  "dimension of %d points" % k, got=cls(nm, k).data)
    # rebuild with overrides, maybe of another kind
    cls2 = ctx.choice(KINDS)
    over = {}
    if ctx.chance(.3):
        over["name"] = "other"
    if ctx.chance(.3):
        over["unit"] = ctx.choice(["K", "K", ""])
    if ctx.chance(.3):
        over["data"] = gen.coords(ctx, ctx.randint(1, 4))
    if ctx.chance(.3):
        over["outputformat"] = "%.1f"
    e = cls2(d, **over)
    ctx.check(record(d) == rec, "building from a dimension changed it")
    ctx.check(type(e) is cls2, "kind", got=type(e))
    ctx.check(e.name == over.get("name", nm) and
              e.unit == over.get("unit", unit), "name or unit not carried "
              "over", got=(e.name, e.unit), over=over)
    ctx.check(e.data.tolist() == list(over.get("data", c)),
              "coordinates not carried over", got=e.data.tolist())
    want = d.outputformat
    if fmt is None and "data" in over:      # default of the new coordinates
        want = "%d" if type(e.data.tolist()[0]) is int else "%.16e"
    ctx.check(e.outputformat == over.get("outputformat", want),
              "output format not carried over", got=e.outputformat)
    ctx.ev("rebuilt")

    # slicing
    n = len(c)
    from hfmon.arrayops import rslice
    s = rslice(ctx, n)
    f = d[s]
    ctx.check(record(d) == rec, "slicing a dimension changed it")
    ctx.check(type(f) is cls and f.name == nm and f.unit == unit and
              f.data.tolist() == list(c)[s], "slice of a dimension",
              s=s, got=record(f))
    if len(f.data):
        ctx.check(f.outputformat == d.outputformat, "slice lost format")
    g = ctx.rng.random(n) < .5 if ctx.chance(.5) else \
        ctx.rng.integers(0, n, ctx.randint(1, 4))
    h = d[g]
    ctx.check(type(h) is cls and h.name == nm and h.unit == unit and
              h.data.tolist() == np.array(c)[g].tolist() if t != "date" else
              len(h.data) == len(np.arange(n)[g]), "selection of a dimension",
              got=record(h))
    ctx.raises(IndexError, lambda: d[0], "integer index of a dimension")
    ctx.ev("sliced")
    ctx.state(cls.__name__, cls2.__name__, t, w, sorted(over))


def variant(ctx, base):
    """A dimension that equals base or differs in one aspect."""
    cls, nm, c, unit = base
    how = ctx.choice(["same", "same", "kind", "name", "coords", "unit",
                      "order", "len", "fmt"])
    fmt = None
    if how == "kind":
        cls = ctx.choice([k for k in KINDS if k is not cls])
    elif how == "name":
        nm = nm + "x"
    elif how == "coords":
        c = list(c)
        c[ctx.randint(0, len(c) - 1)] = 1e9 + ctx.randint(1, 9)
    elif how == "unit":
        unit = "Q" if unit is None else ctx.choice([None, "Q"])
    elif how == "order":
        c = list(c)[::-1]
    elif how == "len":
        c = list(c) + [5e8]
    elif how == "fmt":
        fmt = "%.2f"
    kw = {} if unit is None else {"unit": unit}
    if fmt:
        kw["outputformat"] = fmt
        return how, cls(nm, list(c), **kw)
    # the same dimension by a roundabout way
    way = ctx.randint(0, 5)
    if way == 0:
        return how, cls(nm, list(c) + [3.25], **kw)[:-1]
    if way == 1:
        return how, cls(nm, [3.25] + list(c), **kw)[
            np.arange(len(c) + 1) > 0]
    if way == 2:
        return how, cls(ctx.choice(KINDS)("qq", [1, 2, 3]), data=list(c),
                        name=nm, **kw)
    if way == 3:
        return how, cls(ctx.choice(KINDS)(nm, list(c), **kw))
    return how, cls(nm, list(c), **kw)


@PROP.family(quick=4000, floors=["equality decided", "set membership"])
def equality(ctx):
    c = gen.coords(ctx, ctx.randint(1, 4))
    base = (ctx.choice(KINDS), ctx.choice(gen.NAMES), c,
            ctx.choice(gen.UNITS))
    ds = [variant(ctx, base) for _ in range(4)]
    for ha, a in ds:
        for hb, b in ds:
            want = record(a) == record(b)
            ctx.check((a == b) is want, "equality of dimensions", a=record(a),
                      b=record(b), got=a == b)
            ctx.check((a != b) is (not want), "inequality of dimensions",
                      a=record(a), b=record(b))
            ctx.ev("equality decided")
            if want:
                ctx.check(hash(a) == hash(b), "equal dimensions hash "
                          "differently", a=record(a), b=record(b))
                ctx.check(b in {a} and {a: 1}.get(b) == 1, "equal dimension "
                          "not found in set", a=record(a))
                ctx.ev("set membership")
    plain = [d for h, d in ds]
    ctx.check(len(set(plain)) == len(set(map(record, plain))),
              "set of dimensions")
    a = ds[0][1]
    ctx.check((a == a.name) is True and (a == a.name + "z") is False and
              (a != a.name) is False, "comparison with a name")
    ctx.state(base[0].__name__, sorted(h for h, _ in ds))


@PROP.family(quick=1000, floors=["sorted"])
def ordering(ctx):
    """Sorting orders by kind, then by name."""
    prio = {DimSweep: 0, DimPartial: 0, DimAnonymous: 0, DimRep: 1,
            DimMatrix_i: 2, DimMatrix_j: 3}
    names = ctx.sample(gen.NAMES, ctx.randint(2, 6))
    ds = [ctx.choice(sorted(prio, key=str))(n, gen.coords(ctx, 2))
          for n in names]
    got = sorted(ds)
    want = sorted(ds, key=lambda d: (prio[type(d)], d.name))
    ctx.check([d.name for d in got] == [d.name for d in want],
              "sort order of dimensions", got=got, want=want)
    ctx.ev("sorted")
    ctx.state([type(d).__name__ for d in ds])


@PROP.family(quick=800, floors=["diag triple"])
def diag(ctx):
    """Diagonal, independent and derivative partners share all labels."""
    cls = ctx.choice([DimSweep, DimRep, DimMatrix_i, DimMatrix_j, DiagAxis,
                      DimAnonymous])
    d = cls(ctx.choice(gen.NAMES), gen.coords(ctx, 3), unit="Hz",
            outputformat="%.2f")
    i, j = d.indep_axis, d.deriv_axis
    for e in (i, j):
        ctx.check((e.name, e.unit, e.data.tolist(), e.outputformat) ==
                  (d.name, d.unit, d.data.tolist(), d.outputformat),
                  "partner axis lost labels", got=record(e))
    ctx.check(type(i) is not type(j) and i != j, "partners not distinct")
    if cls is DiagAxis:
        ctx.check(i.deriv_axis == j and j.indep_axis == i and
                  i.diag_axis == d and j.diag_axis == d, "partners do not "
                  "lead back")
    ctx.ev("diag triple")
    ctx.state(cls.__name__)


@PROP.family(quick=2000, floors=["looked up", "refused"])
def lookup(ctx):
    """Finding dimensions by name and kind in tuples and lists of them."""
    names = ctx.sample(gen.NAMES, ctx.randint(1, 5))
    ds = [ctx.choice(KINDS)(n, gen.coords(ctx, ctx.randint(1, 3)))
          for n in names]
    seq = ctx.choice([Dims, DimsList])(ds)
    fam = lambda d, k: isinstance(d, k)
    for _ in range(4):
        k = ctx.choice(KINDS + [DimBase])
        n = ctx.choice(names + ["nosuch"])
        q = k(n, [7, 8])
        want = [i for i, d in enumerate(ds) if d.name == n and fam(d, k)]
        ctx.check((q in seq) is bool(want), "containment", got=q in seq,
                  want=want, ds=ds, q=q)
        if isinstance(seq, Dims):
            ctx.check((n in seq) is (n in names), "containment of a name",
                      n=n, ds=ds)
        if want:
            ctx.check(seq.get_matching_dim(q) is ds[want[0]],
                      "matching dimension", q=q, ds=ds)
            ctx.check(seq.matching_index(q) == want[0], "matching index",
                      q=q, ds=ds)
            ctx.ev("looked up")
        else:
            ctx.raises(KeyError, lambda: seq.get_matching_dim(q),
                       "absent dimension found")
            ctx.raises(KeyError, lambda: seq.matching_index(q),
                       "absent dimension found")
            ctx.ev("refused")
    a = gen.array(ctx, [d for d in ds])
    for i, d in enumerate(ds):
        ctx.check(a.dims_index(d.name) == i, "index of a name")
        ctx.check(a.dims_index(d) == i, "index of a dimension")
        ctx.check(a.dims_index(d.name, type(d)) == i, "index of a name and "
                  "kind")
    ctx.raises(IndexError, lambda: a.dims_index("nosuch"), "absent name")
    ctx.state("lookup", type(seq).__name__, len(ds))
