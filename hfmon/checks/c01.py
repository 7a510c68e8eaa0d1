"""C01: binary operators align by dimension."""
import operator as op

import numpy as np

from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j
from hfmon import gen
from hfmon.core import Property
from hfmon.model import Model, Pure, binop, same, union_axes

PROP = Property(
    "C01", "Operand pairs are built from subsets, in random axis order, of a "
    "pool of up to 5 named dimensions (mostly equal lengths so positional "
    "mixing cannot raise), random memory layout; a case is one operator on "
    "one pair. Distinct state = (operator, kinds, axis keys of both operands, "
    "lengths). Non-trivial: result has at least one axis or a number operand.")

ARITH = {"+": op.add, "-": op.sub, "*": op.mul, "/": op.truediv,
         "**": op.pow}
BIT = {"&": op.and_, "|": op.or_, "^": op.xor}
EQ = {"==": op.eq}


def pick(ctx, pool, lo=0):
    n = ctx.randint(lo, len(pool))
    return ctx.sample(pool, n)


def kinds_for(ctx, sym):
    if sym in BIT:
        k = ctx.choice(["int", "bool"])
        return k, k
    ks = ["float", "complex", "int", "pos", "float32"]
    if sym == "**":
        return "pos", ctx.choice(["pos", "float32"])
    return ctx.choice(ks), ctx.choice(ks)


def one(ctx, sym, f, a, b):
    ma = Model.of(a) if isinstance(a, hfarray) else a
    mb = Model.of(b) if isinstance(b, hfarray) else b
    ctx.log(sym, getattr(a, "dims", a), getattr(b, "dims", b))
    args = [x for x in (a, b) if isinstance(x, hfarray)]
    with Pure(ctx, *args, what=sym):
        got = f(a, b)
    ctx.ev("operator " + sym)
    want = binop(f, ma, mb)
    if not (isinstance(ma, Model) and isinstance(mb, Model)):
        # a number leaves the axes as they are or brings them in kind order
        ax = union_axes(want.axes)
        if [d.name for d in got.dims] == [x[1] for x in ax]:
            want = Model(want.v.transpose([want.axes.index(x) for x in ax]),
                         ax)
    same(ctx, got, want, "a %s b" % sym, exact=False, rtol=1e-6
         if any(getattr(x, "dtype", None) == np.float32 for x in (a, b))
         else 1e-11, units=False if sym in () else True)
    ctx.check(isinstance(got, hfarray), "result type", got=type(got))
    if sym in EQ:
        ctx.check(got.dtype == bool, "== does not give booleans",
                  dtype=got.dtype)
    ctx.state(sym, [getattr(x, "dtype", type(x)) for x in (a, b)],
              [m.keys() if isinstance(m, Model) else 0 for m in (ma, mb)],
              want.v.shape)


@PROP.family(quick=6000, floors=["operator " + s for s in
                                 list(ARITH) + list(BIT) + ["=="]])
def pairs(ctx):
    ops = dict(ARITH)
    ops.update(BIT)
    ops.update(EQ)
    sym = ctx.choice(sorted(ops))
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), matrix=0.3)
    ka, kb = kinds_for(ctx, sym)
    if sym == "**":      # keep results finite
        a = gen.array(ctx, pick(ctx, pool), "pos")
        b = gen.array(ctx, pick(ctx, pool), "pos") * 0.05
    else:
        a = gen.array(ctx, pick(ctx, pool), ka, unit=ctx.choice(gen.UNITS))
        b = gen.array(ctx, pick(ctx, pool), kb, unit=ctx.choice(gen.UNITS))
    if sym == "==" and ctx.chance(.7):
        b = b.copy()
        # make some coordinates equal
        b[...] = np.round(np.asarray(b).real) % 3
        a = a.copy()
        a[...] = np.round(np.asarray(a).real) % 3
    one(ctx, sym, ops[sym], a, b)
    one(ctx, sym, ops[sym], b, a)


@PROP.family(quick=2500)
def numbers(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), matrix=0.3)
    sym = ctx.choice(sorted(list(ARITH) + list(BIT) + ["=="]))
    f = dict(ARITH, **dict(BIT, **EQ))[sym]
    if sym in BIT:
        a = gen.array(ctx, pick(ctx, pool), "int")
        s = ctx.randint(0, 12)
        if ctx.chance(0.3):
            s = np.int64(s)
    elif sym == "**":
        a = gen.array(ctx, pick(ctx, pool), "pos") * .1
        s = ctx.choice([2, 0.5, 3, 1.5, 1, 2.25])
    else:
        a = gen.array(ctx, pick(ctx, pool),
                      ctx.choice(["float", "complex", "int", "pos"]))
        s = ctx.choice([2, -3, 1, 0.25, -1.5, 2 + 1j, 1j, np.float64(3.5),
                        np.complex128(1 - 2j), np.int64(7), 3])
        if ctx.chance(0.2):
            s = hfarray(s)
    one(ctx, sym, f, a, s)
    one(ctx, sym, f, s, a)


@PROP.enum(24 * 24)
def permuted(ctx):
    """All axis orders of both operands of a fixed 4-axis block."""
    import itertools
    perms = list(itertools.permutations(range(4)))
    pa, pb = perms[ctx.index // 24], perms[ctx.index % 24]
    d = [DimSweep("freq", [1., 2., 3.], unit="Hz"), DimRep("rep", 3),
         gen.mdim(ctx, DimMatrix_i, 3), gen.mdim(ctx, DimMatrix_j, 3)]
    a = gen.array(ctx, [d[k] for k in pa], "float")
    b = gen.array(ctx, [d[k] for k in pb], "complex")
    for sym in sorted(ARITH):
        if sym == "**":
            continue
        one(ctx, sym, ARITH[sym], a, b)


@PROP.family(quick=700, floors=["same name, other kind"])
def namesakes(ctx):
    """Dimensions of one name but different kind are different ones."""
    ka, kb = ctx.sample([DimSweep, DimRep, DimMatrix_i, DimMatrix_j], 2)
    nm = ctx.choice(gen.NAMES)
    n = ctx.randint(1, 4)
    pool = [d for d in gen.dim_pool(ctx, ctx.randint(0, 2)) if d.name != nm]
    da = ka(nm, gen.coords(ctx, n))
    db = kb(nm, da.data if ctx.chance(.5) else
            gen.coords(ctx, n if ctx.chance(.6) else ctx.randint(1, 4)))
    a = gen.array(ctx, ctx.shuffled(pick(ctx, pool) + [da]), "float")
    b = gen.array(ctx, ctx.shuffled(pick(ctx, pool) + [db]), "complex")
    c = gen.array(ctx, ctx.shuffled([da, db]), "float")
    for sym in ("+", "*"):
        one(ctx, sym, ARITH[sym], a, b)
        one(ctx, sym, ARITH[sym], c, a)
        one(ctx, sym, ARITH[sym], b, c)
    ctx.ev("same name, other kind")
    ctx.check(da in a.dims and db not in a.dims and nm in a.dims and
              "no such name" not in a.dims and db in c.dims and
              da in c.dims, "dimension in dims", a=a.dims, c=c.dims)
    ctx.check(a.dims.matching_index(da) == a.dims.index(da) and
              a.dims.get_matching_dim(da) == da, "matching dimension")
    ctx.raises(KeyError, lambda: a.dims.matching_index(db),
               "dimension of another kind taken for a matching one")
    ctx.raises(KeyError, lambda: a.dims.get_matching_dim(db),
               "dimension of another kind taken for a matching one")
    for d in (da, db):
        ctx.check(c.dims_index(nm, type(d)) == c.dims.index(d),
                  "dims_index by name and kind", dims=c.dims, d=d)
    ctx.raises(IndexError, lambda: a.dims_index(nm, kb),
               "dims_index of a kind that is not there")


@PROP.family(quick=400)
def laws(ctx):
    """Commutativity / associativity hold across axis orders."""
    pool = gen.dim_pool(ctx, 4)
    a, b, c = (gen.array(ctx, pick(ctx, pool), "float") for _ in range(3))
    ctx.log(a.dims, b.dims, c.dims)
    m = binop(op.add, binop(op.mul, Model.of(a), Model.of(b)), Model.of(c))
    same(ctx, a * b + c, m, "a*b+c", exact=False)
    m2 = binop(op.truediv, binop(op.sub, Model.of(a), Model.of(b)),
               Model.of(c))
    same(ctx, (a - b) / c, m2, "(a-b)/c", exact=False)
    ctx.ev("law")
    ctx.state([x.shape for x in (a, b, c)], m.keys())
