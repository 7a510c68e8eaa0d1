"""C02: programs of array operations keep values at their coordinates."""
import operator as op

import numpy as np

from hftools.dataset import hfarray, DimSweep, DimRep
from hftools.dataset.arrayobj import _hfarray
from hfmon import gen
from hfmon.arrayops import index, finish
from hfmon.core import Property
from hfmon.model import Model, same, snap, binop, m_select, m_transpose, \
    m_reduce, m_map, plain, desc, diff, invariant

PROP = Property(
    "C02", "Random programs of 3-14 array operations on a growing set of "
    "labelled arrays over a shared pool of dimensions; after every step the "
    "result is compared with a reference interpreter over (coordinates -> "
    "value), the one-dimension-per-axis invariant is evaluated, and all other "
    "live arrays are checked to be untouched. Distinct state = (operation, "
    "axis keys of operands).")

UFUNC = [("neg", op.neg), ("abs", abs), ("conj", np.conj), ("exp", np.exp),
         ("real", np.real), ("imag", np.imag), ("sqrt", np.sqrt),
         ("method conj", None), ("attr real", None), ("attr imag", None)]


class Machine(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.pool = gen.dim_pool(ctx, ctx.randint(2, 4), minlen=1, maxlen=4,
                                 matrix=.3)
        self.live = []           # (array, model, snapshot)
        for _ in range(ctx.randint(2, 3)):
            d = ctx.sample(self.pool, ctx.randint(0, len(self.pool)))
            self.add(gen.array(ctx, d, ctx.choice(["float", "complex"]),
                               unit=ctx.choice(gen.UNITS),
                               fmt=ctx.choice(gen.FMTS)))

    def add(self, a, m=None):
        self.live.append([a, m or Model.of(a), snap(a)])
        if len(self.live) > 7:
            self.live.pop(0)

    def pick(self, nmin=0):
        c = [x for x in self.live if x[0].ndim >= nmin]
        return self.ctx.choice(c) if c else None

    def untouched(self, what, skip=None):
        for e in self.live:
            if e is skip:
                continue
            now = snap(e[0])
            self.ctx.check(now == e[2], "%s changed another array" % what,
                           diff=diff(e[2], now))
            self.ctx.ev("live array unchanged")


def step(ctx, M):
    kind = ctx.choice(["binop"] * 4 + ["index"] * 3 + [
        "transpose", "reorder", "reduce", "reduce", "ufunc", "number",
        "copy", "view", "cum", "squeeze", "take", "add_dim", "T",
        "sub-assign", "astype", "list"])
    e = M.pick(0 if kind in ("binop", "ufunc", "number", "copy", "view",
                             "add_dim", "squeeze") else 1)
    if e is None:
        return
    a, m = e[0], e[1]
    tol = dict(exact=False, rtol=1e-9, atol=0.0)
    skip_unit = False
    if kind == "binop":
        f = M.pick()
        b, n = f[0], f[1]
        for x in m.axes:                 # coordinates must agree by name
            for y in n.axes:
                if x[:2] == y[:2] and x != y:
                    return
                if x[1] == y[1] and x[0] != y[0]:
                    return
        sym, fn = ctx.choice([("+", op.add), ("-", op.sub), ("*", op.mul),
                              ("/", op.truediv)])
        if sym == "/" and not np.abs(n.v).min(initial=1) > 1e-6:
            return
        what = "a %s b" % sym
        got, want = fn(a, b), binop(fn, m, n)
        tol["atol"] = 1e-12 * (1 + np.abs(want.v).max(initial=0))
        if got.ndim == a.ndim == 0:
            pass
    elif kind == "index":
        idx, sels = index(ctx, m, empty=False)
        key = finish(ctx, idx, a.ndim)
        what = "a[%r]" % (key,)
        got, want = a[key], m_select(m, sels)
        if not isinstance(got, _hfarray):
            ctx.equal(got, want.v, what)
            return
    elif kind == "list":
        idx, sels = index(ctx, m, kinds=["all", "list", "nd"], empty=False)
        what = "a[%r]" % (idx,)
        got, want = a[tuple(idx)], m_select(m, sels)
        if len(set(map(str, got.dims))) != got.ndim:
            return
    elif kind == "transpose":
        o = [int(i) for i in ctx.rng.permutation(a.ndim)]
        what = "transpose%r" % (o,)
        got, want = a.transpose(*o), m_transpose(m, o)
    elif kind == "T":
        what = "T"
        got, want = a.T, m_transpose(m, list(range(a.ndim))[::-1])
    elif kind == "reorder":
        o = [int(i) for i in ctx.rng.permutation(a.ndim)]
        k = ctx.randint(0, a.ndim)
        first = o[:k]
        rest = [i for i in range(a.ndim) if i not in first]
        what = "reorder_dimensions%r" % (first,)
        got = a.reorder_dimensions(*[a.dims[i] for i in first])
        want = m_transpose(m, first + rest)
    elif kind == "reduce":
        ax = [int(i) for i in ctx.rng.permutation(a.ndim)[
            :ctx.randint(1, min(2, a.ndim))]]
        meth, fn = ctx.choice([("sum", np.sum), ("mean", np.mean),
                               ("std", np.std)])
        what = "%s over %r" % (meth, ax)
        arg = [ctx.choice([a.dims[i].name, a.dims[i], i]) for i in ax]
        got, want = getattr(a, meth)(arg), m_reduce(m, fn, ax)
        tol["atol"] = 1e-9 * (1 + np.abs(m.v).max(initial=0))
    elif kind == "cum":
        i = ctx.randint(0, a.ndim - 1)
        what = "cumsum %d" % i
        got, want = a.cumsum(a.dims[i]), m_map(m, lambda v: v.cumsum(i))
        tol["atol"] = 1e-9 * (1 + np.abs(m.v).max(initial=0))
    elif kind == "ufunc":
        what, fn = ctx.choice(UFUNC)
        if what == "exp":
            a2 = a / (1 + float(np.abs(m.v).max(initial=0)))
            got = np.exp(a2)
            want = m_map(m, lambda v: np.exp(v / (
                1 + float(np.abs(m.v).max(initial=0)))))
            want = m_transpose(want, [want.keys().index(desc(d)[:2])
                                      for d in got.dims])
        elif fn is None:
            nm = what.split()[1]
            got = getattr(a, nm)
            got = got() if callable(got) else got
            want = m_map(m, getattr(np, nm))
        elif what == "sqrt":
            got = np.sqrt(np.abs(a))
            want = m_map(m, lambda v: np.sqrt(np.abs(v)))
        else:
            got, want = fn(a), m_map(m, fn)
        tol["atol"] = 1e-12
    elif kind == "number":
        s = ctx.choice([2.0, -1.5, 3, 1j])
        what = "a*%r+1" % s
        got = a * s + 1
        want = m_map(m, lambda v: v * s + 1)
        want = m_transpose(want, [want.keys().index(desc(d)[:2])
                                  for d in got.dims])
        tol["atol"] = 1e-12
    elif kind == "copy":
        what = "copy"
        got, want = a.copy(), m
        ctx.check(not np.shares_memory(plain_view(got), plain_view(a))
                  or a.size == 0, "copy shares memory")
        ctx.check(got.unit == a.unit and got.outputformat == a.outputformat,
                  "copy lost unit or format")
    elif kind == "view":
        what = "view"
        got, want = a.view(), m
        ctx.check(got.unit == a.unit and got.outputformat == a.outputformat,
                  "view lost unit or format")
    elif kind == "astype":
        what = "astype"
        got, want = a.astype(complex), m_map(m, lambda v: v.astype(complex))
    elif kind == "squeeze":
        what = "squeeze"
        keep = [i for i in range(a.ndim) if a.shape[i] != 1]
        got = a.squeeze()
        want = Model(m.v.reshape([a.shape[i] for i in keep]),
                     [m.axes[i] for i in keep])
    elif kind == "take":
        i = ctx.randint(0, a.ndim - 1)
        n = a.shape[i]
        sel = [ctx.randint(0, n - 1) for _ in range(ctx.randint(1, n))]
        what = "take %r along %d" % (sel, i)
        got = a.take(sel, axis=ctx.choice([i, a.dims[i].name, a.dims[i]]))
        want = m_select(m, [sel if k == i else list(range(z))
                            for k, z in enumerate(a.shape)])
    elif kind == "add_dim":
        free = [d for d in M.pool if d.name not in [x[1] for x in m.axes]]
        if not free:
            return
        d = ctx.choice(free)
        i = ctx.randint(0, a.ndim)
        what = "add_dim %r at %d" % (d, i)
        got = a.add_dim(d, i)
        n = len(d.data)
        want = Model(np.repeat(np.expand_dims(m.v, i), n, axis=i),
                     m.axes[:i] + [desc(d)] + m.axes[i:])
    elif kind == "sub-assign":
        # writing into a copy must not reach the original
        c = a.copy()
        idx, sels = index(ctx, m, empty=False)
        c[tuple(idx)] = -3.25
        g = [[s] if isinstance(s, int) else s for s in sels]
        v = m.v.copy()
        v[np.ix_(*[np.asarray(x, int) for x in g])] = -3.25
        what = "assign %r in copy" % (idx,)
        got, want = c, Model(v, m.axes)
    ctx.log(what, "of", a.dims)
    same(ctx, got, want, what, **tol)
    M.untouched(what)
    # continue from the observed values (tolerance must not accumulate)
    M.add(got)
    ctx.ev("step " + kind)
    ctx.state(kind, m.keys(), want.keys())


def plain_view(a):
    return np.ndarray.view(a, np.ndarray)


@PROP.family(quick=3500, floors=["step binop", "step index", "step reduce",
                                 "step take", "live array unchanged"])
def programs(ctx):
    M = Machine(ctx)
    for _ in range(ctx.randint(3, 14)):
        step(ctx, M)
        if any(np.abs(e[1].v).max(initial=0) > 1e60 for e in M.live):
            break


@PROP.family(quick=800, floors=["constructed"])
def construct(ctx):
    """Construction copies by default, keeps labels, checks the axes."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 4), matrix=.3)
    a = gen.array(ctx, pool, ctx.choice(["float", "complex", "int"]),
                  unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS))
    before = snap(a)
    b = hfarray(a)
    ctx.check(snap(b) == before, "copy construction changed something",
              diff=diff(before, snap(b)))
    if b.size:
        b[...] = 99
    ctx.check(snap(a) == before, "copy construction shares memory")
    b = hfarray(a, unit="dB", outputformat="%.5f")
    ctx.check(b.unit == "dB" and b.outputformat == "%.5f" and
              [desc(d) for d in b.dims] == [desc(d) for d in a.dims],
              "copy construction ignored the given unit or format",
              got=(b.unit, b.outputformat))
    ctx.equal(plain(b), plain(a), "copy construction with a unit")
    if a.ndim and a.dtype.kind == "i":
        b = hfarray(a, dtype=complex)
        ctx.check(b.dtype == complex and b.unit == a.unit,
                  "copy construction with a data type", got=b.dtype)
        ctx.equal(plain(b), plain(a).astype(complex), "type conversion")
    # fewer than three axes are named freq and rep, counted from 0
    r = gen.values(ctx, ctx.choice([(3,), (2, 3), (1, 1), (0,), ()]), "float")
    b = hfarray(r)
    ctx.check([desc(d) for d in b.dims] ==
              [("DimSweep", "freq", tuple(range(r.shape[0])), None),
               ("DimRep", "rep", tuple(range(r.shape[-1])), None)][:r.ndim]
              if r.ndim else b.dims == (), "default dimensions", got=b.dims)
    ctx.raises(Exception, lambda: hfarray(np.zeros((2, 2, 2))),
               "three axes without dimensions accepted")
    raw = gen.values(ctx, a.shape, "float")
    c = hfarray(raw, dims=a.dims, unit="W")
    ctx.check(c.unit == "W" and [desc(d) for d in c.dims] ==
              [desc(d) for d in a.dims], "construction lost labels")
    ctx.equal(plain(c), raw, "construction")
    ctx.raises(Exception, lambda: hfarray(raw, dims=tuple(a.dims) +
                                          (DimSweep("extra", 1),)),
               "too many dimensions accepted")
    if a.ndim:
        ctx.raises(Exception, lambda: hfarray(raw, dims=a.dims[:-1]),
                   "too few dimensions accepted")
    # a dimension turns into the array of its coordinates
    for d in pool[:2]:
        v = hfarray(d)
        invariant(ctx, v, "array of a dimension")
        ctx.equal(plain(v), d.data, "array of a dimension")
        ctx.check(v.unit == d.unit and desc(v.dims[0]) == desc(d),
                  "array of a dimension lost labels")
    ctx.ev("constructed")
    ctx.state(a.shape, a.dtype, a.unit, a.outputformat)


@PROP.family(quick=600, floors=["replace_dim"])
def relabel(ctx):
    """replace_dim and the dims setter relabel and nothing else."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), classes=[DimSweep, DimRep])
    a = gen.array(ctx, pool, "float")
    other = a.copy()
    m, so = Model.of(a), snap(other)
    i = ctx.randint(0, a.ndim - 1)
    d = a.dims[i]
    cls = ctx.choice([DimSweep, DimRep])
    if ctx.chance(.4):
        a.replace_dim(d.name, cls)
        new = (cls.__name__,) + desc(d)[1:]
    else:
        nd = cls(ctx.choice(["newname", d.name]), gen.coords(ctx, a.shape[i]),
                 unit="K")
        a.replace_dim(ctx.choice([d, d.name]), nd)
        new = desc(nd)
    want = Model(m.v, m.axes[:i] + [new] + m.axes[i + 1:])
    same(ctx, a, want, "replace_dim")
    ctx.check(snap(other) == so, "replace_dim reached another array")
    ctx.check(desc(d) == m.axes[i], "replace_dim changed a dimension object")
    ctx.ev("replace_dim")
    ctx.state(i, new[0], a.shape)
