"""Workload generators: dimensions, labelled arrays, blocks."""
import datetime
import string

import numpy as np

from hftools.dataset import (hfarray, DimSweep, DimRep, DimMatrix_i,
                             DimMatrix_j, DimPartial)
from hftools.dataset.dim import DimAnonymous, DiagAxis

NAMES = ["freq", "Vgs", "Vds", "rep", "T", "Pin", "a", "b", "x", "y_1"]
UNITS = [None, None, "Hz", "V", "A", "dBm"]
# what the workloads of a property do not use now and then
PLAIN = dict(C02=["special"], C09=["ports"], C04=["special"], C10=["special"],
             C12=["special", "repeated"], C22=["special", "repeated"],
             C25=["repeated"], C28=["special"])


def odd(ctx, what, p):
    """Now and then something unusual, where it makes sense."""
    return what not in PLAIN.get(ctx.prop, ()) and ctx.chance(p)
FMTS = [None, None, "%.16e", "%d", "%.3f", "%s"]


def coords(ctx, n, kind=None):
    kind = kind or ctx.choice(["range", "float", "float", "desc", "int",
                               "shuf", "mixed"])
    r = ctx.rng
    if kind == "mixed":             # whole numbers as int, others as float
        v = np.cumsum(r.integers(1, 4, n)) * .5 - ctx.choice([0, .5, 2])
        return [int(x) if x == int(x) else float(x) for x in v]
    if kind == "range":
        return list(range(n))
    if kind == "int":
        return [int(v) for v in np.cumsum(r.integers(1, 5, n))]
    v = np.cumsum(r.uniform(0.1, 1, n)) * 10.0 ** r.integers(-3, 10)
    v = [float(x) for x in v]
    if n > 1 and odd(ctx, "repeated", .06):
        for _ in range(ctx.randint(1, n)):
            a, b = ctx.randint(0, n - 1), ctx.randint(0, n - 1)
            v[a] = v[b]
    if kind == "desc":
        v = v[::-1]
    if kind == "shuf":
        v = ctx.shuffled(v)
    return v


def length(ctx, lo, hi, p=.02):
    """Number of points, now and then as many as a measurement has."""
    if odd(ctx, "long", p):
        return ctx.choice([33, 65, 101, 130, 201, 257,
                           1025 if ctx.chance(.3) else 33])
    return ctx.randint(lo, hi)


def lengths(ctx, nd, lo, hi, p=.02, top=2000):
    """Numbers of points of *nd* sweeps, at most one of them long."""
    out = [ctx.randint(lo, hi) for _ in range(nd)]
    if nd and odd(ctx, "long", p):
        out = [max(lo, min(n, 2)) for n in out]
        out[ctx.randint(0, nd - 1)] = min(top, length(ctx, 1, 1, 1))
    return out


def dim(ctx, cls, name, n, unit=None, fmt=None, kind=None):
    kw = {}
    if unit is not None:
        kw["unit"] = unit
    if fmt is not None:
        kw["outputformat"] = fmt
    return cls(name, coords(ctx, n, kind), **kw)


def mdim(ctx, cls, n, name=None):
    """Matrix dimension; now and then the ports are not numbered 0, 1, .."""
    name = name or ("i" if issubclass(cls, DimMatrix_i) else "j")
    if odd(ctx, "ports", .25):
        ports = ctx.choice([range(1, n + 1), range(3, 3 + n),
                            range(n - 1, -1, -1),
                            sorted(ctx.sample(list(range(9)), n))
                            if n <= 9 else range(1, n + 1)])
        return cls(name, list(ports))
    return cls(name, n)


def dim_pool(ctx, nmax=4, minlen=1, maxlen=4, classes=None, matrix=0.0,
             distinct=True):
    """A set of distinctly named dimensions to build arrays from.

    Lengths are often equal so that positional mistakes cannot hide behind a
    shape error; a length one dimension appears now and then."""
    names = ctx.sample(NAMES, nmax)
    same = ctx.randint(max(2, minlen), maxlen)
    out = []
    at = ctx.randint(0, nmax - 1) if nmax and odd(ctx, "long", .015) else None
    for k, nm in enumerate(names):
        cls = ctx.choice(classes or [DimSweep, DimSweep, DimSweep, DimRep,
                                     DimRep, DimPartial, DimAnonymous])
        n = same if ctx.chance(0.6) else ctx.randint(minlen, maxlen)
        if maxlen == 4 and odd(ctx, "long", .01):
            n = ctx.choice([5, 8, 11, 17, 30])
        if at is not None:          # one long sweep, few points in the others
            n = length(ctx, 1, 1, 1) if k == at else max(minlen, min(n, 2))
        out.append(dim(ctx, cls, nm, n, unit=ctx.choice(UNITS),
                       fmt=None))
    if ctx.chance(matrix):
        k = same if ctx.chance(0.5) else ctx.randint(1, 3)
        out.append(mdim(ctx, DimMatrix_i, k))
        out.append(mdim(ctx, DimMatrix_j, k if ctx.chance(.6) else
                        ctx.randint(1, 3)))
    return out


def values(ctx, shape, kind="float"):
    """Values that identify their position (unique), by dtype kind."""
    n = int(np.prod(shape, dtype=int))
    r = ctx.rng
    if kind == "float":
        v = r.permutation(n) + 1 + r.uniform(0.01, 0.3, n)
        v = v * np.where(r.random(n) < 0.3, -1, 1)
    elif kind == "pos":
        v = r.permutation(n) + 1 + r.uniform(0.01, 0.3, n)
    elif kind == "complex":
        v = (r.permutation(n) + 1 + r.uniform(0.01, 0.3, n)) \
            * np.exp(2j * np.pi * r.random(n))
    elif kind == "int":
        v = r.permutation(n) + 1
    elif kind == "bool":
        v = r.random(n) < 0.5
    elif kind == "float32":
        v = (r.permutation(n) + 1).astype(np.float32) / 4
    else:
        raise ValueError(kind)
    v = np.asarray(v)
    if kind in ("float", "complex") and n and odd(ctx, "special", .05):
        for k in r.integers(0, n, ctx.randint(1, 3)):
            v[k] = ctx.choice([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e300,
                               1e-300])
    return v.reshape(shape)


def layout(ctx, a):
    """Same values, hostile memory layout."""
    how = ctx.randint(0, 4)
    if how == 0 or a.ndim == 0:
        return a
    if how == 1:
        return np.asfortranarray(a)
    if how == 2:
        big = np.empty(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        big[..., ::2] = a
        big[..., 1::2] = a.flat[0] if a.size else 0
        return big[..., ::2]
    if how == 3:
        return a[::-1].copy()[::-1]
    p = ctx.rng.permutation(a.ndim)
    return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))


def array(ctx, dims, kind="float", unit=None, fmt=None, cls=hfarray,
          hostile=True):
    shape = tuple(len(d.data) for d in dims)
    v = values(ctx, shape, kind)
    if hostile:
        v = layout(ctx, v)
    kw = {}
    if unit is not None:
        kw["unit"] = unit
    if kind in ("float", "complex") and fmt is None and cls is hfarray and \
            odd(ctx, "derived", .1):
        # calculated from integers
        a = hfarray(ctx.rng.permutation(v.size).reshape(shape) + 1,
                    dims=tuple(dims), **kw)
        return a * ctx.choice([.37, 1.25]) if kind == "float" else \
            a * (.37 + .25j)
    if fmt is not None:
        kw["outputformat"] = fmt
    return cls(v, dims=tuple(dims), copy=not (hostile and ctx.chance(0.5)),
               **kw)


def ident(ctx, first=string.ascii_letters, n=None):
    n = n or ctx.randint(2, 6)
    s = ctx.choice(first)
    for _ in range(n - 1):
        s += ctx.choice(string.ascii_letters + "_")
    return s
