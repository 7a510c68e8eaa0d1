"""C15: network parameter conversions describe the same network."""
import itertools

import numpy as np

import hftools.networks.multiports as mp
from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j
from hfmon import gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, descs, invariant
from hfmon.netoracle import basis, params

PROP = Property(
    "C15", "Random well-conditioned N-ports (complex, real or integer data, "
    "0-3 sweep dimensions in any kind order and memory layout, reference "
    "impedances 5..500 Ohm) are pushed through random chains of conversions; "
    "after every step the matrix is compared with the one computed from the "
    "space of port voltages/currents of the original. Distinct state = (path "
    "step, ports, sweep shape/kinds, Z0 class).",
    ["networks with condition number below 1e6 in every representation "
     "visited"])

CLS = {"Z": mp.ZArray, "Y": mp.YArray, "S": mp.SArray, "G": mp.GArray,
       "H": mp.HArray, "ABCD": mp.ABCDArray, "T": mp.TArray,
       "Tp": mp.TpArray}
TWO = sorted(CLS)
MULTI = ["S", "Y", "Z"]
WAVE = ["S", "T", "Tp"]


def kind_of(a):
    for k, c in CLS.items():
        if type(a) is c:
            return k
    return None


def sweep_dims(ctx, nmax=3):
    pool = gen.dim_pool(ctx, ctx.randint(0, nmax), maxlen=3)
    return ctx.shuffled(pool)


def network(ctx, n, dims, dtype="complex"):
    """Basis of port vectors, one network per sweep point."""
    shape = tuple(len(d.data) for d in dims) + (n, n)
    r = ctx.rng
    S = r.normal(size=shape) * 0.5
    if dtype == "complex":
        S = S + 1j * r.normal(size=shape) * 0.5
    z = 10 ** r.uniform(0.7, 2.7)
    return basis("S", S, z)


def describe(ctx, kind, A, dims, z0=None):
    n = A.shape[-1]
    d = tuple(dims) + (gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n))
    A = gen.layout(ctx, A)
    if kind == "S" and z0 is not None:
        return CLS[kind](A, dims=d, Z0=z0)
    return CLS[kind](A, dims=d)


def agree(ctx, a, B, what, dims, tol=1e-9):
    """a must describe the network B (at its own reference impedance)."""
    kind = kind_of(a)
    ctx.check(kind is not None, "%s: lost its parameter class" % what,
              got=type(a))
    invariant(ctx, a, what)
    z0 = a.Z0 if kind in WAVE else 50.0
    want, cond = params(kind, B, z0)
    if cond > 1e6:
        raise Skip()
    n = B.shape[-1]
    ctx.check(descs(a.dims[:-2]) == descs(dims) and a.shape[-2:] == (n, n),
              "%s: dimensions changed" % what, got=a.dims)
    scale = np.abs(want).max(axis=(-1, -2), keepdims=True) if want.size else 1
    err = np.abs(plain(a) - want) / np.where(scale == 0, 1, scale)
    ctx.ev("conversion compared")
    ctx.check(not err.size or err.max() <= tol * max(cond, 100),
              "%s: not the same network" % what, got=plain(a), want=want,
              z0=z0)


@PROP.family(quick=2500, floors=["conversion compared"])
def chains(ctx):
    two = ctx.chance(0.65)
    n = 2 if two else ctx.choice([1, 3, 4])
    kinds = TWO if two else MULTI
    dims = sweep_dims(ctx)
    dt = ctx.choice(["complex", "complex", "real"])
    B = network(ctx, n, dims, dt)
    k = ctx.choice(kinds)
    A, cond = params(k, B, 50.0)
    if cond > 1e5:
        raise Skip()
    if dt == "real":
        A = A.real
    a = describe(ctx, k, A, dims)
    agree(ctx, a, B, "construction", dims)
    path = [k]
    for _ in range(ctx.randint(1, 5)):
        k = ctx.choice(kinds)
        # every representation visited must exist comfortably
        if params(k, B, 50.0)[1] > 1e5:
            continue
        path.append(k)
        kw = {}
        if k == "S" and ctx.chance(0.4):
            kw["Z0"] = float(10 ** ctx.rng.uniform(0.7, 2.7))
            if params(k, B, kw["Z0"])[1] > 1e5:
                kw = {}
        ctx.log("->", k, kw, "from", type(a).__name__, a.dims)
        with Pure(ctx, a, what="conversion"):
            b = CLS[k](a, **kw)
        if k == "S":
            ctx.check(b.Z0 == kw.get("Z0", 50.0),
                      "S conversion has another reference impedance than "
                      "asked for", got=b.Z0, kw=kw)
        agree(ctx, b, B, "->".join(path), dims)
        if k in WAVE and not ctx.chance(0.3) and k == "S":
            ctx.ev("wave representation kept")
        ctx.state(path[-2:], n, [type(d).__name__ for d in dims],
                  [len(d.data) for d in dims], bool(kw), dt)
        a = b


@PROP.enum(64)
def all_pairs(ctx):
    """Each ordered pair of two-port representations, there and back."""
    p = list(itertools.product(TWO, TWO))[ctx.index]
    for dims in ([], [DimSweep("freq", [1e9, 2e9, 3e9])],
                 [DimRep("rep", 3), DimSweep("freq", [1e9, 2e9, 3e9])]):
        B = network(ctx, 2, dims)
        for _ in range(50):
            if max(params(k, B, 50.)[1] for k in p) < 1e4:
                break
            B = network(ctx, 2, dims)
        else:
            raise Skip()
        a = describe(ctx, p[0], params(p[0], B, 50.0)[0], dims)
        with Pure(ctx, a, what="conversion"):
            b = CLS[p[1]](a)
        agree(ctx, b, B, "%s->%s" % p, dims)
        c = CLS[p[0]](b)
        agree(ctx, c, B, "%s->%s->%s" % (p[0], p[1], p[0]), dims)
        ctx.close(plain(c), plain(a), "round trip", rtol=1e-6, atol=1e-6 *
                  np.abs(plain(a)).max())
        ctx.ev("round trip")
        ctx.state(p, len(dims))


@PROP.family(quick=600)
def reference_impedance(ctx):
    """Z0 travels with an S array through construction, views, indexing."""
    n = ctx.choice([1, 2, 2, 3])
    dims = sweep_dims(ctx, 2)
    B = network(ctx, n, dims)
    z0 = float(ctx.choice([50.0, 75.0, 1.0, 377.0,
                           10 ** ctx.rng.uniform(0.5, 3)]))
    A, cond = params("S", B, z0)
    if cond > 1e5:
        raise Skip()
    s = describe(ctx, "S", A, dims, z0)
    ctx.log("S array", dims, "Z0", z0)
    ctx.check(s.Z0 == z0, "constructor ignored Z0", got=s.Z0, want=z0)
    agree(ctx, s, B, "S(data, Z0)", dims)
    with Pure(ctx, s, what="view/reorder/convert"):
        agree(ctx, s.view(), B, "view", dims)
        agree(ctx, s.copy(), B, "copy", dims)
        if dims:
            r = s.reorder_dimensions(*dims)
            agree(ctx, r, B, "reorder", dims)
            k = ctx.randint(0, len(dims[0].data) - 1)
            agree(ctx, s[k], B[k], "index", dims[1:])
            agree(ctx, s[k:k + 1], B[k:k + 1], "slice",
                  [dims[0][k:k + 1]] + list(dims[1:]))
        z1 = float(10 ** ctx.rng.uniform(0.7, 2.7))
        if params("S", B, z1)[1] < 1e5:
            t = mp.SArray(s, Z0=z1)
            ctx.check(t.Z0 == z1, "renormalisation ignored Z0", got=t.Z0,
                      want=z1)
            agree(ctx, t, B, "renormalised", dims)
        if params("Z", B)[1] < 1e5:
            agree(ctx, mp.ZArray(s), B, "Z(S)", dims)
    ctx.ev("reference impedance tracked")
    ctx.state(n, z0 == 50.0, [type(d).__name__ for d in dims])


@PROP.family(quick=300)
def integers(ctx):
    """Integer data convert like the same numbers as floats."""
    k, k2 = ctx.choice(TWO), ctx.choice(TWO)
    if k == k2:
        raise Skip()
    A = ctx.rng.integers(-9, 10, (ctx.randint(1, 3), 2, 2))
    t = ctx.choice([int, int, np.int8, np.uint8, np.uint16, np.float32,
                    np.complex64])
    A = (np.abs(A) if np.dtype(t).kind == "u" else A).astype(t)
    dims = [DimSweep("freq", len(A))]
    B = basis(k, A.astype(complex))
    if params(k2, B)[1] > 1e4:
        raise Skip()
    a = describe(ctx, k, A, dims)
    ctx.log(k, A.tolist(), "->", k2)
    agree(ctx, CLS[k2](a), B, "%s %s->%s" % (A.dtype, k, k2), dims,
          1e-4 if t in (np.float32, np.complex64) else 1e-9)
    ctx.state(k, k2)


@PROP.family(quick=300)
def sums(ctx):
    """Series / parallel connection: parameter arrays add as arrays."""
    k = ctx.choice(["Z", "Y", "H", "G"])
    n = 2 if k in "HG" else ctx.choice([1, 2, 3])
    dims = sweep_dims(ctx, 2)
    B1, B2 = network(ctx, n, dims), network(ctx, n, dims)
    (A1, c1), (A2, c2) = params(k, B1), params(k, B2)
    if max(c1, c2) > 1e5:
        raise Skip()
    a, b = describe(ctx, k, A1, dims), describe(ctx, k, A2, dims)
    ctx.log(k, a.dims)
    s = a + b
    ctx.check(kind_of(s) == k, "sum lost its class", got=type(s))
    order = [[d.name for d in s.dims].index(d.name) for d in a.dims]
    got = plain(s).transpose(order)
    ctx.close(got, A1 + A2, "sum of %s parameters" % k, rtol=1e-9,
              atol=1e-12 * np.abs(A1).max())
    d = a - b
    ctx.close(plain(d).transpose(order), A1 - A2, "difference", rtol=1e-9,
              atol=1e-12 * np.abs(A1).max())
    ctx.ev("sum")
    ctx.state(k, n, len(dims))


@PROP.family(quick=300, floors=["unlabelled"])
def unlabelled(ctx):
    """Plain arrays are labelled freq, rep and the two ports."""
    k = ctx.choice(TWO)
    shp = tuple(ctx.randint(1, 4) for _ in range(ctx.randint(0, 2)))
    dims = [DimSweep("freq", range(shp[0]))] if shp else []
    if len(shp) == 2:
        dims.append(DimRep("rep", range(shp[1])))
    B = network(ctx, 2, dims)
    A, cond = params(k, B, 50.0)
    if cond > 1e5:
        raise Skip()
    a = CLS[k](A if ctx.chance(.6) else A.tolist())
    ctx.log(k, a.dims)
    agree(ctx, a, B, "unlabelled", dims)
    to = ctx.choice(TWO)
    if params(to, B, 50.0)[1] <= 1e5:
        agree(ctx, CLS[to](a), B, "%s->%s" % (k, to), dims)
    ctx.ev("unlabelled")
    ctx.state("unlabelled", k, to, len(shp))


@PROP.family(quick=200)
def elements(ctx):
    """Element attributes are the matrix entries."""
    k = ctx.choice(TWO)
    n = 2 if k not in MULTI else ctx.randint(1, 4)
    dims = sweep_dims(ctx, 2)
    B = network(ctx, n, dims)
    A, c = params(k, B)
    if c > 1e5:
        raise Skip()
    a = describe(ctx, k, A, dims)
    sn = CLS[k].shortname
    for i in range(n):
        for j in range(n):
            for nm in {sn, sn.lower(), sn.upper()}:
                ctx.equal(plain(getattr(a, "%s%d%d" % (nm, i + 1, j + 1))),
                          A[..., i, j], "element %s%d%d" % (nm, i + 1, j + 1))
            ctx.ev("element read")
    i, j = ctx.randint(0, n - 1), ctx.randint(0, n - 1)
    v = ctx.rng.normal(size=A.shape[:-2])
    setattr(a, "%s%d%d" % (sn, i + 1, j + 1), hfarray(v, dims=tuple(dims)))
    A = A.copy()
    A[..., i, j] = v
    ctx.equal(plain(a), A, "element write")
    ctx.state(k, n)


@PROP.family(quick=60)
def rejects(ctx):
    """Two-port classes refuse other sizes; sub-blocks are not converted."""
    k = ctx.choice([x for x in TWO if x not in MULTI])
    n = ctx.choice([1, 3, 4])
    A = ctx.rng.normal(size=(2, n, n))
    ctx.raises(ValueError, lambda: CLS[k](A), "%s accepts %d-port" % (k, n))
    ctx.ev("rejected")
    ctx.state(k, n)
