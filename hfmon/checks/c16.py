"""C16: cascading and de-embedding of two-ports."""
import itertools

import numpy as np

import hftools.networks.multiports as mp
from hftools.networks import spar_functions as sf
from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j
from hfmon import gen
from hfmon.core import Property, Skip
from hfmon.model import Model, Pure, plain, descs, union_axes, invariant, like
from hfmon.netoracle import basis, params

PROP = Property(
    "C16", "Random non-degenerate two-ports over different subsets and orders "
    "of shared sweep dimensions are cascaded and de-embedded through the "
    "S-parameter functions and through the methods of every parameter class; "
    "every result is compared, at each combination of coordinates, with the "
    "product of the chain matrices computed from the port equations. Distinct "
    "state = (operation, classes, operand sweep keys, data types).",
    ["two-ports whose chain, S and own representation exist comfortably "
     "(condition number below 1e4)"])

CLS = {"Z": mp.ZArray, "Y": mp.YArray, "S": mp.SArray, "G": mp.GArray,
       "H": mp.HArray, "ABCD": mp.ABCDArray, "T": mp.TArray,
       "Tp": mp.TpArray}
KINDS = sorted(CLS)
IJ = (DimMatrix_i("i", 2), DimMatrix_j("j", 2))
TOL = 1e-7


class Net(object):
    """A two-port per sweep point, known by its port vectors."""

    def __init__(self, B, dims):
        self.B, self.dims = B, list(dims)

    def chain(self):
        return Model(params("ABCD", self.B)[0], descs(self.dims + list(IJ)))

    def array(self, ctx, kind, z0=None):
        A, cond = params(kind, self.B, z0 or 50.0)
        if cond > 1e4:
            raise Skip()
        if not np.iscomplexobj(self.B):
            A = A.real
        kw = {} if z0 is None else dict(Z0=z0)
        return CLS[kind](gen.layout(ctx, A), dims=tuple(self.dims) + IJ, **kw)


def net(ctx, pool, dt="complex"):
    dims = ctx.shuffled(ctx.sample(pool, ctx.randint(0, len(pool))))
    shape = tuple(len(d.data) for d in dims) + (2, 2)
    for _ in range(30):
        S = ctx.rng.normal(size=shape) * .5
        if dt == "complex":
            S = S + 1j * ctx.rng.normal(size=shape) * .5
        if dt == "int":
            S = ctx.rng.integers(-3, 4, shape)
        if np.abs(S[..., 1, 0]).min() < .05 or np.abs(S[..., 0, 1]).min() < .05:
            continue
        B = basis("S", S, 50.)
        if params("ABCD", B)[1] < 1e4:
            return Net(B, dims), S
    raise Skip()


def chain_product(*ms):
    axes = union_axes(*[m.axes for m in ms])
    keys = [x[:2] for x in axes]
    shape = tuple(len(x[2]) for x in axes)
    out = None
    for m in ms:
        v = m.at(keys, shape)
        out = v if out is None else out @ v
    return Model(out, axes)


def dims_of(axes, pool):
    by = {d.name: d for d in pool}
    return [by[x[1]] for x in axes if x[1] in by]


def agree(ctx, got, want, what, kind="S", z0=None):
    """got must be the network with chain matrices *want* (a Model)."""
    invariant(ctx, got, what)
    if kind is not None:
        ctx.check(type(got) is CLS[kind], "%s: class" % what, got=type(got),
                  want=kind)
    k = kind or "S"
    n = [d for d in got.dims]
    ctx.check(sorted(map(repr, descs(n[:-2]))) ==
              sorted(map(repr, want.axes[:-2])),
              "%s: sweep dimensions" % what, got=got.dims, want=want.axes)
    ctx.check([type(d).__name__ for d in n[-2:]] ==
              ["DimMatrix_i", "DimMatrix_j"] and got.shape[-2:] == (2, 2),
              "%s: matrix dimensions" % what, got=got.dims)
    B = basis("ABCD", want.v)
    w, cond = params(k, B, z0 or 50.0)
    if cond > 1e5:
        raise Skip()
    names = [x[1] for x in want.axes]
    g = plain(got).transpose([[d.name for d in n].index(x) for x in names])
    scale = np.abs(w).max(axis=(-1, -2), keepdims=True)
    err = np.abs(g - w) / np.where(scale == 0, 1, scale)
    ctx.ev("two-port compared")
    ctx.check(err.max() <= TOL, "%s: not the expected two-port" % what,
              got=g, want=w, err=err.max())


def degenerate(*S):
    """A cascade is only defined where 1 - S22 S11 of neighbours is not 0."""
    for a, b in zip(S[:-1], S[1:]):
        d = 1 - np.multiply.outer(a[..., 1, 1], b[..., 0, 0])
        if np.abs(d).min() < .05:
            return True
    return False


def sig(*xs):
    return [[d.name for d in x.dims[:-2]] for x in xs]


def kindof(ctx):
    return ctx.choice(["complex", "complex", "complex", "real", "int"])


@PROP.family(quick=2500, floors=["two-port compared"])
def functions(ctx):
    """cascadeS, deembedleft, deembedright, deembed."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3)
    (n1, S1), (n2, S2), (n3, S3) = [net(ctx, pool, kindof(ctx))
                                    for _ in range(3)]
    if degenerate(S1, S2, S3):
        raise Skip()
    cls = mp.SArray if ctx.chance(.8) else hfarray
    mk = lambda n, S: cls(gen.layout(ctx, S), dims=tuple(n.dims) + IJ)
    a, b, c = mk(n1, S1), mk(n2, S2), mk(n3, S3)
    k = "S" if cls is mp.SArray else None
    ctx.log(a.dims, b.dims, c.dims, a.dtype, b.dtype, c.dtype)
    A, B, C = n1.chain(), n2.chain(), n3.chain()
    AB, BC, ABC = chain_product(A, B), chain_product(B, C), \
        chain_product(A, B, C)
    with Pure(ctx, a, b, c, what="cascade and de-embedding"):
        ab = sf.cascadeS(a, b)
        agree(ctx, ab, AB, "cascade of two", k)
        bc = sf.cascadeS(b, c)
        abc = sf.cascadeS(ab, c)
        agree(ctx, abc, ABC, "(ab)c", k)
        agree(ctx, sf.cascadeS(a, bc), ABC, "a(bc)", k)
        agree(ctx, sf.cascadeS(a, b, c), ABC, "cascade of three", k)
        if ctx.chance(.4):
            nets = [(a, A), (b, B), (c, C)]
            more = nets + [ctx.choice(nets) for _ in range(ctx.randint(1, 3))]
            want = chain_product(*[x[1] for x in more])
            agree(ctx, sf.cascadeS(*[x[0] for x in more]), want,
                  "cascade of %d" % len(more), k)
            ctx.ev("long cascade")
        big = lambda m: Model(np.array(m.at([x[:2] for x in ABC.axes], tuple(
            len(x[2]) for x in ABC.axes))), ABC.axes)
        two = lambda m: Model(np.array(m.at([x[:2] for x in AB.axes], tuple(
            len(x[2]) for x in AB.axes))), AB.axes)
        with Pure(ctx, ab, abc, what="de-embedding"):
            agree(ctx, sf.deembedleft(a, ab), two(B), "de-embed left", k)
            agree(ctx, sf.deembedright(ab, b), two(A), "de-embed right", k)
            agree(ctx, sf.deembed(a, abc, c), big(B), "de-embed both", k)
            agree(ctx, sf.deembedleft(a, abc), big(BC),
                  "de-embed left of three", k)
            agree(ctx, sf.deembedright(abc, c), big(AB),
                  "de-embed right of three", k)
    ctx.ev("inverse laws")
    ctx.state("fn", sig(a, b, c), str(a.dtype), str(b.dtype), k)


@PROP.family(quick=2500, floors=["method compared"])
def methods(ctx):
    """cascade/deembed methods of all parameter classes."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 2), maxlen=3)
    dt = ctx.choice(["complex", "complex", "real"])
    (n1, S1), (n2, S2), (n3, S3) = [net(ctx, pool, dt) for _ in range(3)]
    if degenerate(S1, S2, S3):
        raise Skip()
    ks = [ctx.choice(KINDS) for _ in range(3)]
    z = [float(10 ** ctx.rng.uniform(1, 2.3)) if k == "S" and ctx.chance(.3)
         else None for k in ks]
    a, b, c = [n.array(ctx, k, q) for n, k, q in zip((n1, n2, n3), ks, z)]
    ctx.log(ks, z, a.dims, b.dims, c.dims)
    A, B, C = n1.chain(), n2.chain(), n3.chain()
    AB, ABC = chain_product(A, B), chain_product(A, B, C)

    def over(m, axes):
        return Model(np.array(m.at([x[:2] for x in axes],
                                   tuple(len(x[2]) for x in axes))), axes)
    with Pure(ctx, a, b, c, what="cascade/deembed methods"):
        ab = a.cascade(b)
        agree(ctx, ab, AB, "%s.cascade(%s)" % tuple(ks[:2]), ks[0])
        abc = ab.cascade(c)
        agree(ctx, abc, ABC, "cascade.cascade", ks[0])
        x = ab.deembed(left=a)
        agree(ctx, x, over(B, AB.axes), "deembed(left)", ks[0])
        x = ab.deembed(right=b)
        agree(ctx, x, over(A, AB.axes), "deembed(right)", ks[0])
        x = abc.deembed(a, c)
        agree(ctx, x, over(B, ABC.axes), "deembed(left, right)", ks[0])
        x = abc.deembed()
        agree(ctx, x, ABC, "deembed()", ks[0])
    ctx.ev("method compared")
    ctx.state("method", ks, sig(a, b, c), [q is not None for q in z])


@PROP.enum(64)
def all_pairs(ctx):
    ka, kb = list(itertools.product(KINDS, KINDS))[ctx.index]
    f, r = DimSweep("freq", [1e9, 2e9]), DimRep("rep", 3)
    for dims in ([], [f], [r, f]):
        for _ in range(60):
            try:
                n1, S1 = net(ctx, dims)
                n2, S2 = net(ctx, dims)
                if degenerate(S1, S2):
                    continue
                a, b = n1.array(ctx, ka), n2.array(ctx, kb)
                AB = chain_product(n1.chain(), n2.chain())
                agree(ctx, a.cascade(b), AB, "%s x %s" % (ka, kb), ka)
                break
            except Skip:
                continue
    ctx.state(ka, kb)


@PROP.family(quick=300)
def through(ctx):
    """The perfect through is neutral; its scattering matrix swaps ports."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3)
    n, S = net(ctx, pool)
    t = mp.unit_smatrix()
    ctx.equal(plain(t), np.array([[0, 1], [1, 0]], complex), "through")
    ctx.check(type(t) is mp.SArray and [type(d) for d in t.dims] ==
              [DimMatrix_i, DimMatrix_j], "through: class and dimensions",
              got=t.dims)
    a = mp.SArray(S, dims=tuple(n.dims) + IJ)
    A = n.chain()
    A = chain_product(A)
    agree(ctx, sf.cascadeS(a, t), A, "a x through")
    agree(ctx, sf.cascadeS(t, a), A, "through x a")
    agree(ctx, sf.deembed(t, a, t), A, "de-embed throughs")
    k = ctx.choice(KINDS)
    x = n.array(ctx, k)
    agree(ctx, x.cascade(t), A, "%s.cascade(through)" % k, k)
    agree(ctx, x.deembed(t, t), A, "%s.deembed(through)" % k, k)
    m = ctx.randint(1, 4)
    u = mp.unit_matrix(m)
    ctx.equal(plain(u), np.eye(m, dtype=complex), "unit matrix")
    ctx.ev("neutral element")
    ctx.state(len(pool), k)


@PROP.family(quick=300)
def switching(ctx):
    """switch_correct(b, a) solves b = S a for every pair of excitations."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3)
    n, S = net(ctx, pool)
    m, W = net(ctx, pool)
    s = hfarray(S, dims=tuple(n.dims) + IJ)
    a = hfarray(gen.layout(ctx, W), dims=tuple(m.dims) + IJ)
    Sm, Am = Model.of(s), Model.of(a)
    Bm = chain_product(Sm, Am)
    if np.linalg.cond(W).max() > 1e4:
        raise Skip()
    b = hfarray(Bm.v, dims=tuple(dims_of(Bm.axes, pool)) + IJ)
    with Pure(ctx, a, b, what="switch_correct"):
        got = sf.switch_correct(b, a)
    want = Sm.at([x[:2] for x in Bm.axes], Bm.v.shape)
    ctx.close(like(ctx, got, b.dims, "switch_correct"), want,
              "switch correction", rtol=1e-8, atol=1e-8)
    ctx.ev("switch corrected")
    ctx.state(sig(s, a))
