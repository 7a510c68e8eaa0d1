"""C17: noise data describe the same noisy two-port in every representation."""
import numpy as np

import hftools.networks.multiports as mp
from hftools.networks import noise
from hftools.constants import k as kB
from hftools.dataset import hfarray, DataBlock, DimSweep, DimRep, \
    DimMatrix_i, DimMatrix_j
from hfmon import gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, descs, invariant, like
from hfmon.netoracle import basis, params

PROP = Property(
    "C17", "Random physical noise parameters (and random passive two-ports at "
    "random temperatures) over 0-3 sweep dimensions; pushed through random "
    "chains of representations. After every step the extracted parameters are "
    "compared with the originals and the correlation matrix with the noise "
    "factor F(Ys) evaluated for random source admittances from first "
    "principles. Distinct state = (conversion step, sweep kinds).",
    ["4 Rn Re(Yopt) >= Fmin - 1 > 0, Rn > 0; representations visited have "
     "condition number below 1e3"])

CLS = {"Z": mp.ZArray, "Y": mp.YArray, "S": mp.SArray, "G": mp.GArray,
       "H": mp.HArray, "ABCD": mp.ABCDArray, "T": mp.TArray,
       "Tp": mp.TpArray}
KINDS = sorted(CLS)
IJ = (DimMatrix_i("i", 2), DimMatrix_j("j", 2))
T0 = 290.0
KB = 1.380649e-23


def boltzmann(ctx):
    """Any CODATA value of Boltzmann's constant."""
    ctx.check(abs(kB / KB - 1) < 1e-5, "Boltzmann constant", got=kB)


def F(Fmin, Rn, Yopt, Ys):
    return Fmin + Rn / Ys.real * np.abs(Ys - Yopt) ** 2


def two_port(ctx, dims, passive=False):
    shape = tuple(len(d.data) for d in dims) + (2, 2)
    S = (ctx.rng.normal(size=shape) + 1j * ctx.rng.normal(size=shape)) * .35
    if passive:
        s = np.linalg.norm(S, 2, axis=(-1, -2))[..., None, None]
        S = S / np.maximum(s * ctx.rng.uniform(1.05, 2, s.shape), 1.01)
    if np.abs(S[..., 1, 0]).min() < .1 or np.abs(S[..., 0, 1]).min() < .02:
        raise Skip()
    return S, basis("S", S, 50.)


def conds(B, k):
    return params(k, B)[1]


def good(ctx, B):
    return [k for k in KINDS if conds(B, k) < 3e3]


def noise_params(ctx, dims):
    sh = tuple(len(d.data) for d in dims)
    r = ctx.rng
    wide = ctx.chance(.3)           # nearly noiseless, nearly correlated
    G = r.uniform(*((.0, .95) if wide else (.05, .8)), size=sh) * \
        np.exp(2j * np.pi * r.random(sh))
    Yopt = (1 - G) / (1 + G) / 50
    Rn = 10 ** r.uniform(*((-1, 3.5) if wide else (.5, 2.5)), size=sh)
    Fmin = 1 + 4 * Rn * Yopt.real * r.uniform(
        *((.02, .999) if wide else (.1, .95)), size=sh)
    return Fmin, Rn, G, Yopt


def hermitian(ctx, C, dims, what):
    invariant(ctx, C, what)
    v = like(ctx, C, tuple(dims) + IJ, what)
    d = v - np.conj(np.swapaxes(v, -1, -2))
    s = np.abs(v).max(axis=(-1, -2), keepdims=True)
    ctx.check((np.abs(d) <= 1e-7 * s).all(), "%s: not Hermitian" % what,
              got=v)
    ctx.ev("Hermitian")
    return v


def compare(ctx, p, want, dims, what, tol=1e-6):
    for nm, w in want.items():
        g = p[nm]
        invariant(ctx, g, what)
        ctx.close(like(ctx, g, dims, what), w, "%s: %s" % (what, nm),
                  rtol=tol, atol=tol * (np.abs(w).max() if w.size else 0))
    ctx.ev("noise parameters compared")


def C_of(B, ca, kind):
    """Correlation matrix of representation *kind* for chain noise ca.

    The noise sources of a representation are what must be added to its
    dependent quantities; the affine space of port vectors is the same, so the
    sources are the residual dep - A ind of a port vector of the noisy
    network.  (V, I) = (e, i) at port 1 with port 2 at rest belongs to it."""
    from hfmon.netoracle import maps
    dep, ind = maps(kind, 2)
    A, _ = params(kind, B)
    # port vectors (V1, V2, I1, I2) = (e, 0, i, 0)
    M = np.zeros((4, 2))
    M[0, 0] = M[2, 1] = 1
    T = dep @ M - A @ (ind @ M)
    return T @ ca @ np.conj(np.swapaxes(T, -1, -2))


def chain_noise(Fmin, Rn, Yopt):
    c12 = (Fmin - 1) / 2 - Rn * np.conj(Yopt)
    ca = np.empty(np.shape(Rn) + (2, 2), complex)
    ca[..., 0, 0] = Rn
    ca[..., 0, 1] = c12
    ca[..., 1, 0] = np.conj(c12)
    ca[..., 1, 1] = Rn * np.abs(Yopt) ** 2
    return 4 * KB * T0 * ca


def same_matrix(ctx, got, want, what, tol=1e-6):
    s = np.sqrt(np.abs(np.einsum("...ii->...i", want)))
    s = s[..., :, None] * s[..., None, :]
    ctx.check((np.abs(got - want) <= tol * s).all(),
              "%s: correlation matrix" % what, got=got, want=want)
    ctx.ev("correlation matrix compared")


def start(ctx):
    dims = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3,
                        classes=[DimSweep, DimSweep, DimRep])
    S, B = two_port(ctx, dims)
    par = noise_params(ctx, dims)
    order = lambda: tuple(ctx.shuffled(dims)) if ctx.chance(.3) \
        else tuple(dims)

    def put(v):
        o = order()
        ix = [dims.index(d) for d in o]
        return hfarray(gen.layout(ctx, v.transpose(ix)), dims=o)
    db = DataBlock()
    Sv = mp.SArray if ctx.chance(.5) else hfarray
    db.S = Sv(gen.layout(ctx, S), dims=tuple(dims) + IJ)
    db.Fmin, db.Rn, db.Gopt = [put(v) for v in par[:3]]
    return dims, S, B, par, db


@PROP.family(quick=1200, floors=["noise parameters compared",
                                 "correlation matrix compared", "Hermitian"])
def representations(ctx):
    dims, S, B, (Fmin, Rn, G, Yopt), db = start(ctx)
    boltzmann(ctx)
    ks = good(ctx, B)
    if "ABCD" not in ks or "Y" not in ks:
        raise Skip()
    ctx.log("S", db.S.dims, "Rn", db.Rn.dims)
    parts = [db.S.copy(), db.Fmin.copy(), db.Rn.copy(), db.Gopt.copy()]
    N = noise.from_noisepar(db)
    for nm, o in zip(["S", "Fmin", "Rn", "Gopt"], parts):
        ctx.equal(plain(db[nm]), plain(o), "from_noisepar changed %s" % nm)
    want = dict(Fmin=Fmin, Rn=Rn, Gopt=G, Yopt=Yopt, S=S)
    ca = chain_noise(Fmin, Rn, Yopt)
    odims = tuple(dims)

    def watch(N, what):
        k = [q for q in CLS if type(N.N) is CLS[q]][0]
        v = hermitian(ctx, N.C, dims, what)
        same_matrix(ctx, v, C_of(B, ca, k), what, 1e-5)
        p = N.noise_parameters()
        got = dict((nm, w) for nm, w in want.items() if nm != "S")
        compare(ctx, p, got, odims, what, 1e-5)
        if k == "ABCD":
            CA = N.noise_parameters(partial=True).CA
            same_matrix(ctx, like(ctx, CA, odims + IJ, what),
                        C_of(B, ca, k) / (2 * KB * T0), what + ": CA", 1e-5)
        else:
            # uncorrelated part of the input noise current, and the
            # correlation admittance
            Yc = (Fmin - 1) / 2 / Rn - Yopt
            compare(ctx, p, dict(Ycor=Yc), odims, what, 1e-4)
            ctx.check((np.abs(like(ctx, p.Gn, odims, what) - Rn * (
                np.abs(Yopt) ** 2 - np.abs(Yc) ** 2)) <= 1e-4 * Rn *
                np.abs(Yopt) ** 2).all(), what + ": Gn", got=p.Gn)
            same_matrix(ctx, like(ctx, p.CY, odims + IJ, what),
                        C_of(B, ca, "Y") / (4 * KB * T0), what + ": CY",
                        1e-5)
        ctx.close(like(ctx, p.S, odims + IJ, what), S, what + ": S",
                  rtol=1e-6, atol=1e-6)
        # any source
        Ys = 10 ** ctx.rng.uniform(-3, -1) * (1 + 1j * ctx.rng.normal())
        f = [F(like(ctx, p.Fmin, odims), like(ctx, p.Rn, odims),
               like(ctx, p.Yopt, odims), Ys), F(Fmin, Rn, Yopt, Ys)]
        ctx.close(f[0], f[1], what + ": noise factor", rtol=1e-5)
    watch(N, "from_noisepar")
    path = ["ABCD"]
    for _ in range(ctx.randint(1, 4)):
        k = ctx.choice(ks)
        path.append(k)
        ctx.log("->", k)
        with Pure(ctx, N.N, N.C, what="noise conversion"):
            if ctx.chance(.2):
                M, T = N.convert(CLS[k], Tout=True)
                T2 = N.T(CLS[k])
                ctx.equal(plain(T), plain(T2), "transformation")
                t = like(ctx, T, odims + IJ, "T")
                c = like(ctx, N.C, odims + IJ, "C")
                same_matrix(ctx, t @ c @ np.conj(np.swapaxes(t, -1, -2)),
                            like(ctx, M.C, odims + IJ, "C"), "T C T'", 1e-6)
            else:
                M = N.convert(CLS[k])
        ctx.check(type(M.N) is CLS[k], "conversion: class", got=type(M.N))
        watch(M, "->".join(path))
        ctx.state(path[-2:], [type(d).__name__ for d in dims])
        N = M


@PROP.family(quick=1200, floors=["passive noise factor"])
def passive(ctx):
    """Thermal noise of a passive two-port: F = 1 + T/T0 (1/Ga - 1)."""
    dims = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3,
                        classes=[DimSweep, DimSweep, DimRep])
    S, B = two_port(ctx, dims, passive=True)
    ks = [k for k in good(ctx, B) if k in "YZS"]
    if not ks or conds(B, "Y") > 3e3 or conds(B, "ABCD") > 3e3:
        raise Skip()
    k = ctx.choice(ks)
    T = ctx.choice([None, 290, 290.0, 77.0, .015, 1, float(ctx.rng.uniform(4, 1000))])
    A = params(k, B)[0]
    N = CLS[k](gen.layout(ctx, A), dims=tuple(dims) + IJ)
    ctx.log(k, N.dims, "T", T)
    with Pure(ctx, N, what="passive_noise"):
        P = noise.passive_noise(N) if T is None else \
            noise.passive_noise(N, T)
    Tn = 290. if T is None else float(T)
    hermitian(ctx, P.C, dims, "passive")
    to = ctx.choice([x for x in good(ctx, B)])
    ctx.log("->", to)
    if ctx.chance(.7):
        P = P.convert(CLS[to])
        hermitian(ctx, P.C, dims, "passive " + to)
    p = P.noise_parameters()
    Fm, Rn, Yo = [like(ctx, p[n], tuple(dims), n)
                  for n in ("Fmin", "Rn", "Yopt")]
    for _ in range(5):
        Ys = 10 ** ctx.rng.uniform(-2.5, -1) * (1 + 1j * ctx.rng.normal())
        gs = (1 / 50. - Ys) / (1 / 50. + Ys)
        s11, s12, s21, s22 = S[..., 0, 0], S[..., 0, 1], S[..., 1, 0], \
            S[..., 1, 1]
        gout = s22 + s12 * s21 * gs / (1 - s11 * gs)
        Ga = (1 - abs(gs) ** 2) / abs(1 - s11 * gs) ** 2 * abs(s21) ** 2 / \
            (1 - abs(gout) ** 2)
        want = 1 + Tn / T0 * (1 / Ga - 1)
        ctx.close(F(Fm, Rn, Yo, Ys), want, "noise factor of a passive "
                  "two-port", rtol=1e-5)
        ctx.ev("passive noise factor")
    ctx.state(k, to, T is None, [type(d).__name__ for d in dims])


@PROP.family(quick=300)
def conjugate(ctx):
    """Hconj is the Hermitian conjugate at every sweep point."""
    dims = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3)
    n = ctx.randint(1, 3)
    full = tuple(ctx.shuffled(list(dims))) + \
        (gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n))
    a = gen.array(ctx, full, ctx.choice(["complex", "complex", "float"]))
    with Pure(ctx, a, what="Hconj"):
        h = noise.Hconj(a)
    invariant(ctx, h, "Hconj")
    ctx.check(descs(h.dims[:-2]) == descs(a.dims[:-2]) and
              isinstance(h.dims[-2], DimMatrix_i) and
              isinstance(h.dims[-1], DimMatrix_j) and
              list(h.dims[-2].data) == list(a.dims[-1].data) and
              list(h.dims[-1].data) == list(a.dims[-2].data),
              "Hconj: dimensions", got=h.dims, a=a.dims)
    ctx.equal(plain(h), np.conj(np.swapaxes(plain(a), -1, -2)), "Hconj")
    ctx.ev("conjugate")
    ctx.state(n, [type(d).__name__ for d in dims])


@PROP.family(quick=800, floors=["conjugate transpose"])
def adjoint(ctx):
    """Hconj wherever the matrix dimensions are"""
    dims = gen.dim_pool(ctx, ctx.randint(0, 2), maxlen=3)
    n = ctx.randint(1, 4)
    ij = [DimMatrix_i("i", n), DimMatrix_j("j", n)]
    a = gen.array(ctx, dims + ij, ctx.choice(["complex", "complex", "float"]))
    last = ctx.chance(.5)
    if not last:
        a = a.reorder_dimensions(*ctx.shuffled(list(a.dims)))
    with Pure(ctx, a, what="Hconj"):
        h = noise.Hconj(a)
    ctx.check([(type(d), d.name) for d in h.dims] ==
              [(type(d), d.name) for d in a.dims], "dims", got=h.dims)
    i, j = a.dims_index("i"), a.dims_index("j")
    ctx.equal(plain(h), np.swapaxes(plain(a), i, j).conj(),
              "conjugate transpose")
    ctx.ev("conjugate transpose")
    ctx.state("hconj", n, i, j)


@PROP.family(quick=100)
def refusal(ctx):
    """Only Y, Z and S of a passive two-port give its noise directly."""
    dims = gen.dim_pool(ctx, ctx.randint(0, 1), maxlen=3)
    S, B = two_port(ctx, dims, True)
    k = ctx.choice([x for x in KINDS if x not in "YZS"])
    A, c = params(k, B)
    if c > 1e4:
        raise Skip()
    N = CLS[k](A, dims=tuple(dims) + IJ)
    ctx.raises(Exception, lambda: noise.passive_noise(N),
               "passive_noise of %s" % k)
    ctx.ev("refused")
    ctx.state(k)
