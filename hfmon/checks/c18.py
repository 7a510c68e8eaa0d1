"""C18: passivity and reciprocity enforcement."""
import numpy as np

import hftools.networks.multiports as mp
from hftools.networks import spar_functions as sf
from hftools.dataset import hfarray, DimMatrix_i, DimMatrix_j
from hfmon import gen
from hfmon.core import Property, Skip
from hfmon.model import Pure, plain, descs, invariant

PROP = Property(
    "C18", "Random complex scattering data with passive and active points "
    "mixed (also points exactly on the boundary); per point the singular "
    "values / eigenvalues of input and output are computed independently and "
    "the closed form of the enforced matrix is compared. Distinct state = "
    "(function, ports, number of active points, sweep kinds, class).",
    ["make_passive_eig and check_passive take one sweep dimension"])


def sweep(ctx, n, nd, spread=None):
    dims = gen.dim_pool(ctx, nd, maxlen=5)
    dims = tuple(dims) + (gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n))
    shape = tuple(len(d.data) for d in dims)
    r = ctx.rng
    S = r.normal(size=shape) + 1j * r.normal(size=shape)
    # mix of passive and active points
    nrm = np.linalg.norm(S, 2, axis=(-1, -2))[..., None, None]
    S = S / nrm * r.uniform(.3, 1.8, nrm.shape)
    cls = ctx.choice([mp.SArray, hfarray])
    return S, dims, cls(gen.layout(ctx, S), dims=dims)


def frame(ctx, got, a, what):
    invariant(ctx, got, what)
    ctx.check(type(got) is type(a), "%s: class" % what, got=type(got))
    ctx.check(descs(got.dims) == descs(a.dims), "%s: dimensions" % what,
              got=got.dims, want=a.dims)
    return plain(got)


@PROP.family(quick=1500, floors=["active point", "passive point"])
def svd(ctx):
    n = ctx.randint(1, 4)
    S, dims, a = sweep(ctx, n, ctx.randint(0, 2))
    ctx.log("make_passive_svd", a.dims)
    with Pure(ctx, a, what="make_passive_svd"):
        got = frame(ctx, sf.make_passive_svd(a), a, "svd")
    act = 0
    for pt in np.ndindex(*S.shape[:-2]):
        u, s, v = np.linalg.svd(S[pt])
        if s[0] <= 1:
            ctx.equal(got[pt], S[pt], "passive point changed")
            ctx.ev("passive point")
            continue
        act += 1
        want = u @ np.diag(np.minimum(s, 1)) @ v
        top = np.linalg.norm(got[pt], 2)
        ctx.check(top <= 1 + 1e-12, "point not passive", got=top)
        # nearest passive matrix: within delta of the truncated one
        ctx.close(got[pt], want, "active point", rtol=0, atol=1e-5)
        ctx.ev("active point")
    ctx.state("svd", n, act, [type(d).__name__ for d in dims], type(a))


@PROP.family(quick=1500, floors=["active point", "passive point"])
def eig(ctx):
    n = ctx.randint(1, 4)
    S, dims, a = sweep(ctx, n, 1)
    delta = ctx.choice([None, 1e-6, 1e-3, 0.1, 0.0])
    ctx.log("make_passive_eig", a.dims, delta)
    with Pure(ctx, a, what="make_passive_eig"):
        got = sf.make_passive_eig(a) if delta is None else \
            sf.make_passive_eig(a, delta)
        got = frame(ctx, got, a, "eig")
        m = sf.check_passive(a)
    d = 1e-6 if delta is None else delta
    invariant(ctx, m, "check_passive")
    ctx.check(descs(m.dims) == descs(dims[:1]), "measure: dimensions",
              got=m.dims)
    act = 0
    for pt in range(len(S)):
        lam = np.abs(np.linalg.eigvals(S[pt])).max()
        ctx.close(plain(m)[pt], lam, "passivity measure", rtol=1e-9)
        if lam <= 1:
            ctx.equal(got[pt], S[pt], "passive point changed")
            ctx.ev("passive point")
            continue
        act += 1
        g = np.abs(np.linalg.eigvals(got[pt])).max()
        ctx.check(g <= 1 - d + 1e-9, "largest eigenvalue above 1 - delta",
                  got=g, delta=d)
        ctx.close(got[pt], S[pt] * ((1 - d) / lam), "active point not scaled "
                  "to 1 - delta", rtol=1e-9, atol=1e-12)
        ctx.ev("active point")
    ctx.state("eig", n, act, delta, type(a))


@PROP.family(quick=1500, floors=["reciprocal point", "other root"])
def reciprocal(ctx):
    nd = ctx.randint(0, 2)
    S, dims, a = sweep(ctx, 2, nd)
    if ctx.chance(.7):
        # nearly reciprocal, any phase
        r = ctx.rng
        sh = S.shape[:-2]
        S = S.copy()
        S[..., 0, 1] = S[..., 1, 0] * (1 + .2 * r.normal(size=sh) +
                                       .2j * r.normal(size=sh))
        a = type(a)(gen.layout(ctx, S), dims=dims)
    if np.abs(S[..., 0, 1]).min() < 1e-3 or np.abs(S[..., 1, 0]).min() < 1e-3:
        raise Skip()
    ctx.log("make_reciprocal", a.dims)
    with Pure(ctx, a, what="make_reciprocal"):
        got = frame(ctx, sf.make_reciprocal(a), a, "reciprocal")
    ctx.equal(got[..., 0, 0], S[..., 0, 0], "S11 changed")
    ctx.equal(got[..., 1, 1], S[..., 1, 1], "S22 changed")
    ctx.equal(got[..., 0, 1], got[..., 1, 0], "not reciprocal")
    t = got[..., 0, 1]
    ctx.close(t * t, S[..., 0, 1] * S[..., 1, 0], "product of transmissions",
              rtol=1e-9)
    ang = np.angle(t / S[..., 0, 1])
    ctx.check((np.abs(ang) <= np.pi / 2 + 1e-9).all(),
              "transmission on the other branch", got=ang)
    ctx.ev("reciprocal point", ang.size)
    p = np.sqrt(S[..., 0, 1] * S[..., 1, 0])
    ctx.ev("other root", int((np.abs(t + p) < np.abs(t - p)).sum()))
    ctx.state("reciprocal", [type(d).__name__ for d in dims], type(a),
              int((t.real < 0).sum()))
