"""C10: stacked linear algebra equals per-point linear algebra."""
import numpy as np

import hftools.math as hm
from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j
from hftools.dataset.arrayobj import make_same_dims
from hfmon import gen
from hfmon.core import Property, Skip
from hfmon.model import Model, Pure, plain, desc, descs, union_axes, invariant

PROP = Property(
    "C10", "Stacks of random (square and rectangular, real/complex) matrices "
    "over subsets of shared sweep dimensions in any axis order and layout; "
    "each result is compared at every combination of sweep coordinates with "
    "a naive triple loop / defining equation evaluated on the two matrices at "
    "those coordinates. Distinct state = (operation, sweep keys of operands, "
    "matrix sizes).",
    ["inverted matrices have condition number below 1e4"])


def mats(ctx, pool, n, k, kind="complex", shuffle=.5, wellcond=False):
    d = ctx.sample(pool, ctx.randint(0, len(pool)))
    dims = list(d) + [gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, k)]
    if ctx.chance(shuffle):
        dims = ctx.shuffled(dims)
    shape = tuple(len(x.data) for x in dims)
    v = ctx.rng.normal(size=shape)
    if kind == "complex":
        v = v + 1j * ctx.rng.normal(size=shape)
    a = hfarray(gen.layout(ctx, v), dims=tuple(dims),
                copy=ctx.chance(.5))
    return a


def at(m, keys, point):
    """The matrix of model m at a point of the sweep keys, as (row, col)."""
    idx = []
    for x in m.axes:
        if x[0] in ("DimMatrix_i", "DimMatrix_j"):
            idx.append(slice(None))
        else:
            idx.append(point[keys.index(x[:2])])
    v = m.v[tuple(idx)]
    ks = [x[0] for x in m.axes if x[0].startswith("DimMatrix")]
    if ks == ["DimMatrix_j", "DimMatrix_i"]:
        v = v.T
    return v


def sweeps(*ms):
    ax = union_axes(*[m.axes for m in ms])
    ax = [x for x in ax if not x[0].startswith("DimMatrix")]
    return ax, [x[:2] for x in ax], tuple(len(x[2]) for x in ax)


def check_dims(ctx, got, axes, shape, what, order=True):
    invariant(ctx, got, what)
    g = descs(got.dims)
    sw = [x for x in g if not x[0].startswith("DimMatrix")]
    if order:
        ctx.check(sw == axes, "%s: sweep dimensions" % what, got=sw,
                  want=axes)
    else:
        ctx.check(sorted(map(repr, sw)) == sorted(map(repr, axes)),
                  "%s: sweep dimensions" % what, got=sw, want=axes)
    mt = [(x[0], len(x[2])) for x in g if x[0].startswith("DimMatrix")]
    ctx.check(sorted(mt) == sorted(shape), "%s: matrix dimensions" % what,
              got=mt, want=shape)
    return Model.of(got)


@PROP.family(quick=4000, floors=["product point"])
def product(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3)
    n, k, p = [ctx.randint(1, 3) for _ in range(3)]
    if ctx.chance(.5):
        n = k = p = ctx.choice([2, 3])
    a = mats(ctx, pool, n, k, ctx.choice(["real", "complex"]))
    b = mats(ctx, pool, k, p, ctx.choice(["real", "complex"]))
    ctx.log(a.dims, b.dims)
    with Pure(ctx, a, b, what="matrix_multiply"):
        got = hm.matrix_multiply(a, b)
    A, B = Model.of(a), Model.of(b)
    axes, keys, shp = sweeps(A, B)
    G = check_dims(ctx, got, axes, [("DimMatrix_i", n), ("DimMatrix_j", p)],
                   "product")
    for pt in np.ndindex(*shp):
        x, y, z = at(A, keys, pt), at(B, keys, pt), at(G, keys, pt)
        w = np.array([[sum(x[r, q] * y[q, c] for q in range(k))
                       for c in range(p)] for r in range(n)])
        ctx.close(z, w, "product at %r" % (pt,), rtol=1e-9, atol=1e-12)
        ctx.ev("product point")
    ctx.state([d.name for d in a.dims], [d.name for d in b.dims], n, k, p)


@PROP.family(quick=2500, floors=["inverse point", "determinant point"])
def inverse(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 3), maxlen=3)
    n = ctx.randint(1, 4)
    a = mats(ctx, pool, n, n, ctx.choice(["real", "complex"]))
    A = Model.of(a)
    axes, keys, shp = sweeps(A)
    for pt in np.ndindex(*shp):
        if np.linalg.cond(at(A, keys, pt)) > 1e4:
            raise Skip()
    ctx.log(a.dims)
    with Pure(ctx, a, what="inv/det"):
        got = hm.inv(a)
        det = hm.det(a)
    own = [x for x in A.axes if not x[0].startswith("DimMatrix")]
    G = check_dims(ctx, got, own, [("DimMatrix_i", n), ("DimMatrix_j", n)],
                   "inverse", order=False)
    D = check_dims(ctx, det, own, [], "determinant", order=False)
    for pt in np.ndindex(*shp):
        x, z = at(A, keys, pt), at(G, keys, pt)
        ctx.close(x @ z, np.eye(n), "inverse at %r" % (pt,), atol=1e-9)
        ctx.close(z @ x, np.eye(n), "inverse at %r" % (pt,), atol=1e-9)
        ctx.ev("inverse point")
        ctx.close(at(D, keys, pt), laplace(x), "determinant at %r" % (pt,),
                  rtol=1e-9, atol=1e-10)
        ctx.ev("determinant point")
    ctx.state([d.name for d in a.dims], n, a.shape)


def laplace(x):
    n = len(x)
    if n == 1:
        return x[0, 0]
    return sum((-1) ** c * x[0, c] *
               laplace(np.delete(np.delete(x, 0, 0), c, 1))
               for c in range(n))


@PROP.family(quick=2500, floors=["solution point"])
def solve(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 3), minlen=2, maxlen=3)
    n, k = ctx.randint(2, 3), ctx.randint(1, 3)
    a = mats(ctx, pool, n, n, ctx.choice(["real", "complex"]))
    b = mats(ctx, pool, n, k, ctx.choice(["real", "complex"]))
    A, B = Model.of(a), Model.of(b)
    axes, keys, shp = sweeps(A, B)
    for pt in np.ndindex(*shp):
        if np.linalg.cond(at(A, keys, pt)) > 1e4:
            raise Skip()
    sq = ctx.chance(.5)
    ctx.log(a.dims, b.dims, "squeeze", sq)
    with Pure(ctx, a, b, what="solve_Ab"):
        got = hm.solve_Ab(a, b, squeeze=sq)
    mshape = [("DimMatrix_i", n), ("DimMatrix_j", k)]
    if sq:
        mshape = [x for x in mshape if x[1] != 1]
    G = check_dims(ctx, got, axes, mshape, "solution")
    for pt in np.ndindex(*shp):
        x, y, z = at(A, keys, pt), at(B, keys, pt), at(G, keys, pt)
        z = z.reshape(n, k)
        ctx.close(x @ z, y, "A x = b at %r" % (pt,), rtol=1e-8, atol=1e-8)
        ctx.ev("solution point")
    ctx.state([d.name for d in a.dims], [d.name for d in b.dims], n, k, sq)


@PROP.family(quick=1200, floors=["vector solution"])
def solve_vector(ctx):
    """Right hand side given as a column (row axis only)."""
    pool = gen.dim_pool(ctx, ctx.randint(0, 2), minlen=2, maxlen=3)
    n = ctx.randint(2, 3)
    a = mats(ctx, pool, n, n)
    dims = ctx.shuffled(ctx.sample(pool, ctx.randint(0, len(pool))) +
                        [gen.mdim(ctx, DimMatrix_i, n)])
    b = gen.array(ctx, dims, "complex")
    A, B = Model.of(a), Model.of(b)
    axes, keys, shp = sweeps(A, B)
    for pt in np.ndindex(*shp):
        if np.linalg.cond(at(A, keys, pt)) > 1e4:
            raise Skip()
    with Pure(ctx, a, b, what="solve_Ab"):
        got = hm.solve_Ab(a, b)
    G = check_dims(ctx, got, axes, [("DimMatrix_i", n)], "solution")
    for pt in np.ndindex(*shp):
        ctx.close(at(A, keys, pt) @ at(G, keys, pt), at(B, keys, pt),
                  "A x = b at %r" % (pt,), rtol=1e-8, atol=1e-8)
        ctx.ev("vector solution")
    ctx.state([d.name for d in a.dims], [d.name for d in b.dims], n)


@PROP.family(quick=1200, floors=["least squares point"])
def least_squares(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 2), minlen=1, maxlen=3)
    n = ctx.randint(1, 3)
    m = n + ctx.randint(0, 3)
    k = ctx.randint(1, 2)
    kind = ctx.choice(["real", "complex"])
    a = mats(ctx, pool, m, n, kind)
    if ctx.chance(.3):
        kind = ctx.choice(["real", "complex"])
    b = mats(ctx, pool, m, k, kind)
    A, B = Model.of(a), Model.of(b)
    axes, keys, shp = sweeps(A, B)
    for pt in np.ndindex(*shp):
        if np.linalg.cond(at(A, keys, pt)) > 1e3:
            raise Skip()
    ctx.log(a.dims, b.dims)
    with Pure(ctx, a, b, what="lstsq"):
        got = hm.lstsq(a, b)
    G = check_dims(ctx, got, axes, [("DimMatrix_i", n), ("DimMatrix_j", k)],
                   "least squares")
    for pt in np.ndindex(*shp):
        x, y, z = at(A, keys, pt), at(B, keys, pt), at(G, keys, pt)
        ctx.close(x.conj().T @ (x @ z - y), np.zeros((n, k)),
                  "normal equations at %r" % (pt,), atol=1e-8)
        ctx.ev("least squares point")
    ctx.state([d.name for d in a.dims], [d.name for d in b.dims], m, n, k)


@PROP.family(quick=1500, floors=["pair yielded"])
def broadcasting(ctx):
    """broadcast_matrices pairs up the matrices of equal coordinates."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 3), maxlen=3)
    n, k = ctx.randint(1, 3), ctx.randint(1, 3)
    a, b = mats(ctx, pool, n, k), mats(ctx, pool, n, k)
    A, B = Model.of(a), Model.of(b)
    axes, keys, shp = sweeps(A, B)
    bm = hm.broadcast_matrices((a, b))
    ctx.check(bm.outershape == shp, "outer shape", got=bm.outershape,
              want=shp)
    pts = list(np.ndindex(*shp))
    got = [(np.array(plain(x)), np.array(plain(y))) for x, y in bm]
    ctx.check(len(got) == len(pts), "number of matrix pairs", got=len(got),
              want=len(pts))
    for pt, (x, y) in zip(pts, got):
        ctx.equal(x, at(A, keys, pt), "left matrix at %r" % (pt,))
        ctx.equal(y, at(B, keys, pt), "right matrix at %r" % (pt,))
        ctx.ev("pair yielded")
    ctx.state([d.name for d in a.dims], [d.name for d in b.dims], n, k)
