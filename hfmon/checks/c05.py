"""C05: restructuring moves values without altering or losing any."""
import itertools

import numpy as np

import hftools.math as hm
from hftools.dataset import hfarray, DimSweep, DimRep, DimMatrix_i, \
    DimMatrix_j
from hftools.dataset import arrayobj as ao
from hfmon import gen
from hfmon.core import Property
from hfmon.model import Model, Pure, same, m_transpose, m_select, plain, \
    desc, union_axes, invariant, descs

PROP = Property(
    "C05", "Every restructuring operation on arrays of 1-5 axes in any kind "
    "order and memory layout, with unique values, is compared with explicit "
    "index arithmetic; for results sharing memory the addressed byte range is "
    "monitored to lie inside the operand's. Distinct state = (operation, "
    "kinds, shape).")


def arr(ctx, lo=1, hi=4, classes=None, matrix=.3, kind=None):
    pool = gen.dim_pool(ctx, ctx.randint(lo, hi), classes=classes,
                        matrix=matrix)
    return gen.array(ctx, ctx.shuffled(pool),
                     kind or ctx.choice(["float", "complex", "int", "float",
                                         "complex", "bool", "float32"]),
                     unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS))


def bounds(ctx, res, src, what):
    """Memory monitor: bytes addressed by res lie inside src."""
    if not isinstance(res, np.ndarray) or not res.size or not src.size:
        return
    lo, hi = np.byte_bounds(np.ndarray.view(src, np.ndarray))
    a, b = np.byte_bounds(np.ndarray.view(res, np.ndarray))
    if np.may_share_memory(res, src):
        ctx.check(lo <= a and b <= hi, "%s addresses memory outside its "
                  "operand" % what, res=(a, b), src=(lo, hi))
        ctx.ev("memory range checked")


def meta(ctx, got, a, what):
    ctx.check(got.dtype == a.dtype, "%s changed the data type" % what,
              got=got.dtype, want=a.dtype)
    ctx.check(got.unit == a.unit, "%s lost the unit" % what, got=got.unit,
              want=a.unit)
    ctx.check(got.outputformat == a.outputformat, "%s lost the format" % what,
              got=got.outputformat, want=a.outputformat)


@PROP.family(quick=2500, floors=["transposed", "memory range checked"])
def transposing(ctx):
    a = arr(ctx)
    m = Model.of(a)
    o = [int(i) for i in ctx.rng.permutation(a.ndim)]
    what = ctx.choice(["transpose", "T", "reorder", "reorder"])
    with Pure(ctx, a, what=what):
        if what == "transpose":
            got, want = a.transpose(*o), m_transpose(m, o)
        elif what == "T":
            got, want = a.T, m_transpose(m, list(range(a.ndim))[::-1])
        else:
            k = ctx.randint(0, a.ndim)
            got = a.reorder_dimensions(*[a.dims[i] for i in o[:k]])
            want = m_transpose(m, o[:k] + [i for i in range(a.ndim)
                                           if i not in o[:k]])
    same(ctx, got, want, what)
    meta(ctx, got, a, what)
    bounds(ctx, got, a, what)
    ctx.ev("transposed")
    ctx.state(what, o, a.shape)


@PROP.family(quick=1200, floors=["matrix transposed"])
def matrix_t(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 2)) + [
        gen.mdim(ctx, DimMatrix_i, ctx.randint(1, 3)),
        gen.mdim(ctx, DimMatrix_j, ctx.randint(1, 3))]
    a = gen.array(ctx, ctx.shuffled(pool) if ctx.chance(.5) else pool,
                  "complex", unit="S", fmt="%.3f")
    m = Model.of(a)
    with Pure(ctx, a, what="t"):
        got = a.t
    ki = [k for k, x in enumerate(m.axes) if x[0] == "DimMatrix_i"][0]
    kj = [k for k, x in enumerate(m.axes) if x[0] == "DimMatrix_j"][0]
    invariant(ctx, got, "t")
    ctx.check([x[:2] for x in descs(got.dims)] == m.keys(),
              "t moved the axes", got=got.dims)
    ctx.equal(plain(got), m.v.swapaxes(ki, kj), "matrix transpose")
    for k, x in enumerate(m.axes):
        if k not in (ki, kj):
            ctx.check(desc(got.dims[k]) == x, "t changed a sweep dimension")
    ctx.check(list(got.dims[ki].data) == list(a.dims[kj].data) and
              list(got.dims[kj].data) == list(a.dims[ki].data),
              "t: rows and columns numbered wrongly", got=got.dims, a=a.dims)
    meta(ctx, got, a, "t")
    ctx.equal(plain(got.t), m.v, "t twice")
    b = gen.array(ctx, gen.dim_pool(ctx, 2), "float")
    ctx.equal(plain(b.t), plain(b), "t of an array without matrix axes")
    ctx.ev("matrix transposed")
    ctx.state(ki, kj, a.shape)


@PROP.family(quick=2000, floors=["dimension added"])
def add_dim(ctx):
    a = arr(ctx, lo=0)
    m = Model.of(a)
    free = [n for n in gen.NAMES if n not in [d.name for d in a.dims]]
    d = ctx.choice([DimSweep, DimRep])(ctx.choice(free),
                                       gen.coords(ctx, ctx.choice(
                                           [1, 1, 2, 2, 3, 3, 0])),
                                       unit=ctx.choice(gen.UNITS))
    i = ctx.randint(0, a.ndim + 1)
    ctx.log("add_dim", d, i, a.dims)
    with Pure(ctx, a, what="add_dim"):
        got = a.add_dim(d, i) if ctx.chance(.8) or i else a.add_dim(d)
    k = min(i, a.ndim)
    n = len(d.data)
    want = Model(np.repeat(np.expand_dims(m.v, k), n, axis=k),
                 m.axes[:k] + [desc(d)] + m.axes[k:])
    same(ctx, got, want, "add_dim")
    if a.ndim:
        e = ctx.choice(a.dims)
        same(ctx, a.add_dim(e, 0), m, "add_dim of a present dimension")
    same(ctx, a.add_dim(None), m, "add_dim(None)")
    ctx.ev("dimension added")
    ctx.state(i, n, a.shape)


@PROP.family(quick=1500, floors=["taken"])
def take(ctx):
    a = arr(ctx)
    m = Model.of(a)
    i = ctx.randint(0, a.ndim - 1)
    n = a.shape[i]
    sel = [ctx.randint(-n, n - 1) for _ in range(ctx.randint(1, 4))]
    arg = ctx.choice([list(sel), np.array(sel), tuple(sel)])
    with Pure(ctx, a, what="take"):
        got = a.take(arg, axis=ctx.choice([i, a.dims[i].name, a.dims[i]]))
    want = m_select(m, [[s % n for s in sel] if k == i else list(range(z))
                        for k, z in enumerate(a.shape)])
    same(ctx, got, want, "take")
    ctx.check(got.dtype == a.dtype, "take changed the data type")
    # points outside the axis: refused, or clipped or wrapped on request
    far = sel + [ctx.choice([n, n + 1, -n - 1])]
    ctx.raises(IndexError, lambda: a.take(far, axis=i),
               "take outside the axis accepted")
    mode = ctx.choice(["clip", "wrap"])
    pos = [min(max(s, 0), n - 1) if mode == "clip" else s % n for s in far]
    same(ctx, a.take(far, axis=i, mode=mode),
         m_select(m, [pos if k == i else list(range(z))
                      for k, z in enumerate(a.shape)]), "take " + mode)
    s = ctx.randint(-n, n - 1)
    got = a.take(s, axis=a.dims[i].name)
    same(ctx, got, m_select(m, [s % n if k == i else list(range(z))
                                for k, z in enumerate(a.shape)]),
         "take one point")
    flat = a.take([s % a.size for s in sel])
    invariant(ctx, flat, "take from the flattened array")
    flat = plain(flat)
    ctx.equal(flat, m.v.reshape(-1)[[s % a.size for s in sel]],
              "take from the flattened array")
    ctx.ev("taken")
    ctx.state(i, len(sel), a.shape)


@PROP.family(quick=2500, floors=["repetitions collapsed", "none to collapse"])
def remove_rep(ctx):
    a = arr(ctx, classes=[DimSweep, DimRep, DimRep])
    m = Model.of(a)
    rep = [i for i, x in enumerate(m.axes) if x[0] == "DimRep"]
    nm = ctx.choice(["AllReps", "all"])
    with Pure(ctx, a, what="remove_rep"):
        got = ao.remove_rep(a) if nm == "AllReps" else ao.remove_rep(a, nm)
    if not rep:
        same(ctx, got, m, "remove_rep without repetitions")
        ctx.ev("none to collapse")
        return
    first = rep[0]
    rest = [i for i in range(a.ndim) if i not in rep]
    before = [i for i in rest if i < first]
    after = [i for i in rest if i > first]
    v = np.transpose(m.v, before + rep + after)
    size = int(np.prod([a.shape[i] for i in rep]))
    v = v.reshape([a.shape[i] for i in before] + [size] +
                  [a.shape[i] for i in after])
    invariant(ctx, got, "remove_rep")
    ctx.check(got.dims[first].name == nm and
              isinstance(got.dims[first], DimRep), "collapsed dimension",
              got=got.dims)
    wd = [m.axes[i] for i in before] + [desc(got.dims[first])] + \
        [m.axes[i] for i in after]
    same(ctx, got, Model(v, wd), "remove_rep")
    ctx.ev("repetitions collapsed")
    ctx.state(rep, a.shape)


@PROP.family(quick=1200, floors=["tail collapsed"])
def remove_tail(ctx):
    mat = ctx.chance(.4)
    pool = gen.dim_pool(ctx, ctx.randint(1, 4))
    if mat:
        pool = pool + [gen.mdim(ctx, DimMatrix_i, ctx.randint(1, 3)),
                       gen.mdim(ctx, DimMatrix_j, ctx.randint(1, 3))]
    a = gen.array(ctx, pool, "complex", unit="A")
    m = Model.of(a)
    with Pure(ctx, a, what="remove_tail"):
        got = ao.remove_tail(a)
    k = a.ndim - 2 if mat else a.ndim
    invariant(ctx, got, "remove_tail")
    ctx.check(desc(got.dims[0]) == m.axes[0], "first dimension changed")
    if mat:
        ctx.check(descs(got.dims[-2:]) == m.axes[-2:], "matrix dimensions "
                  "changed")
    ctx.check(got.ndim == (4 if mat else 2), "number of dims", got=got.dims)
    for n, idx in enumerate(np.ndindex(*a.shape[1:k])):
        ctx.equal(plain(got)[:, n], m.v[(slice(None),) + idx],
                  "tail element %d" % n)
    ctx.check(got.shape[1] == int(np.prod(a.shape[1:k], dtype=int)),
              "tail length")
    ctx.check(got.unit == a.unit, "remove_tail lost the unit")
    ctx.ev("tail collapsed")
    ctx.state(mat, a.shape)


@PROP.family(quick=2500, floors=["brought to common dims"])
def common_dims(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(1, 4), matrix=.3)
    arrs = [gen.array(ctx, ctx.sample(pool, ctx.randint(0, len(pool))),
                      ctx.choice(["float", "complex"]))
            for _ in range(ctx.randint(2, 4))]
    ms = [Model.of(a) for a in arrs]
    ctx.log([a.dims for a in arrs])
    with Pure(ctx, *arrs, what="make_same_dims"):
        if len(arrs) == 2 and ctx.chance(.5):
            out = ao.make_same_dims(*arrs)
        else:
            out = ao.make_same_dims_list(arrs)
        un = ao.dims_union(*arrs)
    axes = union_axes(*[m.axes for m in ms])
    ctx.check(descs(un) == axes, "union of dimensions", got=un, want=axes)
    keys = [x[:2] for x in axes]
    for a, m, o in zip(arrs, ms, out):
        ctx.check([x[:2] for x in descs(o.dims)] == keys,
                  "common dimensions", got=o.dims, want=keys)
        shp = tuple(a.shape[m.keys().index(k)] if k in m.keys() else 1
                    for k in keys)
        ctx.check(o.shape == shp, "absent dimensions must have length one",
                  got=o.shape, want=shp)
        order = [m.keys().index(k) for k in keys if k in m.keys()]
        ctx.equal(plain(o), m.v.transpose(order).reshape(shp),
                  "values after make_same_dims")
        bounds(ctx, o, a, "make_same_dims")
    # change_shape alone, to dims in any order
    a, m = arrs[0], ms[0]
    nd = [d for d in pool]
    order = ctx.shuffled(nd)
    if all(desc(d)[:2] in [desc(x)[:2] for x in order] for d in a.dims):
        o = ao.change_shape(a, order)
        keys2 = [desc(d)[:2] for d in order]
        perm = [m.keys().index(k) for k in keys2 if k in m.keys()]
        shp = tuple(len(m.axes[m.keys().index(k)][2]) if k in m.keys() else 1
                    for k in keys2)
        ctx.equal(plain(o), m.v.transpose(perm).reshape(shp), "change_shape")
        ctx.check([desc(d)[:2] for d in o.dims] == keys2, "change_shape dims")
    ctx.ev("brought to common dims")
    ctx.state([m.keys() for m in ms])


@PROP.family(quick=1500, floors=["diagonal expanded"])
def diagonals(ctx):
    a = arr(ctx, hi=3, classes=[DimSweep, DimRep], matrix=0)
    m = Model.of(a)
    if ctx.chance(.6):
        which = ctx.sample(range(a.ndim), ctx.randint(1, a.ndim))
        with Pure(ctx, a, what="expand_diagonals"):
            got = ao.expand_diagonals(a, [a.dims[i] for i in which])
    else:
        which = list(range(a.ndim))
        with Pure(ctx, a, what="expand_diagonals"):
            got = ao.expand_diagonals(a)
    v = m.v
    names = []
    pos = 0
    for i in range(a.ndim):
        if i in which:
            n = a.shape[i]
            new = np.zeros(v.shape[:pos] + (n, n) + v.shape[pos + 1:],
                           v.dtype)
            for k in range(n):
                new[(slice(None),) * pos + (k, k)] = \
                    v[(slice(None),) * pos + (k,)]
            v = new
            pos += 2
            names += [m.axes[i][1]] * 2
        else:
            names.append(m.axes[i][1])
            pos += 1
    invariant(ctx, got, "expand_diagonals")
    ctx.check([d.name for d in got.dims] == names, "dims after expansion",
              got=got.dims)
    ctx.equal(plain(got), v, "expand_diagonals")
    ctx.check(got.dtype == a.dtype, "expand_diagonals changed the data type",
              got=got.dtype)
    for i in which:
        n = m.axes[i][1]
        p = names.index(n)
        ctx.check(got.dims[p] == a.dims[i].indep_axis and
                  got.dims[p + 1] == a.dims[i].deriv_axis,
                  "expanded axes are not the independent/derivative pair",
                  got=got.dims)
    # and the diagonal view takes it back, inside the array's own memory
    if len(which) == 1:
        p = names.index(m.axes[which[0]][1])
        dv = ao.diagonal_view(got, got.dims[p:p + 2])
        bounds(ctx, dv, got, "diagonal_view")
        ctx.equal(np.asarray(dv), m.v, "diagonal view of the expansion")
        dv[...] = -1
        w = v.copy()
        for k in range(a.shape[which[0]]):
            w[(slice(None),) * p + (k, k)] = -1
        ctx.equal(plain(got), w, "writing through the diagonal view")
    ctx.ev("diagonal expanded")
    ctx.state(which, a.shape)


@PROP.family(quick=1500, floors=["diagonal viewed"])
def diagview(ctx):
    """Diagonals of any axis pair, also of rectangular, strided arrays."""
    a = arr(ctx, lo=2, matrix=0, kind="float")
    i, j = sorted(int(k) for k in ctx.rng.permutation(a.ndim)[:2])
    dv = ao.diagonal_view(a, (a.dims[i], a.dims[j]))
    bounds(ctx, dv, a, "diagonal_view")
    n = min(a.shape[i], a.shape[j])
    v = np.moveaxis(plain(a), j, i + 1)
    want = np.stack([v[(slice(None),) * i + (k, k)] for k in range(n)],
                    axis=i)
    ctx.equal(np.asarray(dv), want, "diagonal_view")
    ctx.ev("diagonal viewed")
    ctx.state(i, j, a.shape)


@PROP.family(quick=1500, floors=["full complex"])
def fullcomplex(ctx):
    a = arr(ctx, lo=0, kind="complex")
    m = Model.of(a)
    with Pure(ctx, a, what="make_fullcomplex_array"):
        got = ao.make_fullcomplex_array(a)
    invariant(ctx, got, "make_fullcomplex_array")
    g = plain(got)
    ctx.check(descs(got.dims[:-2]) == m.axes and
              [type(d).__name__ for d in got.dims[-2:]] ==
              ["ComplexIndepAxis", "ComplexDerivAxis"], "dims", got=got.dims)
    ctx.check(g.dtype == np.float64, "not real", got=g.dtype)
    ctx.equal(g[..., 0, 0], m.v.real, "re")
    ctx.equal(g[..., 1, 1], m.v.real, "re 2")
    ctx.equal(g[..., 1, 0], m.v.imag, "im")
    ctx.equal(g[..., 0, 1], -m.v.imag, "-im")
    ctx.check(ao.isfullcomplex(got) and not ao.isfullcomplex(a),
              "isfullcomplex")
    again = ao.make_fullcomplex_array(got)
    ctx.equal(plain(again), g, "twice")
    # products of the matrices are the matrices of the products
    b = a * (1 + 2j)
    p = plain(ao.make_fullcomplex_array(b))
    mul = g @ np.array([[1., -2.], [2., 1.]])
    order = [m.keys().index(desc(d)[:2]) for d in b.dims]
    ctx.close(p, mul.transpose(order + [a.ndim, a.ndim + 1]), "product",
              rtol=1e-12, atol=1e-12 * np.abs(mul).max(initial=0))
    r = gen.array(ctx, [d for d in a.dims], "float")
    fr = plain(ao.make_fullcomplex_array(r))
    ctx.equal(fr[..., 0, 0], plain(r), "real numbers")
    ctx.equal(fr[..., 0, 1], np.zeros(r.shape), "real numbers have no imag. "
              "part")
    # numbers that meet such matrices are made such matrices
    o = gen.array(ctx, ctx.sample(a.dims, ctx.randint(0, a.ndim)),
                  ctx.choice(["complex", "complex", "float"]))
    if not isinstance(o, hfarray):
        o = hfarray(o)
    if ctx.chance(.5):
        s, w = got + o, got + ao.make_fullcomplex_array(o)
    else:
        s, w = o * got, ao.make_fullcomplex_array(o) * got
    invariant(ctx, s, "full complex with a number")
    same(ctx, s, Model.of(w), "full complex with a number")
    ctx.ev("full complex")
    ctx.state(a.shape)


@PROP.family(quick=2000, floors=["matrix assembled"])
def assemble(ctx):
    """math.make_matrix: four element arrays to one matrix array."""
    pool = gen.dim_pool(ctx, ctx.randint(1, 3))
    els = [gen.array(ctx, ctx.sample(pool, ctx.randint(0, len(pool))),
                     ctx.choice(["float", "complex", "int"]))
           for _ in range(4)]
    ms = [Model.of(e) for e in els]
    ctx.log([(e.dims, e.dtype) for e in els])
    with Pure(ctx, *els, what="make_matrix"):
        got = hm.make_matrix(*els)
    axes = union_axes(*[m.axes for m in ms])
    keys = [x[:2] for x in axes]
    shp = tuple(len(x[2]) for x in axes)
    invariant(ctx, got, "make_matrix")
    ctx.check(descs(got.dims[:-2]) == axes, "make_matrix dims", got=got.dims)
    ctx.check(ao.ismatrix(got), "make_matrix gives no matrix")
    for m, (r, c) in zip(ms, itertools.product((0, 1), (0, 1))):
        ctx.equal(plain(got)[..., r, c], m.at(keys, shp),
                  "element %d%d" % (r + 1, c + 1))
    ctx.ev("matrix assembled")
    ctx.state([m.keys() for m in ms], [str(e.dtype) for e in els])


@PROP.family(quick=600, floors=["labelled matrix"])
def arrayobj_matrix(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 2))
    shp = tuple(len(d.data) for d in pool)
    mat = shp + (ctx.randint(1, 3), ctx.randint(1, 3))
    v = gen.values(ctx, mat, "complex")
    got = ao.make_matrix(v, tuple(pool))
    invariant(ctx, got, "make_matrix")
    ctx.check(ao.ismatrix(got) and descs(got.dims[:-2]) == descs(pool),
              "make_matrix dims", got=got.dims)
    ctx.equal(plain(got), v, "make_matrix")
    vec = ao.make_vector(v[..., 0], tuple(pool))
    invariant(ctx, vec, "make_vector")
    ctx.equal(plain(vec), v[..., 0], "make_vector")
    ctx.check(isinstance(vec.dims[-1], DimMatrix_j) and
              not ao.ismatrix(vec), "make_vector dims", got=vec.dims)
    # other names
    got = ao.make_matrix(v, tuple(pool), iname="row", jname="col")
    ctx.check(ao.ismatrix(got) and
              [d.name for d in got.dims[-2:]] == ["row", "col"],
              "names of matrix dimensions", got=got.dims)
    ctx.equal(plain(got), v, "make_matrix")
    ctx.equal(plain(got.t), v.swapaxes(-1, -2), "transposed")
    vec = ao.make_vector(v[..., 0], tuple(pool), jname="col")
    ctx.check(vec.dims[-1].name == "col", "name of vector dimension",
              got=vec.dims)
    ctx.ev("labelled matrix")
    ctx.state(mat)
