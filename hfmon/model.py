"""Labelled reference model, structural monitors and snapshots.

The model of an array is its plain values plus one descriptor per axis
(kind, name, coordinates, unit).  It shares no code with hftools: alignment is
done by building explicit index arrays from the descriptors."""
import numpy as np

from hftools.dataset.arrayobj import _hfarray
from hftools.dataset import DataBlock
from hftools.dataset.dim import DimBase
from hfmon.core import Violation


def kindprio(d):
    """Documented order of dimension kinds."""
    n = [c.__name__ for c in type(d).__mro__]
    if "ComplexDerivAxis" in n:
        return 5
    if "ComplexIndepAxis" in n:
        return 4
    if "ComplexDiagAxis" in n:
        return 3.5
    if "DimMatrix_j" in n:
        return 3
    if "_DimMatrix" in n:
        return 2
    if "DimRep" in n:
        return 1
    return 0


def desc(d):
    """Descriptor of a dimension object."""
    return (type(d).__name__, d.name, tuple(d.data.tolist()), d.unit)


def descs(dims):
    return [desc(d) for d in dims]


def plain(a):
    """Values of an array as ndarray copy, through the buffer only."""
    return np.array(np.ndarray.view(a, np.ndarray) if isinstance(a, np.ndarray)
                    else a)


def like(ctx, got, dims, what=""):
    """Values of *got* in the axis order of *dims* (must be the same set)."""
    v = plain(got)
    if not isinstance(got, _hfarray):
        return v
    k = [x[:2] for x in descs(got.dims)]
    want = [x[:2] for x in descs(dims)]
    ctx.check(v.ndim == len(k) and sorted(k) == sorted(want),
              "%s: wrong set of dimensions" % what, got=k, want=want)
    return v.transpose([k.index(x) for x in want])


class Model(object):
    """Values + axis descriptors [(kind, name, coords, unit)]."""

    def __init__(self, values, axes):
        self.v = np.array(values)
        self.axes = list(axes)
        assert self.v.ndim == len(self.axes), (self.v.shape, self.axes)

    @classmethod
    def of(cls, a):
        return cls(plain(a), descs(a.dims))

    def copy(self):
        return Model(self.v.copy(), self.axes)

    def key(self, i):
        return self.axes[i][:2]

    def keys(self):
        return [x[:2] for x in self.axes]

    def at(self, keys, shape):
        """Values broadcast over axes *keys* (list of (kind, name))."""
        idx = []
        for i in range(self.v.ndim):
            pos = keys.index(self.key(i))
            n = self.v.shape[i]
            ar = np.arange(n)
            sh = [1] * len(keys)
            sh[pos] = n
            idx.append(ar.reshape(sh))
        if not idx:
            return np.broadcast_to(self.v, shape)
        return np.broadcast_to(self.v[tuple(idx)], shape)


PRIO = {"ComplexDerivAxis": 5, "ComplexIndepAxis": 4, "ComplexDiagAxis": 3.5,
        "DimMatrix_j": 3, "DimMatrix_i": 2, "DimRep": 1}


def union_axes(*axlists):
    out = []
    for axes in axlists:
        for ax in axes:
            if ax[:2] not in [o[:2] for o in out]:
                out.append(ax)
    out.sort(key=lambda a: PRIO.get(a[0], 0))
    return out


def union_axes_lenient(*axlists):
    return union_axes(*axlists)


def binop(fn, a, b):
    """fn applied coordinate by coordinate; a, b Model or number."""
    if not isinstance(a, Model):
        return Model(fn(a, b.v), b.axes)
    if not isinstance(b, Model):
        return Model(fn(a.v, b), a.axes)
    axes = union_axes(a.axes, b.axes)
    keys = [x[:2] for x in axes]
    shape = tuple(len(x[2]) for x in axes)
    return Model(fn(a.at(keys, shape), b.at(keys, shape)), axes)


def invariant(ctx, a, what=""):
    """One dimension per axis, as long as the axis."""
    ctx.ev("array invariant checked")
    if not isinstance(a, _hfarray):
        raise Violation("%s: result is %s, not a labelled array" %
                        (what, type(a)))
    ctx.check(len(a.dims) == a.ndim, "%s: number of dims != ndim" % what,
              dims=a.dims, shape=a.shape)
    for i, d in enumerate(a.dims):
        ctx.check(isinstance(d, DimBase), "%s: dims entry is no dimension" %
                  what, d=d)
        ctx.check(len(d.data) == a.shape[i],
                  "%s: dimension length differs from axis length" % what,
                  dims=a.dims, shape=a.shape)


def same(ctx, got, want, what, exact=True, rtol=1e-9, atol=0.0, kinds=True,
         units=True, order=True, coords=True):
    """got (labelled array or scalar) must be the Model *want*."""
    if want.v.ndim == 0 and not isinstance(got, _hfarray):
        pass
    else:
        invariant(ctx, got, what)
        g, w = descs(got.dims), list(want.axes)
        if not order:
            ctx.check(sorted(map(repr, g)) == sorted(map(repr, w)),
                      "%s: wrong set of dimensions" % what, got=g, want=w)
            perm = [[x[:2] for x in g].index(x[:2]) for x in w]
            return _cmp(ctx, plain(got).transpose(perm), want.v, what, exact,
                        rtol, atol)
        sel = [0, 1, 2, 3]
        if not kinds:
            sel.remove(0)
        if not coords:
            sel.remove(2)
        if not units:
            sel.remove(3)
        ctx.check([[x[k] for k in sel] for x in g] ==
                  [[x[k] for k in sel] for x in w],
                  "%s: wrong dimensions" % what, got=g, want=w)
    _cmp(ctx, plain(got), want.v, what, exact, rtol, atol)


def _cmp(ctx, g, w, what, exact, rtol, atol):
    if exact:
        ctx.equal(g, w, "%s: wrong values" % what)
    else:
        ctx.close(g, w, "%s: wrong values" % what, rtol=rtol, atol=atol)


# --- snapshots (purity monitor) ---------------------------------------------

def snap(x):
    """Deep, comparable description of any argument."""
    if isinstance(x, _hfarray):
        out = ["array", type(x).__name__, x.dtype.str, x.shape,
               plain(x).tobytes() if x.dtype != object
               else repr(plain(x).tolist()),
               [(desc(d), d.outputformat if len(d.data) else None)
                for d in x.dims],
               x.unit, x.outputformat]
        z0 = getattr(type(x), "Z0", None)
        if z0 is not None:
            out.append(repr(x.Z0))
        return out
    if isinstance(x, np.ndarray):
        return ["nd", x.dtype.str, x.shape, x.tobytes()]
    if isinstance(x, DimBase):
        return ["dim", desc(x), x.outputformat if len(x.data) else None]
    if isinstance(x, DataBlock):
        return ["block", x.blockname, x.xname,
                [(k, snap(v)) for k, v in x.ivardata.items()],
                [(k, snap(v)) for k, v in x.vardata.items()],
                snap(x.comments), x.outputformat]
    if hasattr(x, "fullcomments"):
        return ["comments", list(x.fullcomments),
                sorted((str(k), snap(v)) for k, v in x.property.items())]
    if isinstance(x, dict):
        return ["dict", [(repr(k), snap(v)) for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [snap(v) for v in x]]
    if hasattr(x, "N") and hasattr(x, "C"):
        return ["noisy", snap(x.N), snap(x.C)]
    return ["obj", repr(x)]


class Pure(object):
    """with Pure(ctx, a, b): ...   arguments must come out unchanged."""

    def __init__(self, ctx, *objs, **kw):
        self.ctx, self.objs = ctx, objs
        self.what = kw.get("what", "")

    def __enter__(self):
        self.before = [snap(o) for o in self.objs]
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            for o, b in zip(self.objs, self.before):
                self.ctx.ev("argument unchanged checked")
                now = snap(o)
                self.ctx.check(now == b, "%s modified its argument" %
                               self.what, before=diff(b, now))
        return False


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return "%r -> %r" % (a, b)


# --- model operations ---------------------------------------------------------

def ax_take(ax, sel):
    """Descriptor of the selected points of an axis."""
    c = list(ax[2])
    return (ax[0], ax[1], tuple(c[int(k)] for k in sel), ax[3])


def m_select(m, sels):
    """sels: per axis an int (drops it) or a list of positions."""
    v, axes, pos = m.v, [], 0
    for ax, s in zip(m.axes, sels):
        if isinstance(s, (int, np.integer)):
            v = np.take(v, int(s), axis=pos)
        else:
            v = np.take(v, [int(k) for k in s], axis=pos)
            axes.append(ax_take(ax, s))
            pos += 1
    return Model(v, axes)


def m_transpose(m, order):
    return Model(np.transpose(m.v, order), [m.axes[i] for i in order])


def m_reduce(m, fn, idx):
    """fn(values moved to one trailing axis) over axes idx."""
    keep = [i for i in range(m.v.ndim) if i not in idx]
    v = np.transpose(m.v, keep + list(idx))
    v = v.reshape(tuple(m.v.shape[i] for i in keep) + (-1,))
    out = np.empty(v.shape[:-1], dtype=np.asarray(fn(np.ones(3, v.dtype)))
                   .dtype)
    for k in np.ndindex(*v.shape[:-1]):
        out[k] = fn(v[k])
    return Model(out, [m.axes[i] for i in keep])


def m_map(m, fn):
    return Model(fn(m.v), m.axes)
