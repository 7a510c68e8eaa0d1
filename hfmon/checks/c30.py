"""C30: operations leave their inputs alone."""
import importlib

import numpy as np

import hftools.math as hm
import hftools.networks.multiports as mp
import hftools.utils as hu
from hftools.dataset import (hfarray, DataBlock, DimSweep, DimMatrix_i,
                             DimMatrix_j, remove_tail, make_same_dims)
from hftools.dataset.arrayobj import (_hfarray, dims_union,
                                      make_same_dims_list)
from hftools.dataset.dataset import (convert_matrices_to_elements,
                                     yield_dim_consistent_datablocks)
from hftools.file_formats import merge_blocks
from hftools.file_formats.common import Comments
from hftools.networks import noise
from hftools.networks import spar_functions as sf
from hfmon import blocks, gen, purity
from hfmon.core import Property, Skip, Ctx, Watchdog, EnvFault
from hfmon.model import snap, diff, plain

# the workloads of the other checks drive the package
SOURCES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09",
           "c10", "c11", "c12", "c15", "c16", "c17", "c18", "c19", "c20",
           "c21", "c22", "c23", "c25", "c26"]

PROP = Property(
    "C30", "Every public value-returning function and method of the package "
    "is wrapped; calls coming from outside of the package are bracketed by "
    "deep snapshots of all arguments (array bytes, dimensions with "
    "coordinates, units and formats, block tables, comments, lists and "
    "dictionaries), also when the call raises. The workloads of the other "
    "checks, with their generators of hostile inputs, are replayed under "
    "this instrumentation. Distinct state = (function, source family).",
    ["documented in-place operations (assignment, rename, replace_dim, "
     "guess_units, set_outputformat, from_noisepar, adding comments) are "
     "not in the list"])


def workloads():
    out = []
    for s in SOURCES:
        m = importlib.import_module("hfmon.checks.%s" % s)
        for f in m.PROP.families:
            out.append((m.PROP, f))
    return out


_W = []


def get():
    if not _W:
        _W.extend(workloads())
        purity.install()
    return _W


@PROP.family(quick=16000, thorough=120000, floors=["call observed"])
def replayed(ctx):
    W = get()
    prop, fam = W[ctx.index % len(W)]
    index = ctx.index // len(W)
    if fam.index_all:
        index = index % fam.quick
    inner = Ctx(prop.pid, fam.name, ctx.seed, index, ctx.tier,
                ctx.scratch_root)
    ctx.log("workload", prop.pid, fam.name, index)
    purity.take()
    purity.CALLS.clear()
    try:
        fam.fn(inner)
    except (Watchdog, EnvFault, MemoryError):
        raise
    except Exception:
        pass                  # judged by the property the workload belongs to
    finally:
        ctx.trace.extend(inner.trace[-20:])
        inner.cleanup()
    for name, n in purity.CALLS.items():
        ctx.ev("call observed", n)
        ctx.state(name, prop.pid, fam.name)
    bad = purity.take()
    ctx.check(not bad, "argument changed", what=bad[:2])


# --- results of computations are apart from their arguments --------------------
def _arrays(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(1, 3), minlen=1)
    da = ctx.sample(pool, ctx.randint(1, len(pool)))
    db = ctx.sample(pool, ctx.randint(0, len(pool)))
    k = ctx.choice(["float", "complex"])
    a = gen.array(ctx, da, k, unit=ctx.choice(gen.UNITS),
                  fmt=ctx.choice(["%.3f", None]))
    b = gen.array(ctx, db, k)
    return a, b


def _nets(ctx):
    pool = gen.dim_pool(ctx, ctx.randint(0, 2), minlen=1)
    out = []
    for i in range(2):
        d = tuple(pool) + (gen.mdim(ctx, DimMatrix_i, 2), gen.mdim(ctx, DimMatrix_j, 2))
        sh = tuple(len(x.data) for x in d)
        v = ctx.rng.normal(size=sh) + 1j * ctx.rng.normal(size=sh)
        v[..., 0, 1] += 2
        out.append(ctx.choice([mp.SArray, mp.SArray, mp.ZArray])(
            gen.layout(ctx, v), dims=d))
    return out


ARR = dict([
    ("+", lambda a, b: a + b), ("-", lambda a, b: a - b),
    ("*", lambda a, b: a * b), ("/", lambda a, b: a / b),
    ("+0", lambda a, b: a + 0), ("*1", lambda a, b: 1 * a),
    ("**1", lambda a, b: a ** 1), ("neg", lambda a, b: -a),
    ("abs", lambda a, b: abs(a)), ("copy", lambda a, b: a.copy()),
    ("sum", lambda a, b: a.sum(axis=0)),
    ("mean", lambda a, b: a.mean(axis=a.dims[-1].name)),
    ("max", lambda a, b: abs(a).max(axis=0)),
    ("cumsum", lambda a, b: a.cumsum(axis=0)),
    ("cumprod", lambda a, b: a.cumprod(axis=0)),
    ("hfarray", lambda a, b: hfarray(a)),
    ("take", lambda a, b: a.take([0], axis=0)),
    ("remove_tail", lambda a, b: remove_tail(a)),
    ("dB", lambda a, b: hm.dB(a)), ("chop", lambda a, b: hm.chop(a)),
    ("uchop", lambda a, b: hu.chop(a)),
    ("unwrap", lambda a, b: hm.unwrap_phase(a)),
    ("angle", lambda a, b: hm.angle(a)),
    ("smooth", lambda a, b: hm.smooth(a, 3)),
    ("smooth1", lambda a, b: hm.smooth(a, 1)),
])
NET = dict([
    ("mul", lambda a, b: hm.matrix_multiply(a, b)),
    ("inv", lambda a, b: hm.inv(a)), ("det", lambda a, b: hm.det(a)),
    ("cascade", lambda a, b: a.cascade(b)),
    ("deembed", lambda a, b: a.deembed(left=b)),
    ("toZ", lambda a, b: mp.ZArray(a)), ("toS", lambda a, b: mp.SArray(a)),
    ("toA", lambda a, b: mp.ABCDArray(a)),
    ("toT", lambda a, b: mp.TArray(a)),
    ("passive", lambda a, b: sf.make_passive_svd(mp.SArray(a))),
    ("passive0", lambda a, b: sf.make_passive_svd(
        mp.SArray(hfarray(plain(a) / 99, dims=a.dims)))),
    ("reciprocal", lambda a, b: sf.make_reciprocal(mp.SArray(a))),
    ("hconj", lambda a, b: noise.Hconj(a)),
    ("copy", lambda a, b: a.copy()), ("t", lambda a, b: a.t.copy()),
    ("+", lambda a, b: hfarray(a) + hfarray(b)),
])


def _sorted_block(ctx):
    db, pool, mat = blocks.block(ctx, nvars=ctx.randint(1, 4),
                                 names=["Id", "gain", "Pin_x", "S"])
    if ctx.chance(.7):
        db.comments = Comments(["Vgs [V] : 3", "text : some"])
    return db


BLK = dict([
    ("copy", lambda d: d.copy()),
    ("merge", lambda d: merge_blocks([d, d])),
])


def near(a, b):
    """snapshots are the same up to rounding"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        if a and isinstance(a[0], str) and a[0] in ("array", "nd"):
            k = 4 if a[0] == "array" else 3
            dt = np.dtype(a[k - 2])
            if a[:k] != b[:k] or a[k + 1:] != b[k + 1:]:
                return False
            if a[k] == b[k]:
                return True
            if dt.kind not in "fc" or not isinstance(a[k], bytes):
                return False
            x, y = np.frombuffer(a[k], dt), np.frombuffer(b[k], dt)
            scale = np.nanmax(abs(np.where(np.isfinite(x), x, 0)))
            return np.allclose(x, y, rtol=1e-9, atol=1e-9 * scale,
                               equal_nan=True)
        return all(near(x, y) for x, y in zip(a, b))
    return a == b


def spoil(r):
    """change everything that can be changed in a result"""
    if isinstance(r, DataBlock):
        for k in list(r.vardata.keys()):
            spoil(r.vardata[k])
        for k in list(r.vardata.keys()):
            r.vardata[k].unit = "spoilt"
            r.rename(k, k + "_spoilt")
        r["fresh"] = hfarray(3.)
        if r.comments is not None:
            r.comments.property["fresh"] = 1
            r.comments.fullcomments.append("spoilt")
        r.blockname = "spoilt"
        return
    if isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)
        return
    if isinstance(r, np.ndarray):
        if r.dtype.kind in "fciub" and r.ndim:
            np.ndarray.view(r, np.ndarray)[...] = 0
        if isinstance(r, _hfarray):
            r.unit = "spoilt"
            r.outputformat = "%d"


@PROP.family(quick=3000, floors=["result changed"])
def apart(ctx):
    which = ctx.choice(["a", "a", "n", "b"])
    if which == "a":
        name = ctx.choice(sorted(ARR))
        args = _arrays(ctx)
        fn = ARR[name]
    elif which == "n":
        name = ctx.choice(sorted(NET))
        args = _nets(ctx)
        fn = NET[name]
    else:
        name = ctx.choice(sorted(BLK))
        args = [_sorted_block(ctx)]
        fn = BLK[name]
    ctx.log(which, name, [getattr(x, "dims", None) for x in args])
    before = [snap(x) for x in args]
    r = fn(*args)
    once = snap(r)
    ctx.check([snap(x) for x in args] == before, "%s changed its argument" %
              name)
    again = snap(fn(*args))
    if name != "merge":
        ctx.check(near(once, again), "%s: second call gives another result" %
                  name, diff=diff(once, again))
    spoil(r)
    for x, b in zip(args, before):
        now = snap(x)
        ctx.check(now == b, "changing the result of %s changed its argument"
                  % name, diff=diff(b, now))
    third = snap(fn(*args))
    if name != "merge":
        ctx.check(near(once, third), "%s: result depends on an earlier result" %
                  name, diff=diff(once, third))
    ctx.ev("result changed")
    ctx.state(which, name, [getattr(x, "ndim", None) for x in args])


@PROP.family(quick=1500, floors=["list observed"])
def lists(ctx):
    """functions taking lists and texts, and reports"""
    r = ctx.rng
    nums = [int(x) for x in r.integers(0, 6, ctx.randint(0, 8))]
    texts = [ctx.choice("abc") + str(int(x)) for x in r.integers(0, 20, 6)]
    nest = [1, [2, [3, ctx.randint(0, 9)], []], (4, [5])]
    db = _sorted_block(ctx)
    a, b = _arrays(ctx)
    n1, n2 = _nets(ctx)
    calls = [
        (hu.uniq, (nums,)), (hu.stable_uniq, (nums,)),
        (hu.stable_uniq, (texts,)), (hu.lex_order, (texts,)),
        (hu.flatten, (nest,)), (hu.chop, (a,)), (hu.uniq, (np.nan_to_num(abs(a)),)),
        (lambda d: d.report(), (db,)), (lambda d: d.report(20), (db,)),
        (str, (db,)), (repr, (db,)), (repr, (a,)), (repr, (n1,)),
        (lambda d: [d.depvar_report(k) for k in d.vardata.keys()], (db,)),
        (lambda d: [d.ivar_report(k) for k in d.ivardata.keys()], (db,)),
        (lambda d: sorted(d.allvarnames), (db,)),
        (make_same_dims, (a, b)), (make_same_dims_list, ([a, b],)),
        (dims_union, (a, b)), (lambda x: x.info_index(x.dims[0].name), (a,)),
        (hm.flatten_non_matrix, (n1,)), (convert_matrices_to_elements,
                                         (db,)),
        (lambda d: list(yield_dim_consistent_datablocks(d)), (db,)),
        (lambda d: d.keep_variables(list(d.vardata.keys())[:1]), (db,)),
        (lambda d: d.squeeze(), (db,)), (lambda d: d.remove_rep(), (db,)),
        (lambda d: dir(d), (db,)),
        (lambda x: DimSweep("q", x), (nums,)),
        (lambda x: hfarray(x), (nums,)),
        (lambda x: hfarray(plain(x), dims=list(x.dims)), (a,)),
        (lambda x, l: x.reorder_dimensions(*l), (a, list(a.dims)[::-1])),
        (lambda x, l: x.sum(axis=tuple(l)), (a, list(a.dims))),
        (lambda d, l: merge_blocks(l), (db, [db, db.copy()])),
        (lambda x, y: x.Z0, (n1, n2)),
    ]
    k = ctx.randint(0, len(calls) - 1)
    fn, args = calls[k]
    ctx.log("call", getattr(fn, "__name__", fn), k)
    before = [snap(x) for x in args]
    once = snap(fn(*args))
    for x, q in zip(args, before):
        now = snap(x)
        ctx.check(now == q, "argument changed", diff=diff(q, now),
                  call=k)
    again = snap(fn(*args))
    ctx.check(near(once, again), "second call gives another result",
              diff=diff(once, again), call=k)
    ctx.ev("list observed")
    ctx.state("lists", k)
