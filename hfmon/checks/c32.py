"""C32: muwave MATLAB sweeps are read with every value at its point."""
import datetime
import os

import numpy as np
import scipy.io as sio

from hftools.core.exceptions import HFToolsIOError
from hftools.file_formats import read_data
from hftools.file_formats.muwave_mat import (read_muwave_matlabdata,
                                             is_muwave_matlabdata)
from hfmon import gen
from hfmon.core import Property
from hfmon.model import plain

PROP = Property(
    "C32", "MATLAB files with the structure of muwave sweeps (swp.data cells "
    "holding measstate, measmnt and data structures) are generated with "
    "random numbers of bias points, frequencies and ports, real and complex "
    "data, covariances, numeric, textual, empty and date properties, read "
    "one by one, several at a time, by the special and by the general "
    "reader; every value is looked up by its frequency, point and file "
    "number. Distinct state = (points, frequencies, ports, files, options).",
    ["files are made by scipy with the structure the reader documents in its "
     "code (no sample file is at hand)", "scattering data; properties are "
     "single numbers or texts; dimensions of length one may be dropped"])

STATE = ["V1", "I1", "V2", "I2", "V1_SET", "I2_SET", "V2_SET",
         "I1_SET", "Tchuck", "Pin"]
MEAS = ["Operator", "Info", "Origin", "MeasID", "GateWidth", "Width2"]
UNIT = dict([(k, "V") for k in ("V1", "V2", "V1_SET", "V2_SET")] +
            [(k, "A") for k in ("I1", "I2", "I1_SET", "I2_SET")] +
            [("Z0", "Ohm")])


def cell(items):
    a = np.empty((1, len(items)), object)
    for i, x in enumerate(items):
        a[0, i] = x
    return a


def make(ctx, plan, npoints):
    """(what is stored, list of records)"""
    r = ctx.rng
    cells, recs = [], []
    for k in range(npoints):
        sh = (plan["ports"], plan["ports"], len(plan["freq"]))
        m = r.normal(size=sh)
        if plan["cplx"]:
            m = m + 1j * r.normal(size=sh)
        cov = r.normal(size=sh) if plan["cov"] else None
        rec = {"S": m, "Scov": cov, "Z0": plan["Z0"],
               "Index": float(plan["index"] + k)}
        names, vals = [], []
        for n in plan["state"]:
            v = float(r.normal()) if plan["kind"][n] == "num" else \
                ctx.choice(["on", "off", "cold bias"])
            if plan["kind"][n] == "zero":
                v = 0.
            rec[n] = v
            names.append(n)
            vals.append(v)
        at = ctx.randint(0, len(names))
        names.insert(at, "Index")
        vals.insert(at, rec["Index"])
        st = {"measstate": {"props": cell(names), "values": cell(vals)}}
        if plan["meas"] is not None:
            names, vals = [], []
            for n in plan["meas"]:
                kind = plan["kind"][n]
                if kind == "num":
                    v = float(r.normal())
                elif kind == "zero":
                    v = 0.
                elif kind == "empty":
                    v = ""
                elif kind == "some":        # not at all points
                    v = ctx.choice(["", "yes", "no, not here"])
                elif kind == "date":
                    d = datetime.datetime(2013, 1, 5, 3, 4, 5) + \
                        datetime.timedelta(seconds=int(r.integers(10 ** 8)))
                    v = d
                else:
                    v = ctx.choice(["me", "some text", "x y z"])
                rec[n] = v
                names.append(n)
                vals.append(v.strftime("%d-%b-%Y %H:%M:%S")
                            if kind == "date" else v)
            st["measmnt"] = {"props": cell(names), "values": cell(vals)}
        st["data"] = {"type": "S", "reference": float(plan["Z0"]),
                      "freq": plan["freq"][:, None], "data": {"mtrx": m},
                      "datacov": np.zeros((0, 0)) if cov is None else
                      {"mtrx": cov}}
        cells.append(st)
        recs.append(rec)
    return {"swp": {"data": cell(cells)}}, recs


def plan_of(ctx):
    nf = ctx.choice([1, 2, 3, min(257, gen.length(ctx, 5, 5, .2))])
    p = dict(ports=ctx.randint(1, 3), cplx=ctx.chance(.8), cov=ctx.chance(.3),
             freq=np.sort(ctx.rng.uniform(1e8, 5e10, nf)),
             Z0=ctx.choice([50, 75, 12.5]), index=ctx.randint(0, 5),
             state=ctx.sample(STATE, ctx.randint(0, 5)), kind={})
    for n in p["state"]:
        p["kind"][n] = ctx.choice(["num", "num", "num", "text", "zero"])
        if n in UNIT:
            p["kind"][n] = ctx.choice(["num", "num", "zero"])
    p["meas"] = None
    if ctx.chance(.7):
        p["meas"] = ctx.sample(MEAS, ctx.randint(0, 4))
        for n in p["meas"]:
            p["kind"][n] = ctx.choice(["num", "text", "empty", "zero", "some"])
        if ctx.chance(.5):
            p["meas"].append("Date")
            p["kind"]["Date"] = "date"
    return p


def lookup(ctx, v, freq=None, point=None, fileno=None, pdim=None, fdim=None):
    """value of a variable at named coordinates"""
    idx = []
    for d in v.dims:
        if d.name == "freq":
            idx.append(freq)
        elif d.name == pdim:
            idx.append(point)
        elif d.name == fdim:
            idx.append(fileno)
        elif d.name in "ij":
            idx.append(slice(None))
        else:
            ctx.check(False, "unexpected dimension", got=v.dims)
    return plain(v)[tuple(idx)]


@PROP.family(quick=700, floors=["value looked up", "file read",
                                "several files read"])
def sweep(ctx):
    plan = plan_of(ctx)
    nfiles = ctx.choice([1, 1, 2, 3])
    npts = min(34, gen.length(ctx, 1, 4, .02))
    allrecs = []
    for k in range(nfiles):
        data, recs = make(ctx, plan, npts)
        sio.savemat(os.path.join(ctx.dir, "m%d.mat" % (k * 7 + 3)), data)
        allrecs.append(recs)
    drop = ctx.chance(.5)
    pat = os.path.join(ctx.dir, "m*.mat" if nfiles > 1 or ctx.chance(.3)
                       else "m3.mat")
    how = ctx.randint(0, 2)
    ctx.log("read", how, nfiles, npts, drop, plan)
    if how == 0:
        db = read_data(pat)
        drop = True
    elif how == 1 and drop:
        db = read_muwave_matlabdata(pat)
    else:
        db = read_muwave_matlabdata(pat, drop_empty=drop)
    ctx.ev("file read" if nfiles == 1 else "several files read")
    with open(os.path.join(ctx.dir, "m3.mat"), "rb") as f:
        first = f.readline().decode("latin-1")
    ctx.check(is_muwave_matlabdata("m3.mat", first) and not
              is_muwave_matlabdata("m3.mat", "# HZ S RI R 50"), "signature")
    # which dimension is which
    have = [d.name for v in db.vardata.values() for d in v.dims]
    have = sorted(set(have) - set(["freq", "i", "j"]))
    ctx.check(len(have) == (npts > 1) + (nfiles > 1), "dimensions", got=have,
              points=npts, files=nfiles)
    pdim = fdim = None
    if nfiles > 1:
        ctx.check("Index2" in db, "file numbers", got=db.vardata.keys())
        fdim = db["Index2"].dims[0].name
        ctx.check(plain(db["Index2"]).tolist() == list(range(nfiles)),
                  "file numbers", got=db["Index2"])
    rest = [x for x in have if x != fdim]
    if rest:
        pdim = rest[0]
    want = set(allrecs[0][0])
    if not plan["cov"]:
        want.discard("Scov")
    if drop:
        want -= set(n for n in want if all(
            isinstance(x[n], str) and x[n] == ""
            for recs in allrecs for x in recs))
    got = set(db.vardata.keys()) - set(["Index2"])
    ctx.check(got == want, "variables", got=sorted(got), want=sorted(want))
    if len(plan["freq"]) > 1:
        d = db.ivardata["freq"]
        ctx.check(d.data.tolist() == plan["freq"].tolist() and
                  d.unit == "Hz", "frequencies", got=d.data)
        ctx.check(db.S.dims[0].name == "freq", "frequency comes first",
                  got=db.S.dims)
    for f, recs in enumerate(allrecs):
        for p, rec in enumerate(recs):
            kw = dict(point=p, fileno=f, pdim=pdim, fdim=fdim)
            for n in sorted(want):
                v = db.vardata[n]
                ctx.check(v.unit == UNIT.get(n), "unit of %s" % n,
                          got=v.unit)
                w = rec[n]
                ctx.ev("value looked up")
                if n in ("S", "Scov"):
                    for k in range(len(plan["freq"])):
                        g = lookup(ctx, v, freq=k, **kw)
                        ww = w[:, :, k]
                        ctx.check(g.reshape(ww.shape).tolist() ==
                                  ww.tolist(), "%s" % n, got=g, want=ww,
                                  freq=k, point=p, file=f)
                    continue
                g = lookup(ctx, v, **kw)
                if isinstance(w, datetime.datetime):
                    ctx.check(np.datetime64(w) == g, "date", got=g, want=w)
                elif isinstance(w, str):
                    ctx.check(str(g) == w, "text %s" % n, got=g, want=w)
                else:
                    ctx.check(float(g) == float(w), "number %s" % n, got=g,
                              want=w, point=p, file=f)
    ctx.state(npts, nfiles, plan["ports"], len(plan["freq"]), plan["cov"],
              plan["cplx"], drop, how)


@PROP.family(quick=120, floors=["refused"])
def other(ctx):
    """other MATLAB files, and none"""
    fn = os.path.join(ctx.dir, "x.mat")
    sio.savemat(fn, {ctx.choice(["x", "sweep", "data"]):
                     ctx.rng.normal(size=(2, 3))})
    ctx.raises(HFToolsIOError, lambda: read_muwave_matlabdata(fn),
               "a file without a sweep was read")
    ctx.raises(HFToolsIOError, lambda: read_data(fn),
               "a file without a sweep was read")
    ctx.raises(IOError, lambda: read_muwave_matlabdata(
        os.path.join(ctx.dir, "none*.mat")), "missing file")
    ctx.ev("refused")
    ctx.state("other")
