"""Reference model of a data block, and generators of blocks."""
import collections

import numpy as np

from hftools.dataset import (DataBlock, hfarray, DimSweep, DimRep,
                             DimMatrix_i, DimMatrix_j)
from hftools.dataset.arrayobj import _hfarray
from hfmon import gen
from hfmon.model import Model, desc, descs, same, plain

# names of variables never look like matrix elements nor like dimensions
VARS = ["Id", "gain", "noise", "phase", "DUT_x", "P_out", "Tj", "eff", "u",
        "S", "H", "Z", "Spar", "w1", "V0"]


def fmt_of(d):
    return d.outputformat if len(d.data) else None


class MBlock(object):
    """Ordered variables, and a table of dimensions."""

    def __init__(self):
        self.vars = collections.OrderedDict()     # name -> [Model, unit, fmt]
        self.dims = collections.OrderedDict()     # name -> [desc, fmt]
        self.view_group = None

    def copy(self):
        o = MBlock()
        for k, (m, u, f) in self.vars.items():
            o.vars[k] = [m.copy(), u, f]
        for k, v in self.dims.items():
            o.dims[k] = list(v)
        return o

    @classmethod
    def of(cls, db):
        """Model of what a block holds now (through the raw tables)."""
        o = cls()
        for k in db.vardata.keys():
            v = db.vardata[k]
            o.vars[k] = [Model.of(v), v.unit, v.outputformat]
        for k in db.ivardata.keys():
            d = db.ivardata[k]
            o.dims[k] = [desc(d), fmt_of(d)]
        return o

    def set_dim(self, name, newdesc, fmt):
        """Replace dimension *name* everywhere."""
        d = collections.OrderedDict()
        for k, v in self.dims.items():
            if k == name:
                d[newdesc[1]] = [newdesc, fmt]
            else:
                d[k] = v
        self.dims = d
        for v in self.vars.values():
            v[0].axes = [newdesc if a[1] == name else a for a in v[0].axes]

    def rename_var(self, old, new):
        self.vars = collections.OrderedDict(
            (new if k == old else k, v) for k, v in self.vars.items())

    def assign(self, name, a):
        if name in self.vars:
            self.vars[name] = [Model.of(a), a.unit, a.outputformat]
        else:
            self.vars[name] = [Model.of(a), a.unit, a.outputformat]
        for d in a.dims:
            if d.name not in self.dims:
                self.dims[d.name] = [desc(d), fmt_of(d)]


def check_block(ctx, db, mb, what):
    """db holds exactly what mb says, and is consistent with itself."""
    ctx.ev("block compared")
    ctx.check(list(db.vardata.keys()) == list(mb.vars),
              "%s: variables or their order" % what, got=db.vardata.keys(),
              want=list(mb.vars))
    ctx.check(sorted(db.ivardata.keys()) == sorted(mb.dims),
              "%s: table of dimensions" % what, got=db.ivardata.keys(),
              want=list(mb.dims))
    for k, (d, f) in mb.dims.items():
        got = db.ivardata[k]
        ctx.check(desc(got) == d, "%s: dimension %s" % (what, k),
                  got=desc(got), want=d)
        ctx.check(fmt_of(got) == f, "%s: format of dimension %s" % (what, k),
                  got=fmt_of(got), want=f)
        ctx.check(k in db, "%s: dimension not in block" % what)
    for k, (m, u, f) in mb.vars.items():
        got = db.vardata[k]
        ctx.ev("variable compared")
        same(ctx, got, m, "%s: variable %s" % (what, k))
        ctx.check(got.unit == u, "%s: unit of %s" % (what, k), got=got.unit,
                  want=u)
        ctx.check(got.outputformat == f, "%s: format of %s" % (what, k),
                  got=got.outputformat, want=f)
        ctx.check(k in db, "%s: variable not in block" % what)
        if k not in mb.dims:
            same(ctx, db[k], m, "%s: item %s" % (what, k))
            same(ctx, getattr(db, k), m, "%s: attribute %s" % (what, k))
    consistent(ctx, db, what)
    names = list(mb.dims) + [k for k in mb.vars if k not in mb.dims]
    ctx.check(sorted(db.allvarnames) == sorted(names),
              "%s: allvarnames" % what, got=db.allvarnames)


def consistent(ctx, db, what):
    """Each variable's dimensions agree with the table."""
    for k in db.vardata.keys():
        v = db.vardata[k]
        for ax, d in zip(v.shape, v.dims):
            ctx.ev("dimension agreement checked")
            ctx.check(d.name in db.ivardata, "%s: dimension %s of %s is not "
                      "in the table" % (what, d.name, k),
                      table=db.ivardata.keys())
            ctx.check(desc(db.ivardata[d.name]) == desc(d),
                      "%s: dimension %s of %s disagrees with the table" %
                      (what, d.name, k), got=desc(d),
                      want=desc(db.ivardata[d.name]))
            ctx.check(fmt_of(db.ivardata[d.name]) == fmt_of(d),
                      "%s: format of dimension %s of %s disagrees with the "
                      "table" % (what, d.name, k), got=fmt_of(d),
                      want=fmt_of(db.ivardata[d.name]))
            ctx.check(len(d.data) == ax, "%s: dimension length" % what)


def block(ctx, nvars=None, pool=None, matrix=.4, kinds=None, names=None,
          minlen=1, maxlen=4, need=None, classes=(DimSweep, DimSweep,
                                                  DimRep)):
    """A block of variables over a common pool of dimensions.

    need: a dimension at least one variable must have."""
    if pool is None:
        pool = gen.dim_pool(ctx, ctx.randint(1, 4), minlen=minlen,
                            maxlen=maxlen, classes=list(classes))
    mat = []
    if ctx.chance(matrix):
        n = ctx.randint(1, 3)
        mat = [gen.mdim(ctx, DimMatrix_i, n), gen.mdim(ctx, DimMatrix_j, n)]
    db = DataBlock()
    n = nvars if nvars is not None else ctx.randint(1, 5)
    vn = names or ctx.sample(VARS, n)
    for k, name in enumerate(vn[:n]):
        d = ctx.sample(pool, ctx.randint(0, len(pool)))
        if need is not None and k == 0 and need not in d:
            d = ctx.shuffled(d + [need])
        if mat and (ctx.chance(.5) or k == n - 1):
            d = d + mat
        a = gen.array(ctx, d, ctx.choice(kinds or ["float", "complex", "int",
                                                   "bool"]),
                      unit=ctx.choice(gen.UNITS), fmt=ctx.choice(gen.FMTS))
        db[name] = a
    return db, pool, mat
