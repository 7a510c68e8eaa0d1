"""C14: natural ordering, uniqueness and numeric conversion are exact."""
import datetime
import math
import os
import re
import string

import numpy as np

import hftools.utils as hu
import hftools.constants.waveguide as wg
import hftools.constants as const
from hftools import path
from hfmon.core import Property

PROP = Property(
    "C14", "Random names mixing text and digit runs (leading zeros, long "
    "numbers, equal prefixes, numbered files on disk) are ordered and "
    "compared pairwise with a scalar natural-order rule; uniqueness, "
    "flattening and conversion are compared with naive definitions; every "
    "entry of the waveguide table is checked against the dispersion "
    "relation. Distinct state = (alphabet, length, size).",
    ["names that are equal as natural keys (1 and 01) may come in either "
     "order", "where a digit run meets text at the same position the order "
     "is only required to be consistent"])


def runs(s):
    out = []
    for c in s:
        if out and out[-1][-1].isdigit() == c.isdigit():
            out[-1] += c
        else:
            out.append(c)
    return out


def before(a, b):
    """-1/0/1, or None when a digit run meets text."""
    ra, rb = runs(a), runs(b)
    for x, y in zip(ra, rb):
        if x.isdigit() and y.isdigit():
            i, j = int(x), int(y)
        elif x.isdigit() or y.isdigit():
            return None
        else:
            i, j = x, y
        if i != j:
            return -1 if i < j else 1
    if len(ra) != len(rb):
        return -1 if len(ra) < len(rb) else 1
    return 0


def name(ctx, alpha):
    s = ""
    for _ in range(ctx.randint(1, 3)):
        if ctx.chance(.6):
            s += "".join(ctx.choice(alpha) for _ in range(ctx.randint(1, 3)))
        if ctx.chance(.7):
            v = ctx.randint(0, 10 ** ctx.randint(1, 12))
            if ctx.chance(.1):              # serial numbers
                v = 10 ** ctx.choice([16, 18, 24]) + ctx.randint(0, 9)
            s += ctx.choice(["%d", "%d", "%03d"]) % v
    return s or "a"


def check_order(ctx, out, lista):
    ctx.check(sorted(out) == sorted(lista), "not a permutation", got=out)
    for i, a in enumerate(out):
        for b in out[i + 1:]:
            r = before(a, b)
            if r is not None:
                ctx.check(r <= 0, "%r comes before %r" % (a, b), got=out)
                ctx.ev("pair ordered")


@PROP.family(quick=4000, floors=["pair ordered"])
def order(ctx):
    alpha = ctx.choice(["ab", "abAB_", "s.-_ ", string.ascii_letters])
    lista = [name(ctx, alpha) for _ in range(ctx.randint(0, 12))]
    if ctx.chance(.5):
        stem = name(ctx, "ab")
        if stem[-1].isdigit():
            stem += "_"
        lista += ["%s%d.s2p" % (stem, k)
                  for k in ctx.sample(list(range(0, 120)), 6)]
    arg = lista if ctx.chance(.7) else tuple(lista)
    keep = list(lista)
    out = hu.lex_order(arg)
    check_order(ctx, out, lista)
    ctx.check(lista == keep, "input list changed")
    # independent of the order of the input
    ctx.check(hu.lex_order(ctx.shuffled(lista)) == out,
              "order depends on the input order", got=out)
    ctx.state(alpha, len(lista), len(set(lista)))


@PROP.family(quick=200, floors=["file listed"])
def files(ctx):
    d = ctx.dir
    ext = ctx.choice([".s2p", ".txt", ".mdif"])
    nums = ctx.sample(list(range(200)), ctx.randint(1, 20))
    pat = ctx.choice(["f%d", "m_%d_x", "%d", "a%03d"])
    want = [pat % k + ext for k in sorted(nums)]
    for k in ctx.shuffled(want):
        open(os.path.join(d, k), "w").close()
    open(os.path.join(d, "other.dat"), "w").close()
    out = hu.glob(os.path.join(d, "*" + ext))
    ctx.check([os.path.basename(x) for x in out] == want,
              "numbered files out of sequence", got=out, want=want)
    ctx.check(hu.glob(os.path.join(d, "nosuch*")) == [], "empty pattern")
    ctx.ev("file listed", len(want))
    p = path(d)
    ctx.check(sorted(x.basename() for x in p.files("*" + ext)) ==
              sorted(want), "path.files")
    f = p / want[0]
    ctx.check(f == os.path.join(d, want[0]) and f.exists() and f.isfile(),
              "path join")
    ctx.check(f.basename() == want[0] and f.dirname() == d and
              f.ext == ext and f.namebase == want[0][:-len(ext)],
              "path parts", got=(f.basename(), f.dirname(), f.ext,
                                 f.namebase))
    ctx.check(f.splitext()[1] == ext and f.splitpath()[1] == want[0],
              "path split")
    hu.make_dirs(d, "x", "y")
    hu.make_dirs(d, "x", "y")
    ctx.check(os.path.isdir(os.path.join(d, "x", "y")), "make_dirs")
    ctx.state(pat, ext, len(nums))


@PROP.family(quick=5000, floors=["unique checked"])
def unique(ctx):
    kind = ctx.choice(["int", "float", "str", "mixed", "any"])
    n = ctx.randint(0, 15)
    pool = {"int": list(range(-3, 4)), "float": [0., -1.5, 2.5, 1e-9, 7.],
            "str": ["a", "b", "A", "", "10", "9"],
            "mixed": [0, 1.5, 2, 2.0, -3.25, True, np.float64(1.5)],
            "any": [1, "1", 1.0, True, None, "None", [1, 2], "[1, 2]",
                    (1, 2), {"a": 1}, 1j, -1, "a"]}[kind]
    data = [ctx.choice(pool) for _ in range(n)]
    if kind in ("int", "float") and ctx.chance(.01):
        n = ctx.choice([300, 1100, 2500])       # many values
        data = [ctx.randint(-n, n) for _ in range(n)]
        if kind == "float":
            data = [x / 4. for x in data]
    want = []
    for x in data:
        if not any(x == y for y in want):
            want.append(x)
    arg = ctx.choice([data, tuple(data), iter(list(data)),
                      np.array(data) if kind in ("int", "float") else data])
    keep = list(data)
    got = hu.stable_uniq(arg)
    ctx.check(list(got) == want, "stable_uniq", got=got, want=want)
    if kind != "any":
        got = hu.uniq(np.array(data).reshape(-1, 1) if kind == "float" and
                      ctx.chance(.5) else data)
        ctx.check(list(got) == sorted(want), "uniq", got=got,
                  want=sorted(want))
    ctx.check(data == keep, "input changed")
    ctx.ev("unique checked")
    ctx.state(kind, n, len(want))


def nested(ctx, depth, out):
    res = []
    for _ in range(ctx.randint(0, 4)):
        if depth and ctx.chance(.4):
            x = nested(ctx, depth - 1, out)
            res.append(tuple(x) if ctx.chance(.4) else x)
        else:
            v = ctx.choice([1, "ab", None, 2.5, {"k": [1]}, "", 0])
            out.append(v)
            res.append(v)
    return res


@PROP.family(quick=4000, floors=["flattened"])
def flat(ctx):
    want = []
    lista = nested(ctx, 4, want)
    r = repr(lista)
    got = hu.flatten(lista if ctx.chance(.5) else tuple(lista))
    ctx.check(got == want, "flatten", got=got, want=want)
    ctx.check(repr(lista) == r, "flatten changed its input")
    ctx.ev("flattened")
    ctx.state(r)


@PROP.family(quick=10000, floors=["integer", "float", "date", "text",
                                  "number"])
def numeric(ctx):
    k = ctx.randint(0, 4)
    if k == 0:
        v = ctx.randint(-10 ** ctx.randint(1, 15), 10 ** 15)
        s = ctx.choice(["%d", " %d ", "%+d", "%05d"]) % v
        got = hu.to_numeric(s, ctx.chance(.5))
        ctx.check(isinstance(got, int) and got == v, "integer %r" % s,
                  got=got)
        ctx.ev("integer")
    elif k == 1:
        v = float(ctx.rng.normal()) * 10.0 ** ctx.randint(-20, 20)
        s = ctx.choice(["%r", " %r ", "%.17e", "%.17E"]) % v
        got = hu.to_numeric(s, ctx.chance(.5))
        ctx.check(isinstance(got, float) and got == v, "float %r" % s,
                  got=got)
        ctx.ev("float")
    elif k == 2:
        d = datetime.datetime(ctx.randint(1900, 2099), ctx.randint(1, 12),
                              ctx.randint(1, 28), ctx.randint(0, 23),
                              ctx.randint(0, 59), ctx.randint(0, 59))
        sec = ctx.chance(.5)
        s = d.strftime("%Y-%m-%d %H:%M" + (":%S" if sec else ""))
        got = hu.to_numeric(s)
        if not sec:
            d = d.replace(second=0)
        ctx.check(isinstance(got, np.datetime64) and
                  got == np.datetime64(d), "date %r" % s, got=got)
        ctx.ev("date")
    elif k == 3:
        s = ctx.choice(["abc", "1a", "", "1,5", "12 V", "0x10", "1e", "e1",
                        "1.2.3", "2010-13-01 10:00", "2010-10-19T", "--1",
                        "2010-10-19 10:00 x", "10:00", "1 2", "1/2"])
        ctx.raises(ValueError, lambda: hu.to_numeric(s, True),
                   "%r converted" % s)
        got = hu.to_numeric(s, False)
        ctx.check(got == s and isinstance(got, str), "text %r" % s, got=got)
        ctx.ev("text")
    else:
        v = ctx.choice([3, 2.5, 1j, np.float64(2), np.arange(3), True])
        got = hu.to_numeric(v)
        ctx.check(np.all(np.asarray(got) == np.asarray(v)), "number", got=got)
        ctx.check(hu.isnumber(3) and hu.isnumber(2.) and hu.isnumber(1j) and
                  not hu.isnumber("3"), "isnumber")
        ctx.check(hu.isrealnumber(3) and hu.isrealnumber(2.5) and
                  not hu.isrealnumber(1j) and not hu.isrealnumber("3"),
                  "isrealnumber")
        w = ctx.choice([np.int8, np.int16, np.int32, np.int64])
        ctx.check(hu.is_integer(np.array([1], w)) and not
                  hu.is_integer(np.array([1.])) and hu.is_integer(3) and
                  not hu.is_integer(3.), "is_integer")
        ctx.check(all(hu.is_numlike(x) for x in (
            [1, 2], [[3]], [1j], [.5], (2, 3), 1j, 2.5, np.int8(3),
            np.array([1], w), np.array([1], np.uint16),
            np.array(2.5, np.float32))), "is_numlike of numbers")
        ctx.check(not any(hu.is_numlike(x) for x in (
            ["a"], "1", None, [None], np.array([True]), b"x",
            np.array(["2010-10-19"], "datetime64[s]"))),
            "is_numlike of other things")
        ctx.check(hu.is_numlike(np.array([1j])) and hu.is_numlike(2) and
                  not hu.is_numlike("a") and not
                  hu.is_numlike(np.array(["a"])), "is_numlike")
        ctx.ev("number")
    ctx.state(k)


EIA = """WR650 WR510 WR430 WR340 WR284 WR229 WR187 WR159 WR137 WR112 WR90 WR75
WR62 WR51 WR42 WR34 WR28 WR22 WR19 WR15 WR12 WR10 WR8 WR7 WR5 WR4
WR3""".split()


@PROP.enum(len(EIA))
def waveguide(ctx):
    """fc = c/2a, the recommended band lies between fc and the next mode."""
    n = EIA[ctx.index]
    ctx.check(n in wg.WR, "%s missing" % n)
    w = wg.WR[n]
    ctx.check(w.EIA == n, "name", got=w.EIA)
    ctx.check(len(wg.WR) == len(EIA), "number of waveguides")
    num = int(n[2:])
    a, b = w.a * 1e-3, w.b * 1e-3                # mm
    fc = 299792458. / (2 * a)
    ctx.close(w.fcl, fc, "%s: cut-off from width" % n, rtol=2e-3)
    ctx.close(w.fcu, 2 * fc, "%s: next mode from width" % n, rtol=2e-3)
    ctx.check(w.fcl < w.f0 < w.f1 < w.fcu, "%s: band edges" % n, got=w)
    ctx.close(w.a / 25.4 * 100, num, "%s: width from the name" % n,
              atol=.6, rtol=.01)
    ctx.check(.39 <= b / a <= .51, "%s: height" % n, got=b / a)
    ctx.check(1.1 < w.f0 / w.fcl < 1.4 and .8 < w.f1 / w.fcu < .97,
              "%s: recommended band" % n, got=w)
    ctx.check(re.match("WG[0-9]+A?$", w.RCSC) and re.match("R[0-9]+$", w.IEC),
              "%s: other names" % n)
    ctx.close(const.c0 ** 2 * const.epsilon * const.mu, 1., "constants",
              rtol=1e-9)
    ctx.close(const.boltzmann, 1.380649e-23, "boltzmann", rtol=1e-4)
    ctx.close(const.k, const.boltzmann, "k")
    ctx.close(const.qelectron, 1.602176634e-19, "electron charge", rtol=1e-5)
    ctx.close(const.planck, 6.62607015e-34, "planck", rtol=1e-5)
    ctx.ev("waveguide checked")
    ctx.state(n)
