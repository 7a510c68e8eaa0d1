"""C13: numbers with units are read and printed without changing value."""
from decimal import Decimal
from fractions import Fraction

import numpy as np

import hftools.constants.si_units as si
from hftools.constants import (unit_to_multiplier, SIFormat,
                               string_number_with_unit_to_value,
                               convert_with_unit)
from hftools.dataset import hfarray
from hftools.utils import to_numeric
from hfmon.core import Property
from hfmon.model import plain

PROP = Property(
    "C13", "Numbers are written in every notation (signs, bare decimals, "
    "exponents of one to three digits, upper and lower case) with every "
    "prefix, unit, spacing and bracket style and parsed; the exact rational "
    "value is the oracle. Numbers over 51 decades are formatted and the "
    "printed mantissa and prefix are multiplied out exactly. Distinct state "
    "= (notation, prefix, unit, spacing) or (decade, digits).",
    ["no text follows the unit", "prefixes are used for 1e-24 <= |x| < 1e27"])

PREFIX = {"": 0, "d": -1, "c": -2, "m": -3, "u": -6, "n": -9, "p": -12,
          "f": -15, "a": -18, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15,
          "E": 18}
PRINT = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21,
         "Y": 24, "m": -3, "u": -6, "n": -9, "p": -12, "f": -15, "a": -18,
         "z": -21, "y": -24, u"\u03bc": -6, u"\u00b5": -6}
UNITS = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]
OTHER = ["dBm", "dB", "sec", "deg", "K", "C", "mXYZ", "xyz", "dBc", "rad",
         "eV", "T", "G", "E", "e", "min", "Pa"]


def number(ctx, maxexp=12):
    """(text, exact value)"""
    sign = ctx.choice(["", "", "-", "+"])
    n = ctx.randint(1, 6)
    digits = "".join(str(ctx.randint(0, 9)) for _ in range(n))
    form = ctx.randint(0, 3)
    if form == 0:
        body = digits
    elif form == 1:
        body = digits + "."
    elif form == 2:
        body = "." + digits
    else:
        k = ctx.randint(1, 4)
        body = digits + "." + "".join(str(ctx.randint(0, 9))
                                      for _ in range(k))
    exp = ""
    ek = ctx.randint(0, 3)
    if ek:
        e = ctx.randint(0, maxexp)
        exp = ctx.choice("eE") + ctx.choice(["", "+", "-"]) + \
            ctx.choice(["%d", "%02d", "%03d"]) % e
    text = sign + body + exp
    return text, Fraction(Decimal(text)), (form, bool(exp), len(exp), sign)


def unit(ctx):
    """(unit text, exponent of ten, base unit)"""
    k = ctx.randint(0, 5)
    if k == 0:
        return None, 0, None
    if k == 1:
        return "%", -2, None
    if k == 2:
        u = ctx.choice(OTHER)
        return u, 0, u
    p = ctx.choice(sorted(PREFIX))
    u = ctx.choice(UNITS)
    return p + u, PREFIX[p], u


def near(ctx, got, exact, msg, **kw):
    want = float(exact)
    ctx.close(float(plain(got)), want, msg, rtol=1e-14, **kw)


@PROP.family(quick=20000, floors=["parsed", "prefix", "percent", "bracket"])
def parse(ctx):
    text, val, form = number(ctx)
    u, e, base = unit(ctx)
    s = text
    style = None
    if u:
        style = ctx.choice(["%s", " %s", "  %s", "[%s]", " [%s]", "\t%s"])
        if style == "%s" and u[0] in "eE" and False:
            style = " %s"
        s = text + style % u
        if "[" in style:
            ctx.ev("bracket")
        if u == "%":
            ctx.ev("percent")
        elif e:
            ctx.ev("prefix")
    if ctx.chance(.1):
        s += " "
    ctx.log("parse", repr(s))
    got = string_number_with_unit_to_value(s)
    near(ctx, got, val * Fraction(10) ** e, "value of %r" % s)
    ctx.check(got.unit == base, "unit of %r" % s, got=got.unit, want=base)
    ctx.check(got.ndim == 0, "not a scalar")
    ctx.ev("parsed")
    ctx.state(form, u, style)


@PROP.family(quick=8000, floors=["converted"])
def convert(ctx):
    text, val, form = number(ctx)
    u, e, base = unit(ctx)
    arg = u
    if u and ctx.chance(.3):
        arg = " %s " % u
    if u is None and ctx.chance(.5):
        arg = ""
    value = text
    if arg is None:
        value = float(val)          # unit given as none: value as it is
    elif ctx.chance(.3):
        value = float(val)
    ctx.log("convert_with_unit", repr(arg), repr(value))
    got = convert_with_unit(arg, value)
    near(ctx, got, val * Fraction(10) ** e, "value %r %r" % (value, arg))
    ctx.check(got.unit == base, "unit of %r" % arg, got=got.unit)
    if u:
        mul, b = unit_to_multiplier(arg)
        near(ctx, mul, Fraction(10) ** e, "multiplier of %r" % arg)
        ctx.check(b == base, "base unit of %r" % arg, got=b)
    ctx.check(unit_to_multiplier("#") == (1, None), "unit #")
    ctx.ev("converted")
    ctx.state(u, form)


@PROP.enum(len(PREFIX) * len(UNITS))
def table(ctx):
    p = sorted(PREFIX)[ctx.index // len(UNITS)]
    u = UNITS[ctx.index % len(UNITS)]
    mul, b = unit_to_multiplier(p + u)
    near(ctx, mul, Fraction(10) ** PREFIX[p], "multiplier of %s" % (p + u))
    ctx.check(b == u, "base unit of %s" % (p + u), got=b)
    near(ctx, getattr(si.siunits, p + u), Fraction(10) ** PREFIX[p],
         "siunits.%s" % (p + u))
    ctx.ev("prefix table entry")
    ctx.state(p, u)


@PROP.family(quick=3000, floors=["rejected", "number passed"])
def reject(ctx):
    s = ctx.choice(["aa", "", "GHz", "e5", "V 5", "1.2.3", "--3", "+-4",
                    "2010-10-19 16:01:26", "2002-10-25", "192.168.0.1",
                    "Hz 12", "-", "+", ".", "..", "1-2", "x1", "[V]", "%"])
    ctx.raises(ValueError, lambda: string_number_with_unit_to_value(s),
               "%r parsed as a number" % s)
    ctx.ev("rejected")
    v = ctx.choice([5, 5., -2.25, 0, 10 ** 12])
    ctx.check(string_number_with_unit_to_value(v) == v, "number passed on")
    ctx.ev("number passed")
    ctx.state(s)


@PROP.family(quick=20000, floors=["formatted", "negative", "SIFormat"])
def fmt(ctx):
    k = ctx.randint(0, 5)
    dec = ctx.randint(-24, 26)
    if k == 0:
        x = float("%de%d" % (ctx.randint(1, 9), dec))
    elif k == 1:
        x = float("1e%d" % dec)
    elif k == 2:
        x = float("9.99999%d" % ctx.randint(0, 99)) * float("1e%d" % dec)
    else:
        x = float(ctx.rng.uniform(1, 9.99)) * float("1e%d" % dec)
    if ctx.chance(.05):
        x = 0.0
    if x and not 1e-24 <= abs(x) < 9.9999e26:
        x = 1.5
    if ctx.chance(.3):
        x = -x
        ctx.ev("negative")
    if abs(x) < 1e15 and x == int(x) and ctx.chance(.3):
        x = int(x)
    digs = ctx.choice([0, 1, 2, 3, 3, 6, None])
    unit = ctx.choice(["", "Hz", "V", "Ohm", "s"])
    greek = ctx.chance(.3)
    arg = x if ctx.chance(.7) else (np.float64(x) if isinstance(x, float)
                                    else x)
    if ctx.chance(.5):
        s = si.format_number(arg, unit=unit, digs=digs, greek=greek)
    else:
        f = SIFormat(unit=unit if unit or ctx.chance(.5) else None,
                     digs=digs, greek=greek)
        s = f % arg
        ctx.ev("SIFormat")
    ctx.log("format", repr(x), digs, unit, "->", repr(s))
    parts = s.split(" ")
    ctx.check(len(parts) == 2, "not 'number unit'", got=s)
    num, pu = parts
    ctx.check(pu.endswith(unit), "unit missing", got=s)
    pre = pu[:len(pu) - len(unit)] if unit else pu
    ctx.check(pre in PRINT, "unknown prefix %r" % pre, got=s)
    if pre in (u"\u03bc", u"\u00b5", "u"):
        ctx.check((pre != "u") == greek, "greek micro", got=s)
    val = Fraction(Decimal(num)) * Fraction(10) ** PRINT[pre]
    want = Fraction(x)
    tol = abs(want) * Fraction(1, 10 ** 12)
    if digs is not None:
        ctx.check(len(num.partition(".")[2]) == digs, "number of decimals",
                  got=num, digs=digs)
        tol += Fraction(1, 2) * Fraction(10) ** (PRINT[pre] - digs)
    ctx.check(abs(val - want) <= tol, "printed value differs", got=s,
              want=x)
    if x:
        m = abs(Fraction(Decimal(num)))
        ctx.check(Fraction(999, 1000) <= m or digs == 0 and m >= 0,
                  "mantissa below one", got=s)
        ctx.check(m <= 1000, "mantissa too large", got=s)
    # what is printed with a plain prefix reads back
    if unit and not greek and pre in PREFIX and digs is not None:
        back = string_number_with_unit_to_value(s)
        near(ctx, back, val, "printed text reads back", s=s)
        ctx.check(back.unit == unit, "unit reads back", got=back.unit)
        ctx.ev("read back")
    ctx.ev("formatted")
    ctx.state(dec, digs, unit, k)


@PROP.family(quick=200, floors=["infinite"])
def special(ctx):
    s = ctx.choice([1, -1])
    t = si.format_number(s * np.inf, unit="Hz")
    ctx.check(t == ("inf Hz" if s > 0 else "-inf Hz"), "infinity", got=t)
    f = si.format_number(4e9, fmt="%(num)s<%(unit)s>", unit="Hz", digs=1)
    ctx.check(f == "4.0<GHz>", "template", got=f)
    ctx.ev("infinite")
    ctx.state(s)


@PROP.family(quick=400, floors=["beyond the prefixes"])
def extreme(ctx):
    """numbers that no prefix reaches are printed all the same"""
    if ctx.chance(.1):
        t = si.format_number(np.nan, unit="V")
        ctx.check(t == "nan V", "not a number", got=t)
        return
    x = ctx.choice([1, -1]) * ctx.rng.uniform(1, 9.9) * \
        10. ** ctx.choice([ctx.randint(28, 250), ctx.randint(-250, -26)])
    digs = ctx.choice([0, 2, 3, 6, None])
    t = SIFormat(unit="V", digs=digs) % x
    num, unit = t.split(" ")
    ctx.check(unit == "V", "unit", got=t)
    tol = 1e-12 if digs is None else .51 * 10. ** -digs
    ctx.check(abs(float(num) / x - 1) <= tol, "printed value differs", got=t,
              want=x)
    ctx.ev("beyond the prefixes")
    ctx.state("extreme", digs)
