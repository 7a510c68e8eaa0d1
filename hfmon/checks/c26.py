"""C26: header comments become properties and survive."""
import datetime
from fractions import Fraction

import numpy as np

import hftools.dataset.comments as dc
import hftools.file_formats.common as fc
from hftools.dataset import DataBlock, hfarray
from hfmon.checks.c13 import number, unit
from hfmon.core import Property
from hfmon.model import plain, snap

PROP = Property(
    "C26", "Random headers (numbers in every notation with trailing or "
    "bracketed units, dates, free text, comments that are no properties, "
    "repeated names) are given to both comment classes and compared with "
    "the generated meaning; sets are extended and copied in random order. "
    "Distinct state = (class, value kind, separator, unit style).",
    ["names contain no colon, equals sign or bracket",
     "a value that begins with a number is a number (hftools ignores text "
     "after it), so text values start with a letter"])

CLASSES = [dc.Comments, fc.Comments]
WORDS = ["Cal kit", "No Biasing/Passive", "OML WR-03", "N/A", "TRL cal",
         "raw waves", "Agilent E8361A", "x", "text with 3 numbers",
         "2010-10-19 16:01:26 CET", "2002-10-25, 09:09",
         "2010-10-19 25:00", "2010-10-19 16:01 and more",
         "Done!", "T = 3", "a: b", "http://host/x?y=1", "LIN"]
NAMES = ["Vgs", "START Time", "Port1Ext_Time", "RF_Power1", "a.b", "P",
         "Smoothing", "MV_8_104_GT1", "Description of DUT", "q-1", "x/y"]


def prop(ctx):
    """(name, comment text, kind, value, unit)"""
    name = ctx.choice(NAMES)
    kind = ctx.choice(["number", "number", "bracket", "bracket", "date",
                       "text", "btext", "bdate"])
    sep = ctx.choice([":", "=", " : ", " = ", "  :  ", ": ", " ="])
    style = None
    if kind == "number":
        t, v, _ = number(ctx)
        u, e, base = unit(ctx)
        s = t + (ctx.choice(["%s", " %s", " [%s]", "[%s]"]) % u if u else "")
        out = (name, name + sep + s, kind, v * Fraction(10) ** e, base)
    elif kind == "bracket":
        t, v, _ = number(ctx)
        u, e, base = unit(ctx)
        if u is None:
            u = " "
        elif ctx.chance(.2):
            u, e, base = ctx.choice([("#", 0, None), ("1=ON", 0, "1=ON"),
                                     ("dB/GHz", 0, "dB/GHz"),
                                     ("C", 0, "C")])
        style = ctx.choice(["%s[%s]", "%s [%s]", "%s   [%s] "])
        out = (name, style % (name, u) + sep + t, kind,
               v * Fraction(10) ** e, base)
    elif kind in ("date", "bdate"):
        d = datetime.datetime(ctx.randint(1970, 2099), ctx.randint(1, 12),
                              ctx.randint(1, 28), ctx.randint(0, 23),
                              ctx.randint(0, 59), ctx.randint(0, 59))
        how = ctx.choice(["day", "min", "sec", "sec", "frac"])
        s = d.strftime("%Y-%m-%d")
        if how == "day":
            d = d.replace(hour=0, minute=0, second=0)
        else:
            s += ctx.choice([" ", "  ", "\t"]) + d.strftime("%H:%M")
        if how == "min":
            d = d.replace(second=0)
        elif how != "day":
            s += d.strftime(":%S")
        if how == "frac":
            p = ctx.choice([3, 3, 1, 2, 4, 5, 6])
            f = ctx.randint(0, 10 ** p - 1)
            d = d.replace(microsecond=f * 10 ** (6 - p))
            s += ".%0*d" % (p, f)
        if kind == "bdate":
            out = (name, "%s [UTC]%s%s" % (name, sep, s), kind, s, None)
        else:
            out = (name, name + sep + s, "day" if how == "day" else kind, d,
                   None)
    elif kind == "text":
        s = ctx.choice(WORDS)
        out = (name, name + sep + s, kind, s, None)
    else:
        s = ctx.choice(WORDS)
        style = "%s [%s]"
        out = (name, style % (name, ctx.choice(["V", "GHz", " "])) + sep + s,
               "text", s, None)
    ctx.state(kind, sep, style)
    return out


def check(ctx, got, kind, val, base, what):
    if kind in ("number", "bracket"):
        ctx.check(isinstance(got, hfarray), "%s: not a number" % what,
                  got=got)
        ctx.close(float(plain(got)), float(val), "%s: value" % what,
                  rtol=1e-14)
        ctx.check(got.unit == base, "%s: unit" % what, got=got.unit,
                  want=base)
        ctx.ev("numeric property")
    elif kind == "date":
        ctx.check(isinstance(got, np.datetime64) and
                  got == np.datetime64(val), "%s: date" % what, got=got,
                  want=val)
        ctx.ev("date property")
    elif kind == "day":
        # dates without time are left as text by dataset.Comments
        ok = got == val.strftime("%Y-%m-%d") if isinstance(got, str) else \
            isinstance(got, np.datetime64) and got == np.datetime64(val)
        ctx.check(ok, "%s: date" % what, got=got, want=val)
        ctx.ev("date property")
    elif kind == "bdate":
        ok = isinstance(got, str) and got.split() == val.split() or \
            isinstance(got, np.datetime64)
        ctx.check(ok, "%s: date with unit" % what, got=got, want=val)
        ctx.ev("date with unit")
    else:
        ctx.check(got == val and isinstance(got, str), "%s: text" % what,
                  got=got, want=val)
        ctx.ev("text property")


def noprop(ctx):
    return ctx.choice(["free text", "Measurement data for connection # 1",
                       "PNA settings read from the instrument", "[dB]",
                       "Customer=", "Cable port 1:", "-----", "100 %"])


@PROP.family(quick=8000, floors=["numeric property", "date property",
                                 "text property", "other comment",
                                 "overridden"])
def header(ctx):
    cls = ctx.choice(CLASSES)
    lines, want, full = [], {}, []
    for _ in range(ctx.randint(0, 8)):
        if ctx.chance(.25):
            t = noprop(ctx)
            ctx.ev("other comment")
        else:
            n, t, kind, v, b = prop(ctx)
            if n in want:
                ctx.ev("overridden")
            want[n] = (t, kind, v, b)
        lines.append(ctx.choice(["%s", "!%s", "! %s", "!  %s "]) % t)
        full.append(t)
    keep = list(lines)
    ctx.log(cls.__module__, lines)
    how = ctx.randint(0, 2)
    if how == 0:
        c = cls(lines)
    elif how == 1:
        c = cls()
        c.add_from_comments(lines)
    else:
        c = cls(lines, Extra=17)
    if how == 2:
        ctx.check(c.property.pop("Extra") == 17, "keyword property")
    ctx.check(lines == keep, "list of comments changed", got=lines)
    ctx.check(sorted(c.property) == sorted(want), "names of properties",
              got=sorted(c.property), want=sorted(want))
    for n, (t, kind, v, b) in want.items():
        check(ctx, c.property[n], kind, v, b, repr(t))
        if kind == "day" and cls is fc.Comments:
            ctx.check(isinstance(c.property[n], np.datetime64),
                      "date left as text", got=c.property[n])
    if how != 1 or cls is dc.Comments:
        got = [x.lstrip("!").strip() for x in c.fullcomments]
        ctx.check(got == [x.strip() for x in full], "comments retained",
                  got=got, want=full)
    repr(c), c.table()
    mod = dc if cls is dc.Comments else fc
    for n, (t, kind, v, b) in want.items():
        r = mod.process_comment(t)
        ctx.check(list(r) == [n], "process_comment", got=r)
        check(ctx, r[n], kind, v, b, repr(t))
    ctx.state(cls.__module__, how, len(lines))


@PROP.family(quick=3000, floors=["extended", "copied"])
def sets(ctx):
    """extend: the other set wins; sources stay as they are."""
    cls = ctx.choice(CLASSES)
    pool = []
    for _ in range(3):
        src = [prop(ctx)[1] for _ in range(ctx.randint(0, 4))]
        if ctx.chance(.3):
            src.append(noprop(ctx))
        if ctx.chance(.15):
            src.insert(ctx.randint(0, len(src)), ctx.choice(["", " "]))
        pool.append((cls(src), src, list(src)))
    model = [(list(c.fullcomments), dict(c.property)) for c, _, _ in pool]
    for _ in range(ctx.randint(1, 8)):
        i = ctx.randint(0, len(pool) - 1)
        j = ctx.randint(0, len(pool) - 1)
        k = ctx.randint(0, 3)
        if k == 0 and i != j:
            ctx.log("extend", i, "by", j)
            pool[i][0].extend(pool[j][0])
            f, p = model[i]
            f.extend(model[j][0])
            p.update(model[j][1])
            ctx.ev("extended")
        elif k == 1 and len(pool) < 6:
            ctx.log("copy", i)
            pool.append((pool[i][0].copy(), [], []))
            model.append((list(model[i][0]), dict(model[i][1])))
            ctx.ev("copied")
        elif k == 2:
            ctx.log("set property", i)
            pool[i][0].property["new"] = ctx.index
            model[i][1]["new"] = ctx.index
        else:
            ctx.log("add", i)
            pool[i][0].add_from_comment("added = text")
            model[i][1]["added"] = "text"
            if cls is dc.Comments:
                model[i][0].append("added = text")
        for n, ((c, src, orig), (f, p)) in enumerate(zip(pool, model)):
            got = [x for x in c.fullcomments if cls is dc.Comments or
                   x != "added = text"]
            ctx.check(got == f, "comments of set %d" % n, got=c.fullcomments,
                      want=f)
            ctx.check(snap(c.property) == snap(p) or
                      sorted(map(repr, c.property.items())) ==
                      sorted(map(repr, p.items())),
                      "properties of set %d" % n, got=c.property, want=p)
            ctx.check(src == orig, "source list of set %d changed" % n,
                      got=src)
    ctx.state(cls.__module__, len(pool), len(model[0][1]))


@PROP.family(quick=2000, floors=["property became variable"])
def variables(ctx):
    """values_from_property: numeric and text properties become variables."""
    lines, want = [], {}
    for _ in range(ctx.randint(1, 6)):
        n, t, kind, v, b = prop(ctx)
        want[n] = (t, kind, v, b)
        lines.append(t)
    db = DataBlock()
    own = ctx.choice(NAMES)
    db[own] = hfarray(12345.)
    db.comments = ctx.choice(CLASSES)(lines)
    before = snap(db.comments)
    db.values_from_property()
    ctx.check(snap(db.comments) == before, "comments changed")
    ctx.check(float(plain(db.vardata[own])) == 12345., "variable overwritten")
    for n, (t, kind, v, b) in want.items():
        if n == own:
            continue
        ctx.check(n in db.vardata, "property %s lost" % n)
        got = db.vardata[n]
        if kind in ("number", "bracket"):
            ctx.close(float(plain(got)), float(v), "variable %s" % n,
                      rtol=1e-14)
            ctx.check(got.unit == b, "unit of variable %s" % n, got=got.unit)
        elif kind == "date":
            ctx.check(plain(got) == np.datetime64(v), "variable %s" % n,
                      got=got)
        elif kind == "text":
            ctx.check(str(plain(got)) == v, "variable %s" % n, got=got)
        ctx.ev("property became variable")
    ctx.check(set(db.vardata.keys()) == set(want) | {own}, "variables",
              got=db.vardata.keys())
    ctx.state(len(want), own in want)
