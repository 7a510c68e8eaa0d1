"""C27: configuration files with lexical scoping."""
import contextlib
import datetime
import io
import math

from hftools.file_formats.config import LexicalConfig, Config, SIValue, \
    MergedDicts, LexicalScopeDict, LexicalScopeList
from hfmon.core import Property, Skip

PROP = Property(
    "C27", "Random nested configurations (sections, lists of sections, "
    "numbers in all notations with SI prefixes and units, percentages, ppm, "
    "intervals, dates, clock times, texts, flow and block style) are written "
    "as YAML by an independent emitter, loaded, and every name is looked up "
    "in every section, in lock-step with a nested model, through histories "
    "of setting, deleting, updating, reloading, writing and copying. "
    "Distinct state = (tree shape, value kinds, history).",
    ["text of a single letter prefix that is also a unit (5 m) is not used",
     "sections are those of the file; values set later are not sections"])

PRE = dict([("", 1.), ("m", 1e-3), ("u", 1e-6), ("n", 1e-9), ("p", 1e-12),
            ("k", 1e3), ("M", 1e6), ("G", 1e9), ("T", 1e12), ("f", 1e-15),
            ("c", .01), ("d", .1)])
UNITS = ["Hz", "V", "A", "s", "W", "Ohm", "m"]
KEYS = ["a", "b", "gpib", "ifbw", "name with blanks", "x_1", "Vds", u"\xe5",
        "top"]
SECS = ["VNA", "dc", "sub section", "inner", "list", "other"]


class Exact(object):
    """What a value must be after loading."""

    def __init__(self, v, unit=None, tol=0):
        self.v, self.unit, self.tol = v, unit, tol


def number(ctx):
    v = ctx.choice([ctx.rng.uniform(-100, 100), float(ctx.randint(-50, 50)),
                    ctx.rng.normal() * 10.0 ** ctx.rng.integers(-9, 9)])
    t = ctx.choice(["%d", "%.3f", "%.2e", "%.1E", "%.6f", "%+.2f"]) % v
    return t, float(t)


def scalar(ctx):
    """(yaml text, Exact, kind)"""
    k = ctx.choice(["si", "si", "si", "percent", "interval", "date",
                    "datetime", "short", "int", "float", "text", "odd",
                    "bool", "none", "prefix"])
    if k == "si":
        t, v = number(ctx)
        p, u = ctx.choice(sorted(PRE)), ctx.choice(UNITS)
        if p == "" and u == "m":
            u = "V"
        return (t + ctx.choice(["", " ", "  "]) + p + u,
                Exact(v * PRE[p], u, 1e-15), k)
    if k == "prefix":
        t, v = number(ctx)
        p = ctx.choice(["k", "M", "u", "n", "G"])
        return t + ctx.choice(["", " "]) + p, Exact(v * PRE[p], None, 1e-15), k
    if k == "percent":
        t, v = number(ctx)
        p, m = ctx.choice([("%", 1e-2), ("ppm", 1e-6), ("ppb", 1e-9)])
        return t + ctx.choice(["", " "]) + p, Exact(v * m, None, 1e-15), k
    if k == "interval":
        out, s = [], 0.
        for nm, q in (("day", 86400), ("hour", 3600), ("minute", 60),
                      ("second", 1)):
            if ctx.chance(.4):
                n = ctx.randint(0, 99)
                t = "%d" % n
                if ctx.chance(.3):
                    t = "%d.5" % n
                s += float(t) * q
                out.append("%s %s%s" % (t, nm, ctx.choice(["", "s"])))
        if not out:
            out, s = ["2 days"], 2 * 86400.
        return " ".join(out), Exact(datetime.timedelta(seconds=s)), k
    y, mo, d, h, mi, se = (ctx.randint(1990, 2030), ctx.randint(1, 12),
                           ctx.randint(1, 28), ctx.randint(0, 23),
                           ctx.randint(0, 59), ctx.randint(0, 59))
    if k == "date":
        return "%04d-%02d-%02d" % (y, mo, d), Exact(datetime.date(y, mo, d)), k
    if k == "datetime":
        return ("%04d-%02d-%02d %02d:%02d:%02d" % (y, mo, d, h, mi, se),
                Exact(datetime.datetime(y, mo, d, h, mi, se)), k)
    if k == "short":
        return ("%04d-%02d-%02d %02d:%02d" % (y, mo, d, h, mi),
                Exact(datetime.datetime(y, mo, d, h, mi)), k)
    if k == "int":
        n = ctx.randint(-99, 9999)
        return "%d" % n, Exact(n), k
    if k == "float":
        v = float("%.5g" % ctx.rng.normal())
        return "%.6f" % v, Exact(float("%.6f" % v)), k
    if k == "bool":
        b = ctx.chance(.5)
        return ("true" if b else "false"), Exact(b), k
    if k == "none":
        return ctx.choice(["", "null", "~"]), Exact(None), k
    if k == "odd":
        t = ctx.choice(["5 mV", "12:30", "3 %", "", "null", "2 days", "7",
                        "2010-10-10", "true", "1e3", "a: b", "# no"])
        return ctx.choice(["'%s'", '"%s"']) % t, Exact(t), k
    t = ctx.choice(["hello", "GPIB0", "two words", "5 apples", "12:30 lunch",
                    "2014-01-02 12:30 notes", "mV", "x%", "3 days ago",
                    "10 mVolt", "1.2.3", u"\xe5\xe4"])
    return t, Exact(t), k


class Node(object):
    """Model of a section (dict) or list."""

    def __init__(self, parent, islist=False):
        self.parent, self.islist = parent, islist
        self.items = [] if islist else {}

    def lookup(self, key):
        n = self
        while n is not None:
            if not n.islist and key in n.items:
                return n.items[key]
            n = n.parent
        raise KeyError(key)

    def deep(self):
        it = self.items if self.islist else self.items.values()
        yield self
        for x in it:
            if isinstance(x, Node):
                for y in x.deep():
                    yield y


def build(ctx, parent, depth, kinds):
    n = Node(parent)
    for k in ctx.sample(KEYS, ctx.randint(0 if parent else 1, 4)):
        n.items[k] = None
    if depth < 3:
        for k in ctx.sample(SECS, ctx.choice([0, 1, 1, 2]) if parent
                            else ctx.randint(1, 3)):
            n.items[k] = ctx.choice(["sec", "sec", "list"])
    keys = ctx.shuffled(list(n.items))
    n.items = dict((k, n.items[k]) for k in keys)
    n.text = {}
    for k, v in n.items.items():
        if v is None:
            n.text[k], n.items[k], kd = scalar(ctx)
            kinds.add(kd)
        elif v == "sec":
            n.items[k] = build(ctx, n, depth + 1, kinds)
        else:
            n.items[k] = blist(ctx, n, depth + 1, kinds)
    return n


def blist(ctx, parent, depth, kinds):
    l = Node(parent, True)
    l.text = {}
    for i in range(ctx.randint(1, 4)):
        if ctx.chance(.5) or depth >= 3:
            l.text[i], v, kd = scalar(ctx)
            kinds.add(kd)
        elif ctx.chance(.2):
            v = blist(ctx, l, depth + 1, kinds)
        else:
            v = build(ctx, l, depth + 1, kinds)
        l.items.append(v)
    return l


def emit(n, ind=0):
    pad = "  " * ind
    out = []
    if n.islist:
        for i, v in enumerate(n.items):
            if isinstance(v, Node):
                sub = emit(v, ind + 1)
                if not v.items:
                    out.append(pad + "- {}")
                else:
                    out.append(pad + "-")
                    out += sub
            else:
                out.append(pad + "- " + n.text[i])
        return out
    for k, v in n.items.items():
        if isinstance(v, Node):
            if v.items:
                out.append("%s%s:" % (pad, k))
                out += emit(v, ind + 1)
            else:
                out.append("%s%s: {}" % (pad, k))
        else:
            out.append("%s%s: %s" % (pad, k, n.text[k]))
    return out


def check_value(ctx, got, want, what, loaded=True):
    if isinstance(want, Node):
        compare(ctx, got, want, what, loaded)
        return
    v = want.v
    if isinstance(v, float) and not isinstance(v, bool):
        ctx.check(isinstance(got, float) and
                  abs(got - v) <= want.tol * abs(v) or got == v,
                  "%s: number" % what, got=got, want=v)
        u = getattr(got, "unit", None)
        ctx.check(u == want.unit, "%s: unit" % what, got=u, want=want.unit)
    else:
        ctx.check((type(got) is type(v) or isinstance(v, list)) and got == v, "%s: value" % what,
                  got=got, want=v)
    ctx.ev("value compared")


def compare(ctx, got, want, what, lexical=True):
    if want.islist:
        ctx.check(isinstance(got, list) and len(got) == len(want.items),
                  "%s: list" % what, got=got)
        for i, v in enumerate(want.items):
            check_value(ctx, got[i], v, "%s[%d]" % (what, i), lexical)
        return
    ctx.check(isinstance(got, dict), "%s: section" % what, got=type(got))
    ctx.check(sorted(got.keys()) == sorted(want.items) and
              len(got) == len(want.items), "%s: names" % what,
              got=list(got.keys()), want=list(want.items))
    for k, v in want.items.items():
        check_value(ctx, got[k], v, "%s/%s" % (what, k), lexical)


def real(cfg, node):
    """The section of the configuration that corresponds to the node."""
    path = []
    while node.parent is not None:
        p = node.parent
        if p.islist:
            path.append([i for i, x in enumerate(p.items) if x is node][0])
        else:
            path.append([k for k, x in p.items.items() if x is node][0])
        node = p
    for k in path[::-1]:
        cfg = cfg[k]
    return cfg


MISS = object()


def scopes(ctx, cfg, root):
    """Every name looked up in every section."""
    for n in root.deep():
        if n.islist:
            continue
        sec = real(cfg, n)
        for k in KEYS + SECS[:2] + ["nowhere"]:
            try:
                want = n.lookup(k)
            except KeyError:
                ctx.check(k not in sec, "name %r found" % k)
                ctx.check(sec.get(k, MISS) is MISS and sec.get(k) is None,
                          "default for %r" % k, got=sec.get(k, MISS))
                ctx.raises(KeyError, lambda: sec[k], "name %r found" % k)
                ctx.ev("name not in scope")
                continue
            ctx.check(k in sec, "name %r is in scope" % k)
            if isinstance(want, Node):
                ctx.check(sec[k] is real(cfg, want), "section %r" % k)
            else:
                check_value(ctx, sec[k], want, "name %r" % k)
                check_value(ctx, sec.get(k, MISS), want, "get %r" % k)
            ctx.ev("looked up own" if k in n.items else "looked up outer")


def save(ctx, p, root):
    with io.open(p, "w", encoding="utf-8") as f:
        f.write(u"\n".join(emit(root)) + u"\n")


def pyvalue(ctx):
    """(value to set, Exact)"""
    k = ctx.choice(["float", "int", "str", "si", "delta", "dt", "none",
                    "list"])
    if k == "float":
        v = ctx.choice([0.0, 1e20, -2.5, 1e-9, float(ctx.rng.normal())])
        return v, Exact(v)
    if k == "int":
        v = ctx.randint(-5, 10**6)
        return v, Exact(v)
    if k == "str":
        v = ctx.choice(["new", "5 mV", "", "12:30", "12:30:15", "yes", "3%",
                        "1 day", u"\xf6 x", "- a", "7", "2011-01-01 12:12",
                        "1e5", "0x10"])
        return v, Exact(v)
    if k == "si":
        t, v, = number(ctx)
        u = ctx.choice(["V", "Hz", "Ohm"])
        return SIValue(t + u), Exact(v, u)
    if k == "delta":
        d = datetime.timedelta(days=ctx.randint(-3, 9),
                               seconds=ctx.randint(0, 86399),
                               microseconds=ctx.choice([0, 0, 5, 500000]))
        if ctx.chance(.2):
            d = datetime.timedelta(0)
        return d, Exact(d)
    if k == "dt":
        d = datetime.datetime(2000 + ctx.randint(0, 30), ctx.randint(1, 12),
                              ctx.randint(1, 28), ctx.randint(0, 23),
                              ctx.randint(0, 59), ctx.choice([0, 7]),
                              ctx.choice([0, 0, 250000]))
        return d, Exact(d)
    if k == "none":
        return None, Exact(None)
    v = [ctx.randint(0, 9) for _ in range(ctx.randint(0, 3))]
    return v, Exact(v)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def clone(n, parent=None):
    c = Node(parent, n.islist)
    c.text = n.text
    if n.islist:
        c.items = [clone(x, c) if isinstance(x, Node) else x
                   for x in n.items]
    else:
        c.items = dict((k, clone(x, c) if isinstance(x, Node) else x)
                       for k, x in n.items.items())
    return c


@PROP.family(quick=1200, thorough=15000, floors=["looked up outer",
                                                 "written and reloaded",
                                                 "name not in scope"])
def histories(ctx):
    kinds = set()
    root = build(ctx, None, 0, kinds)
    p = ctx.path("c.yaml")
    save(ctx, p, root)
    ctx.log(io.open(p, encoding="utf-8").read()[:1500])
    cfg = LexicalConfig(p)
    disk = clone(root)          # what the file holds
    compare(ctx, cfg, root, "loaded")
    if list(cfg.keys()) != list(root.items):
        ctx.check(False, "order of names", got=list(cfg.keys()))
    scopes(ctx, cfg, root)
    hist = []
    for _ in range(ctx.randint(2, 8)):
        secs = [n for n in root.deep() if not n.islist]
        n = ctx.choice(secs)
        sec = real(cfg, n)
        op = ctx.choice(["set", "set", "delete", "update", "reload", "write",
                         "elsewhere", "copy", "standard"])
        hist.append(op)
        if op == "set":
            k = ctx.choice(KEYS)
            v, e = pyvalue(ctx)
            ctx.log("set", k, repr(v))
            sec[k] = v
            n.items[k] = e
        elif op == "delete":
            own = [k for k, v in n.items.items() if not isinstance(v, Node)]
            if not own:
                continue
            k = ctx.choice(own)
            ctx.log("delete", k)
            del sec[k]
            del n.items[k]
        elif op == "update":
            new = dict((k, pyvalue(ctx)) for k in ctx.sample(KEYS, 2))
            ctx.log("update", sorted(new))
            sec.update(dict((k, v[0]) for k, v in new.items()))
            for k, v in new.items():
                n.items[k] = v[1]
        elif op == "reload":
            ctx.log("reload")
            cfg.reload_settings()
            root = clone(disk)
        elif op in ("write", "elsewhere"):
            q = p if op == "write" else ctx.path("d.yaml")
            ctx.log(op)
            if op == "write":
                cfg.write()
                disk = clone(root)
            else:
                cfg.write(q)
            for cls in (LexicalConfig, Config):
                back = cls(q)
                compare(ctx, back, root, "written", False)
                ctx.check(type(back) is cls, "type of config")
            scopes(ctx, LexicalConfig(q), root)
            ctx.ev("written and reloaded")
        elif op == "copy":
            c = sec.copy()
            ctx.check(list(c.keys()) == list(sec.keys()) and
                      sorted(c.keys()) == sorted(n.items), "copied names",
                      got=list(c.keys()))
            c["a"] = "changed in the copy"
            c["extra"] = 1
        else:
            std = cfg.convert_to_standard()
            compare(ctx, std, root, "standard", False)
            stack = [std]
            while stack:
                x = stack.pop()
                ctx.check(not isinstance(x, (LexicalScopeDict,
                                             LexicalScopeList)),
                          "standard types", got=type(x))
                stack.extend(x.values() if isinstance(x, dict) else x)
                stack = [y for y in stack if isinstance(y, (dict, list))]
        compare(ctx, cfg, root, "after " + op)
        scopes(ctx, cfg, root)
        ctx.ev("step")
    ctx.state(sorted(kinds), hist[:5], len(list(root.deep())))


@PROP.family(quick=800, thorough=8000, floors=["value compared"])
def plain(ctx):
    """Config: the same values, no scoping."""
    kinds = set()
    root = build(ctx, None, 0, kinds)
    p = ctx.path("c.yaml")
    save(ctx, p, root)
    ctx.log(io.open(p, encoding="utf-8").read()[:1500])
    cfg = Config(p)
    compare(ctx, cfg, root, "loaded", False)
    for n in root.deep():
        if n.islist:
            continue
        sec = real(cfg, n)
        for k in KEYS:
            ctx.check((k in sec) == (k in n.items), "scope of plain config")
    if root.items and ctx.chance(.5):        # somebody edits the file
        gone = ctx.choice(sorted(root.items))
        del root.items[gone]
        save(ctx, p, root)
        cfg.reload_settings()
        compare(ctx, cfg, root, "after %r was removed from the file" % gone,
                False)
        ctx.ev("file edited")
    k = ctx.choice(KEYS)
    cfg[k], root.items[k] = pyvalue(ctx)
    q = ctx.path("d.yaml") if ctx.chance(.5) else None
    cfg.write(q)
    if q:
        cfg.reload_settings()
        back = Config(q)
    else:
        cfg.reload_settings()
        back = cfg
    compare(ctx, back, root, "written", False)
    ctx.ev("written and reloaded")
    ctx.state(sorted(kinds), q is None)


@PROP.family(quick=300, floors=["clock time"])
def clock(ctx):
    """Clock times denote the next such time."""
    h, m, s = ctx.randint(0, 23), ctx.randint(0, 59), ctx.randint(0, 59)
    if ctx.chance(.4):
        t, s = "%02d:%02d" % (h, m), 0
    else:
        t = "%02d:%02d:%02d" % (h, m, s)
    p = ctx.path("c.yaml")
    with io.open(p, "w") as f:
        f.write(u"sec:\n  t: %s\n" % t)
    a = datetime.datetime.now()
    v = ctx.choice([LexicalConfig, Config])(p)["sec"]["t"]
    b = datetime.datetime.now()
    ctx.log(t, v)
    ctx.check(isinstance(v, datetime.datetime) and
              (v.hour, v.minute, v.second, v.microsecond) == (h, m, s, 0),
              "clock time", got=v, want=t)
    day = datetime.timedelta(days=1)
    one = datetime.timedelta(seconds=1)
    ctx.check(a - one <= v <= b + day + one, "next such time", got=v, now=a)
    ctx.ev("clock time")
    ctx.state(len(t))


@PROP.family(quick=800, thorough=8000, floors=["merged lookup"])
def merged(ctx):
    """Later dictionaries override earlier ones, then the parent."""
    ds = [dict((k, (i, k)) for k in ctx.sample(KEYS, ctx.randint(0, 4)))
          for i in range(ctx.randint(1, 4))]
    if ctx.chance(.3):
        for d in ds:
            for k in list(d):
                if ctx.chance(.3):          # set, though empty
                    d[k] = ctx.choice([None, 0, "", [], False])
    if ctx.chance(.4):
        ds = [LexicalScopeDict(d) for d in ds]
    m = MergedDicts(*ds)
    parent = None
    if ctx.chance(.5):
        parent = dict((k, ("p", k)) for k in ctx.sample(KEYS, 4))
        m.parent = parent
    if ctx.chance(.3):
        k = ctx.choice(KEYS)        # changes show
        ds[0][k] = ("late", k)
    for k in KEYS:
        want = MISS
        for d in ds:
            if dict.__contains__(d, k):
                want = d[k]
        if want is MISS and parent and k in parent:
            want = parent[k]
        ctx.check((k in m) == (want is not MISS), "merged names", k=k)
        if want is MISS:
            ctx.raises(KeyError, lambda: m[k], "unknown name")
        else:
            ctx.check(m[k] == want, "merged value", got=m[k], want=want)
        ctx.ev("merged lookup")
    ctx.check(set(m.keys()) == set(k for d in ds for k in d.keys()),
              "merged names", got=m.keys())
    c = m.copy()
    for k in KEYS:
        if any(dict.__contains__(d, k) for d in ds):
            ctx.check(c[k] == m[k], "copy", k=k)
    ctx.state(len(ds), parent is not None, type(ds[0]).__name__)


@PROP.family(quick=60, floors=["degenerate"])
def degenerate(ctx):
    p = ctx.path("e.yaml")
    cls = ctx.choice([LexicalConfig, Config])
    if ctx.chance(.6):
        with io.open(p, "w") as f:
            f.write(ctx.choice([u"", u"# nothing\n", u"---\n", u"{}\n"]))
    with quiet():
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = cls(p)
    ctx.check(len(c) == 0 and "a" not in c, "empty config", got=c)
    c["a"] = 3
    c.write(p)
    ctx.check(dict(cls(p).items()) == {"a": 3}, "written", got=cls(p))
    ctx.ev("degenerate")
    ctx.state(cls.__name__)
