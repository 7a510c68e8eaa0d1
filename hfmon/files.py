"""Helpers for the file format checks: number text, headers, file writing."""
import io

import numpy as np

from hftools.dataset import DimMatrix_i, DimMatrix_j
from hfmon import gen
from hfmon.checks import c26


def num(ctx, v, style=None):
    """(text, value the text denotes) for a float."""
    style = style or ctx.choice(["%.16e", "%r", "%.6f", "%.3e", "%.9G",
                                 "%+.5f", "%g"])
    if style == "%r":
        t = repr(float(v))
    else:
        t = style % v
    return t, float(t)


def text_of(ctx, arr, style=None):
    """Texts and the exact values they denote, elementwise."""
    arr = np.asarray(arr)
    style = style or ctx.choice(["%.16e", "%r", "%.6f", "%.3e", "%.9G",
                                 "%+.5f", "%g"])
    t = [num(ctx, x, style) for x in arr.ravel()]
    texts = np.array([x[0] for x in t], object).reshape(arr.shape)
    vals = np.array([x[1] for x in t], float).reshape(arr.shape)
    return texts, vals


def unusual(ctx, arr, inf=True):
    """Now and then missing, infinite, zero or extreme numbers."""
    arr = np.array(arr, float)
    if arr.size and ctx.chance(.05):
        few = [np.nan, 0.0, -0.0, 1e300, -1e-300]
        if inf:
            few += [np.inf, -np.inf]
        for k in ctx.rng.integers(0, arr.size, ctx.randint(1, 3)):
            arr.reshape(-1)[k] = ctx.choice(few)
    return arr


def header(ctx, nmax=4, taken=(), wide=False):
    """Comment lines, and the properties they denote."""
    lines, want = [], {}
    for _ in range(ctx.randint(0, nmax)):
        if ctx.chance(.25):
            lines.append(c26.noprop(ctx))
        elif wide and ctx.chance(.1):
            v = ctx.choice(["M\xe5ns \xd6berg", "glue, 5 \xb5m thick",
                            "\xa720 caf\xe9"])
            want["Name"] = ("text", v, None)
            lines.append("Name: " + v)
        else:
            n, t, kind, v, b = c26.prop(ctx)
            if n in taken:
                continue
            want[n] = (kind, v, b)
            lines.append(t)
    return lines, want


def check_props(ctx, comments, want, what, guessed=False):
    """guessed: units may have been guessed from the names."""
    for n, (kind, v, b) in want.items():
        ctx.check(n in comments.property, "%s: property %r lost" % (what, n),
                  got=sorted(comments.property))
        if guessed and b is None:
            b = getattr(comments.property[n], "unit", None)
        c26.check(ctx, comments.property[n], kind, v, b,
                  "%s: property %s" % (what, n))


def check_comments(ctx, comments, head, what):
    """The header lines are all there, once each and in order."""
    clean = lambda t: t.lstrip("!").strip()
    head = [clean(h) for h in head]
    got = [clean(c) for c in comments.fullcomments]
    kept = [c for c in got if c in head]
    ctx.check(kept == head, "%s: header comments" % what, got=got, want=head)
    if head:
        ctx.ev("header comments compared")


def write(path, lines, newline="\n", encoding="cp1252"):
    with io.open(path, "w", encoding=encoding, newline="") as f:
        f.write(newline.join(lines))
        f.write(newline)
    return path


def show(path):
    with io.open(path, encoding="cp1252", newline="") as f:
        return f.read()


def ports(ctx, known, m, n, iname="i%d", jname="j%d"):
    """Matrix dimensions for a block, the same ones for the same name."""
    out = []
    for cls, name, size in ((DimMatrix_i, iname, m), (DimMatrix_j, jname, n)):
        name = name % size if "%" in name else name
        if name not in known:
            known[name] = gen.mdim(ctx, cls, size, name)
        out.append(known[name])
    return out
