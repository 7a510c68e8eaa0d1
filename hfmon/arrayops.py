"""Index and operation generators shared by the array checks."""
import numpy as np

from hftools.dataset import hfarray
from hfmon.model import Model


def index(ctx, m, kinds=("int", "slice", "all"), maxfancy=1, empty=True):
    """Random index for model m: (python index list, selections per axis)."""
    idx, sels, fancy = [], [], 0
    for ax in m.axes:
        n = len(ax[2])
        k = ctx.choice(kinds)
        if k in ("list", "nd", "npmask", "label") and fancy >= maxfancy:
            k = "slice"
        if n == 0 and k in ("int", "list", "nd", "label"):
            k = "all"
        if k == "int":
            i = ctx.randint(-n, n - 1)
            idx.append(np.int64(i) if ctx.chance(.2) else i)
            sels.append(i % n)
        elif k == "slice":
            s = rslice(ctx, n)
            sel = list(range(n))[s]
            if not sel and not empty:
                s, sel = slice(None), list(range(n))
            idx.append(s)
            sels.append(sel)
        elif k == "all":
            idx.append(slice(None))
            sels.append(list(range(n)))
        elif k in ("list", "nd", "label"):
            sel = [ctx.randint(-n, n - 1) for _ in
                   range(ctx.randint(1, n + 1))]
            pos = [s % n for s in sel]
            fancy += 1
            if k == "list":
                idx.append(sel)
            elif k == "nd":
                idx.append(np.array(sel))
            else:
                idx.append(("label", sel))
            sels.append(pos)
        elif k == "npmask":
            mask = ctx.rng.random(n) < .5
            fancy += 1
            idx.append(mask)
            sels.append([i for i in range(n) if mask[i]])
    return idx, sels


def rslice(ctx, n):
    def end():
        return None if ctx.chance(.3) else ctx.randint(-n - 2, n + 2)
    st = ctx.choice([None, 1, 1, 2, -1, -2, 3, -1])
    return slice(end(), end(), st)


def finish(ctx, idx, ndim):
    """Drop trailing full slices and / or introduce an ellipsis."""
    idx = list(idx)
    while idx and isinstance(idx[-1], slice) and idx[-1] == slice(None) \
            and ctx.chance(.6):
        idx.pop()
    if ctx.chance(.35):
        # an ellipsis may stand for any run of full slices (or for nothing)
        full = [isinstance(i, slice) and i == slice(None) for i in idx]
        a = ctx.randint(0, len(idx))
        b = a
        while b < len(idx) and full[b]:
            b += 1
        if b == len(idx) or len(idx) == ndim:
            if len(idx) == ndim:
                idx[a:b] = [Ellipsis]
            else:
                # trailing axes are implied, so ellipsis must be last
                idx = idx + [Ellipsis]
        elif len(idx) < ndim:
            idx = idx + [Ellipsis]
    if len(idx) == 1 and ctx.chance(.7):
        return idx[0]
    return tuple(idx)
