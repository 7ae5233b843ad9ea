from lib import *
from cddm.core import reshape_input, reshape_output


def frames(rng, maxr=3):
    r = int(rng.integers(1, maxr + 1))
    return tuple(int(v) for v in rng.integers(1, 6, r))


def calc(y, axis, n, levels, j):
    """a per-pixel result of the frames: shape (levels) + frame + (n,)"""
    y = np.moveaxis(y, axis, 0)
    s = sum((k + 1 + j) * y[k] for k in range(len(y)))
    out = np.stack([s * (k + 1) for k in range(n)], -1)
    return np.stack([out + 10 * q for q in range(levels)]) if levels else out


def restore(rng, i):
    sh = frames(rng)
    N = int(rng.integers(1, 5))
    mask = rng.random(sh) < rng.choice([0.3, 0.8]) if i % 2 else None
    if mask is not None and not mask.any():
        mask[(0,) * len(sh)] = True
    tot = int(np.prod(sh)) if mask is None else int(mask.sum())
    div = [d for d in range(1, tot + 1) if tot % d == 0]
    D = None if rng.random() < 0.4 else int(rng.choice(div))
    full = list(sh)
    if mask is None:
        ax = int(rng.integers(-3, 3)) if D is not None else int(rng.integers(-len(sh) - 1, len(sh) + 1))
        if len(sh) == 1 and not -2 <= ax < 2:
            ax %= 2
        if len(sh) == 2 and not -3 <= ax < 3:
            ax = 0
    else:
        ax = 0
    full.insert(ax % (len(sh) + 1), N)
    f = cdata(rng, tuple(full))
    b = f.copy()
    inp = dict(f=b, axis=ax, thread_divisor=D, mask=mask)
    y, osh = reshape_input(f, axis=ax, thread_divisor=D, mask=mask)
    same("old shape", osh, sh if mask is None else (tot,), inp)
    ym = np.moveaxis(y, ax, 0)
    if D is not None:
        same("threads", ym.shape, (N, D, tot // D), inp)
    elif mask is not None:
        same("selected pixels", ym.shape, (N, tot), inp)
    elif len(sh) == 1:
        same("two frame axes", ym.shape, (N, 1) + sh, inp)
    else:
        same("unchanged shape", ym.shape, (N,) + sh, inp)
    n = int(rng.integers(1, 4))
    kind = int(rng.integers(0, 3))
    levels = 0 if kind == 0 or rng.random() < 0.5 else int(rng.integers(1, 4))
    part = lambda j: calc(y, ax, n, levels, j)
    count = rng.integers(0, 9, (levels, n) if levels else (n,))
    data = part(0) if kind == 0 else (part(0), count, part(1), None) if kind == 1 else (part(0), count, part(1), part(2), part(3))
    kw = {} if mask is None else {"mask": mask}
    if mask is None or rng.random() < 0.5:
        kw["shape"] = osh
    r = reshape_output(data, **kw)
    same("input modified", f, b, inp)
    for j, (o, d) in enumerate(zip((r,) if kind == 0 else r, (data,) if kind == 0 else data)):
        if j == 1:
            same("count", o, count, inp)
            continue
        if d is None:
            true("absent part", o is None, inp)
            continue
        want = calc(b, ax, n, levels, 0 if j == 0 else j - 1)
        if mask is not None:
            want = np.where(mask[..., None], want, np.nan)
        same("part %d" % j, o, want, inp)
    return "%s %d %s %s %d" % (sh, ax, D, mask is not None, levels)


def rejects(rng, i):
    sh = frames(rng)
    f = cdata(rng, (2,) + sh)
    tot = int(np.prod(sh))
    bad = [d for d in range(0, tot + 3) if d == 0 or tot % d]
    raises("divisor", ValueError, reshape_input, f, thread_divisor=int(rng.choice(bad)))
    ax = int(rng.integers(1, len(sh) + 1))
    f = np.moveaxis(f, 0, ax)
    raises("mask on another axis", ValueError, reshape_input, f, axis=ax - (len(sh) + 1 if i % 2 else 0), mask=np.ones(sh, bool))
    raises("neither", ValueError, reshape_output, f.real)
    return str(sh)


SCENARIOS = [("restore", restore), ("rejects", rejects)]
