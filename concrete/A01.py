from lib import *
from cddm.avg import decreasing, increasing, median, convolve, denoise


def rows(rng, dt, lo=1, nan=False):
    n = int(rng.integers(lo, 9))
    sh = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3)))) + (n,)
    k = int(rng.integers(0, 3))
    x = rng.integers(-3, 4, sh).astype(float) if k else rng.normal(size=sh)
    if dt == "C":
        x = x + 1j * (rng.integers(-3, 4, sh) if k else rng.normal(size=sh))
    if nan:
        for r in np.ndindex(sh[:-1]):
            x[r][:int(rng.integers(0, n + 1))] = np.nan
    return layout(rng, x)


def apply(rng, f, x, inp, want):
    """new array, given output, in place"""
    mode = int(rng.integers(0, 3))
    b = x.copy()
    name = f.__name__ if hasattr(f, "__name__") else str(f)
    if mode == 0:
        r = f(x)
    elif mode == 1:
        out = layout(rng, np.full(x.shape, 7, x.dtype))
        r = f(x, out=out)
        same("output argument", out, want, inp)
    else:
        x = x.copy()
        r = f(x, out=x)
        same("in place", x, want, inp)
    same("result", r, want, inp)
    if mode < 2:
        same("input modified", x, b, inp)
    return mode


def running(rng, i):
    low = i % 2
    x = rows(rng, "F", nan=i % 3 == 0)
    want = x.copy()
    for r in np.ndindex(x.shape[:-1]):
        for k in range(x.shape[-1]):
            v = x[r][:k + 1]
            v = v[~np.isnan(v)]
            want[r][k] = (v.min() if low else v.max()) if len(v) else np.nan
    m = apply(rng, decreasing if low else increasing, x, dict(x=x.copy(), decreasing=low), want)
    return "%s %d %d" % (x.shape, low, m)


def med3(x):
    w = x.copy()
    for k in range(1, x.shape[-1] - 1):
        w[..., k] = np.sort(x[..., k - 1:k + 2], -1)[..., 1]
    return w


def definition(x, f):
    if f is convolve:
        w = x.copy()
        for k in range(1, x.shape[-1] - 1):
            w[..., k] = x[..., k - 1] / 4 + x[..., k] / 2 + x[..., k + 1] / 4
        return w
    if np.iscomplexobj(x):
        return med3(x.real) + 1j * med3(x.imag)
    return med3(x)


def neighbours(rng, i):
    f = (median, convolve)[i % 2]
    x = rows(rng, "FC"[(i // 2) % 2], 3)
    m = apply(rng, f, x, dict(x=x.copy(), f=("median", "convolve")[i % 2]), definition(x, f))
    return "%s %d %d" % (x.shape, i % 4, m)


def smoothing(rng, i):
    x = rows(rng, "FC"[i % 2], 3)
    n = int(rng.integers(0, 5))
    w = x
    for _ in range(n):
        w = definition(definition(w, median), convolve)
    b = x.copy()
    r = denoise(x) if n == 3 else denoise(x, n)
    same("denoise n=%d" % n, r, w, dict(x=b))
    same("input modified", x, b)
    return "%s %d" % (x.shape, n)


SCENARIOS = [("running filters", running), ("median and convolve", neighbours), ("denoise", smoothing)]
