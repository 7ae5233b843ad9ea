from lib import *
from cddm import window as w

EPS = 1e-12


def dist(h, k):
    y = (np.arange(h) - (h - 1) / 2.0) / (h / 2.0)
    x = (np.arange(k) - (k - 1) / 2.0) / (k / 2.0)
    return np.sqrt(y[:, None] ** 2 + x[None, :] ** 2)


def params(rng, fn):
    if fn == "tukey":
        return (float(rng.choice([0, 1, 0.5, rng.random(), 1e-3])),)
    if fn == "gaussian":
        return (float(rng.choice([0.1, 0.4, 1.0, 3.0, rng.random() + 0.01])),)
    return ()


def one(rng, fn, a, sh):
    if rng.random() < 0.5:
        return getattr(w, fn)(sh, *a), ""
    o = rng.choice([np.nan, 0.0, 7.0]) * np.ones(sh)
    big = None
    if rng.random() < 0.3:
        big = np.full((sh[0] * 2, sh[1] + 3), -5.0)
        o = big[::2, 1:-2]
    r = getattr(w, fn)(sh, *a, out=o)
    e = "" if r is o else "the supplied array is not the result"
    if big is not None:
        big[::2, 1:-2] = -5.0
        if not (big == -5.0).all():
            e = "wrote outside the supplied array"
        else:
            big[::2, 1:-2] = getattr(w, fn)(sh, *a)
    return r, e


def values(rng, i):
    fn = ("blackman", "gaussian", "tukey", "hann")[i % 4]
    a = params(rng, fn)
    ps = []
    for _ in range(2):
        sh = (int(rng.integers(1, 14)), int(rng.integers(1, 14)))
        r, e = one(rng, fn, a, sh)
        at = "%s%r of shape %r" % (fn, a, sh)
        if e:
            return at + ": " + e
        if r.shape != sh:
            return "%s: result of shape %r" % (at, r.shape)
        if not ((r >= -EPS) & (r <= 1 + EPS)).all():
            return at + ": value outside [0, 1]"
        if np.abs(r - r[::-1]).max() > EPS or np.abs(r - r[:, ::-1]).max() > EPS:
            return at + ": not symmetric"
        d = dist(*sh)
        if fn != "gaussian" and (r[d >= 1 + EPS] != 0).any():
            return at + ": not zero outside the inscribed ellipse"
        if fn == "tukey" and np.abs(r[(d <= 1 - a[0] - EPS) & (d < 1 - EPS)] - 1).max(initial=0) > EPS:
            return at + ": not one on the flat part"
        if fn == "hann":
            t = w.tukey(sh, 1.0)
            if np.abs(r - t).max() > EPS:
                return at + ": differs from the tukey window of full taper"
        ps.append((d.ravel(), r.ravel()))
    d, r = np.concatenate([p[0] for p in ps]), np.concatenate([p[1] for p in ps])
    k = np.argsort(d, kind="stable")
    d, r = d[k], r[k]
    same = np.diff(d) < EPS
    # a jump is possible only where the taper is zero or narrow
    wide = fn != "tukey" or a[0] >= 0.1
    if (np.diff(r) > 1e-9)[~same].any() or (wide and (np.abs(np.diff(r)) > 1e-9)[same].any()):
        return "%s%r: not a non-increasing function of the scaled distance" % (fn, a)
    return ""


def reject(rng, i):
    fn, v = (("gaussian", -rng.random()), ("gaussian", 0.0), ("tukey", -rng.random() - 1e-9), ("tukey", 1 + rng.random() + 1e-9))[i % 4]
    try:
        getattr(w, fn)((3, 4), float(v))
    except ValueError:
        return ""
    return "%s accepted %r" % (fn, v)


SCENARIOS = [("values", values), ("rejected parameters", reject)]
