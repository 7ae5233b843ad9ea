"""Executable contracts: naive definitions and random inputs, used on the real compiled code."""
import itertools
import numpy as np


class Fail(Exception):
    pass


def show(x, lim=600):
    if isinstance(x, np.ndarray):
        s = "array(%s, shape=%s, dtype=%s)" % (np.array2string(x, threshold=40, precision=6, separator=",").replace("\n", ""), x.shape, x.dtype)
    elif isinstance(x, dict):
        s = "{" + ", ".join("%s: %s" % (k, show(v, 300)) for k, v in x.items()) + "}"
    elif isinstance(x, (tuple, list)):
        s = type(x).__name__ + "(" + ", ".join(show(v, 300) for v in x) + ")"
    else:
        s = repr(x)
    return s if len(s) <= lim else s[:lim] + "..."


def same(what, got, want, inputs=None, tol=1e-8):
    """got and want agree in shape and in every element (NaN equal to NaN)"""
    if want is None or got is None:
        if (want is None) != (got is None):
            raise Fail("%s: got %s, expected %s; inputs %s" % (what, show(got), show(want), show(inputs, 3000)))
        return
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Fail("%s: shape %s, expected %s; inputs %s" % (what, g.shape, w.shape, show(inputs, 3000)))
    if g.dtype == object or w.dtype == object:
        raise Fail("%s: not a numeric array: %s" % (what, show(got)))
    if g.size == 0:
        return
    with np.errstate(all="ignore"):
        eqn = (g == w)
        both_nan = np.isnan(np.abs(g)) & np.isnan(np.abs(w)) if g.dtype.kind in "fc" and w.dtype.kind in "fc" else np.zeros(g.shape, bool)
        fin = np.abs(w[np.isfinite(w)]) if w.dtype.kind in "fciu" else np.zeros(0)
        scale = float(fin.max()) if fin.size else 0.0
        if g.dtype.kind in "biu" and w.dtype.kind in "biu":
            ok = eqn
        else:
            ok = eqn | both_nan | (np.abs(g - w) <= tol * (1 + scale))
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Fail("%s: at %s got %r, expected %r; inputs %s" % (what, i, g[i].item(), w[i].item(), show(inputs, 3000)))


def true(what, cond, inputs=None):
    if not cond:
        raise Fail("%s; inputs %s" % (what, show(inputs, 3000)))


def raises(what, exc, fn, *a, **k):
    inputs = (a, k)
    try:
        r = fn(*a, **k)
        if hasattr(r, "__next__"):
            list(r)
    except exc:
        return
    except Exception as e:
        raise Fail("%s: raised %s instead of %s; inputs %s" % (what, type(e).__name__, getattr(exc, "__name__", exc), show(inputs)))
    raise Fail("%s: returned %s instead of raising %s; inputs %s" % (what, show(r), getattr(exc, "__name__", exc), show(inputs)))


# ------------------------------------------------------------------ random inputs

def shape_with(rng, n, rank=None, maxd=3):
    """(shape, axis): n frames along a random axis of an array of rank 1..3 (4)"""
    rank = rank or int(rng.integers(1, 5))
    sh = [int(rng.integers(1, maxd + 1)) for _ in range(rank)]
    ax = int(rng.integers(0, rank))
    sh[ax] = n
    return tuple(sh), (ax if rng.random() < 0.6 else ax - rank)


def layout(rng, a):
    """the same values in another memory layout"""
    k = int(rng.integers(0, 5))
    if k == 0:
        return a
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        sh = list(a.shape)
        sh[-1] *= 2
        b = np.zeros(sh, a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if k == 3:
        p = tuple(rng.permutation(a.ndim))
        return np.ascontiguousarray(a.transpose(p)).transpose(np.argsort(p))
    b = a[::-1].copy()
    return b[::-1]


def cdata(rng, shape):
    k = int(rng.integers(0, 4))
    if k == 0:
        r = rng.integers(-3, 4, shape) + 1j * rng.integers(-3, 4, shape)
    elif k == 1:
        r = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    elif k == 2:
        r = rng.normal(size=shape) + 0j
    else:
        r = 2 + rng.normal(size=shape) + 1j * (rng.normal(size=shape) - 1)
    return layout(rng, np.asarray(r, complex))


def times(rng, n, distinct=False, mono=False):
    """integer frame times"""
    k = int(rng.integers(0, 5))
    if k == 0:
        t = np.arange(n)
    elif k == 1:
        t = np.cumsum(rng.integers(1 if distinct else 0, 4, n))
    elif k == 2:
        t = rng.permutation(3 * n)[:n]
    elif k == 3:
        t = rng.permutation(n + 2)[:n] if distinct else rng.integers(0, n + 2, n)
    else:
        t = 2 * np.arange(n) + rng.integers(0, 2, n)
    t = t + int(rng.integers(-3, 6))
    if mono:
        t = np.sort(t)
    return np.asarray(t, np.int64)


# ------------------------------------------------------------------ definitions

def span2(t1, t2):
    return int(1 + max(t2.max() - t1.min(), t1.max() - t2.min()))


def span1(t):
    return int(1 + t.max() - t.min())


def pairs_cross(t1, t2, n, cplx):
    """(index in the output, i, j, signed delay)"""
    for i in range(len(t1)):
        for j in range(len(t2)):
            d = int(t2[j] - t1[i])
            if abs(d) < n:
                yield (d if d >= 0 else 2 * n - 1 + d) if cplx else abs(d), i, j, d


def pairs_auto(t, n):
    """unordered pairs, (delay, earlier, later)"""
    for i in range(len(t)):
        for j in range(i, len(t)):
            d = int(t[j] - t[i])
            if abs(d) < n:
                yield abs(d), (i if d >= 0 else j), (j if d >= 0 else i)


def front(f, axis):
    return np.moveaxis(np.asarray(f), axis, 0)


def tarr(t, n):
    return np.arange(n) if t is None else np.asarray(t)


def cross_corr(f1, f2, t1=None, t2=None, axis=0, n=None, cplx=False):
    F, G = front(f1, axis), front(f2, axis)
    reg = t1 is None
    t1, t2 = tarr(t1, len(F)), tarr(t2, len(G))
    if n is None:
        n = len(F) if reg else span2(t1, t2)
    out = np.zeros((2 * n - 1 if cplx else n,) + F.shape[1:], complex)
    for k, i, j, d in pairs_cross(t1, t2, n, cplx):
        out[k] += np.conj(F[i]) * G[j]
    out = np.moveaxis(out, 0, -1)
    return out if cplx else out.real


def auto_corr(f, t=None, axis=0, n=None, cplx=False):
    F = front(f, axis)
    reg = t is None
    t = tarr(t, len(F))
    if n is None:
        n = len(F) if reg else span1(t)
    out = np.zeros((n,) + F.shape[1:], complex)
    for k, i, j in pairs_auto(t, n):
        out[k] += np.conj(F[i]) * F[j]
    out = np.moveaxis(out, 0, -1)
    return out if cplx else out.real


def cross_diff(f1, f2, t1=None, t2=None, axis=0, n=None):
    F, G = front(f1, axis), front(f2, axis)
    reg = t1 is None
    t1, t2 = tarr(t1, len(F)), tarr(t2, len(G))
    if n is None:
        n = len(F) if reg else span2(t1, t2)
    out = np.zeros((n,) + F.shape[1:])
    for k, i, j, d in pairs_cross(t1, t2, n, False):
        out[k] += np.abs(G[j] - F[i]) ** 2
    return np.moveaxis(out, 0, -1)


def auto_diff(f, t=None, axis=0, n=None):
    F = front(f, axis)
    reg = t is None
    t = tarr(t, len(F))
    if n is None:
        n = len(F) if reg else span1(t)
    out = np.zeros((n,) + F.shape[1:])
    for k, i, j in pairs_auto(t, n):
        out[k] += np.abs(F[j] - F[i]) ** 2
    return np.moveaxis(out, 0, -1)


def cross_sum(f, t=None, t_other=None, axis=0, n=None, cplx=False, inv=False):
    F = front(f, axis)
    reg = t is None
    t, to = tarr(t, len(F)), tarr(t_other, len(F))
    if n is None:
        n = len(F) if reg else span2(t, to)
    if inv:
        t, to = -t, -to
    out = np.zeros((2 * n - 1 if cplx else n,) + F.shape[1:], F.dtype if F.dtype.kind == "c" else float)
    for k, i, j, d in pairs_cross(t, to, n, cplx):
        out[k] += F[i]
    return np.moveaxis(out, 0, -1)


def auto_sum(f, t=None, axis=0, n=None):
    F = front(f, axis)
    reg = t is None
    t = tarr(t, len(F))
    if n is None:
        n = len(F) if reg else span1(t)
    out = np.zeros((n,) + F.shape[1:], F.dtype if F.dtype.kind == "c" else float)
    for k, i, j in pairs_auto(t, n):
        out[k] += (F[i] + F[j]) / 2
    return np.moveaxis(out, 0, -1)


def cross_count(t1, t2, n, cplx=False):
    out = np.zeros(2 * n - 1 if cplx else n, int)
    for k, i, j, d in pairs_cross(t1, t2, n, cplx):
        out[k] += 1
    return out


def auto_count(t, n):
    out = np.zeros(n, int)
    for k, i, j in pairs_auto(t, n):
        out[k] += 1
    return out


def pick_n(rng, full):
    """number of delays: none, below, at or above the full span"""
    k = int(rng.integers(0, 5))
    if k == 0:
        return None
    if k == 1:
        return 1
    if k == 2:
        return int(rng.integers(1, full + 1))
    if k == 3:
        return full
    return full + int(rng.integers(1, 4))
