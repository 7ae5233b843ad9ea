from gen import *
from C07 import spec
from cddm.multitau import ccorr_multi, acorr_multi


def binned(x, axis, how, pick=0):
    x = front(x, axis)
    n = len(x)
    if how == 0:
        r = x[::2]
    else:
        a, b = x[0:n // 2 * 2:2], x[1:n // 2 * 2:2]
        r = (a + b) / 2 if how == 1 else (a, b)[pick]
    return np.moveaxis(r, 0, axis)


def agrees(g, w):
    if (g is None) != (w is None):
        return False
    if g is None:
        return True
    g, w = np.asarray(g), np.asarray(w)
    if g.shape != w.shape:
        return False
    if g.size == 0:
        return True
    s = np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0.
    return bool(((np.abs(g - w) <= 1e-8 * (1 + s)) | (np.isnan(np.abs(g)) & np.isnan(np.abs(w)))).all())


def run(rng, i, cross):
    size = int(rng.integers(5, 9))
    N = int(rng.choice([size, size + 1, 2 * size - 1, 2 * size, 4 * size + 1, 4 * size + 3, int(rng.integers(size, 60))]))
    sh, axis = shape_with(rng, N)
    use_mask = rng.random() < 0.25 and len(sh) > 1
    if use_mask:
        sh, axis = (N,) + tuple(s for k, s in enumerate(sh) if k != axis % len(sh)), 0
    d = {"f1": cdata(rng, sh), "axis": axis, "N": N, "t1": None, "t2": None}
    if cross:
        d["f2"] = cdata(rng, sh)
    if rng.random() < 0.25:
        d["t1"] = times(rng, N, not cross)
        d["t2"] = times(rng, N, False) if cross else None
    method = [None, "corr", "fft", "diff"][int(rng.integers(4))]
    m = method or "corr"
    norms = ((2, 6) if cross else (2,)) if m == "diff" else (1, 2, 3, 5, 6, 7)
    norm = None if rng.random() < 0.3 else int(rng.choice(norms))
    nn = norms[-1] if norm is None else norm
    binning = [None, 0, 1, 2][int(rng.integers(4))]
    if m == "diff" and binning == 1:
        binning = 0
    how = binning if binning is not None else (0 if m == "diff" else 1)
    cplx = bool(rng.random() < 0.4) and m != "diff"
    period = int(rng.integers(1, 4))
    kw = dict(level_size=size, period=period, axis=axis, method=method, norm=norm, binning=binning, align=bool(rng.random() < 0.3))
    if cplx:
        kw["complex"] = True
    levels = 0
    while N // 2 ** (levels + 1) >= size:
        levels += 1
    if rng.random() < 0.25:
        levels = kw["nlevel"] = int(rng.integers(0, levels + 1))
    rest = tuple(s for k, s in enumerate(sh) if k != axis % len(sh))
    total = int(np.prod(rest)) if rest else 1
    mask = None
    if use_mask:
        mask = rng.random(rest) < 0.6
        if not mask.any():
            mask.flat[0] = True
        kw["mask"] = mask
        total = int(mask.sum())
    if rest and rng.random() < 0.3 and -3 <= axis <= 2:
        kw["thread_divisor"] = int(rng.choice([k for k in range(1, total + 1) if total % k == 0]))
    f1, f2 = d["f1"], d.get("f2")
    keep = [x.copy() for x in (f1, f2) if x is not None]
    if cross:
        r = ccorr_multi(f1, f2, t1=d["t1"], t2=d["t2"], **kw)
    else:
        r = acorr_multi(f1, t=d["t1"], **kw)
    at = "%s(%s, f1=%s, f2=%s, t1=%s, t2=%s)" % ("ccorr_multi" if cross else "acorr_multi", show({k: v for k, v in kw.items() if v is not None}, 900), show(f1, 900), show(f2), show(d["t1"]), show(d["t2"]))
    for a, b in zip(keep, [x for x in (f1, f2) if x is not None]):
        if not (a == b).all():
            return at + ": data modified"

    def hide(x, j):
        if x is None or j == 1 or mask is None:
            return x
        x = np.array(x)
        x[..., ~mask, :] = np.nan
        return x
    if len(r) != 2:
        return at + ": not fast and slow data"
    want = [hide(x, j) for j, x in enumerate(spec(d, cross, m, nn, period * size, cplx))]
    if m == "diff" and len(want) != len(r[0]) or any(not agrees(g, w) for g, w in zip(r[0], want)):
        j = [agrees(g, w) for g, w in zip(r[0], want)]
        return at + ": part %d of the fast data" % (j.index(False) if False in j else -1)
    if any(x is not None and len(x) != levels for x in r[1]) or r[1][1] is None:
        return at + ": %s levels, expected %d" % (len(r[1][1]), levels)
    s1 = np.abs(f1) ** 2
    s2 = np.abs(f2) ** 2 if cross else None
    cur = [(f1, f2, s1, s2)]
    for l in range(levels):
        nxt, err = [], ""
        for c in cur:
            for pick in (0, 1) if how == 2 else (0,):
                b = tuple(binned(x, axis, how, pick) if x is not None else None for x in c)
                dd = {"f1": b[0], "f2": b[1], "axis": axis, "N": b[0].shape[axis], "t1": None, "t2": None}
                w = [hide(x, j) for j, x in enumerate(spec(dd, cross, m, nn, size, cplx, b[2], b[3]))]
                ok = [agrees(None if g is None else g[l], x) for g, x in zip(r[1], w)]
                if all(ok):
                    nxt.append(b)
                else:
                    err = err or ": part %d of level %d" % (ok.index(False), l)
        if not nxt:
            return at + err
        cur = nxt[:2]
    return ""


SCENARIOS = [("ccorr_multi", lambda rng, i: run(rng, i, True)), ("acorr_multi", lambda rng, i: run(rng, i, False))]
