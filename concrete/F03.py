from lib import *
import warnings
from cddm import map as cmap


def freqs(n):
    return np.array([p if p <= (n - 1) // 2 else p - n for p in range(n)], float)


def steps(shape):
    if shape is None:
        return 1.0, 1.0
    H, W = shape
    return (1.0, H / W) if H > W else (W / H, 1.0)


def vectors(half, rows, cols, shape):
    si, sj = steps(shape)
    i, j = freqs(rows) * si, (np.arange(cols, dtype=float) if half else freqs(cols)) * sj
    return np.repeat(i[:, None], cols, 1), np.repeat(j[None, :], rows, 0)


def sizes(rng, half):
    H, W = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    k, rows, cols = {}, H, (W // 2 + 1 if half else W)
    shape = (H, W) if rng.random() < 0.6 else None
    if shape is None or rng.random() < 0.5:
        k["kisize"], rows = n, n
    if shape is None or rng.random() < 0.5:
        k["kjsize"], cols = m, m
    if shape is not None:
        k["shape"] = shape
    return k, rows, cols, shape


def grids(rng, i):
    half = bool(i % 2)
    k, rows, cols, shape = sizes(rng, half)
    y, x = vectors(half, rows, cols, shape)
    at = "%s %s" % ("rfft2" if half else "fft2", k)
    g = getattr(cmap, "rfft2_grid" if half else "fft2_grid")(**k)
    same("rows grid " + at, g[0], y)
    same("columns grid " + at, g[1], x)
    v, a = getattr(cmap, "rfft2_kangle" if half else "fft2_kangle")(**k)
    same("modulus " + at, v, np.hypot(y, x))
    if np.shape(a) != y.shape:
        return at + ": angle shape %s" % (np.shape(a),)
    e = np.abs(np.exp(1j * a) * v - (x - 1j * y))
    if (e > 1e-9 * (1 + v)).any() or (np.abs(a) > np.pi + 1e-9).any():
        return "%s: angle %s, expected %s" % (at, show(a), show(np.arctan2(-y, x)))


def check(at, got, v, a, half, angle, sector, kstep):
    got = np.asarray(got)
    if got.shape != v.shape or got.dtype.kind != "i":
        return "%s: %s %s" % (at, got.shape, got.dtype)
    turn = 180.0 if half else 360.0
    d = (np.degrees(a) - angle + turn / 2) % turn - turn / 2
    inside = np.abs(d) < sector / 2
    edge = np.abs(np.abs(d) - sector / 2) < 1e-7
    near = np.abs(got * kstep - v) <= kstep / 2 * (1 + 1e-9) + 1e-12
    for p in np.ndindex(*v.shape):
        if p == (0, 0):
            ok = got[p] == 0
        elif half and p[1] == 0 and p[0] > v.shape[0] // 2:
            ok = got[p] == -1
        elif edge[p]:
            ok = got[p] == -1 or near[p]
        elif inside[p]:
            ok = got[p] >= 0 and near[p]
        else:
            ok = got[p] == -1
        if not ok:
            return "%s: pixel %s of modulus %r and direction %r is labelled %d" % (at, p, v[p], np.degrees(a[p]), got[p])


def params(rng, half):
    lim = 90 if half else 180
    angle = float(rng.choice([0, lim, -lim, lim / 2, 37.5, rng.uniform(-lim, lim)]))
    sector = float(rng.choice([5, 30, 180, 90, 179, 0.5, rng.uniform(0.01, 180)]))
    kstep = float(rng.choice([1, 1, 0.5, 2, 1.7, rng.uniform(0.1, 4)]))
    return angle, sector, kstep


def maps(rng, i):
    half = bool(i % 2)
    fn = "sector_indexmap" if half else "fft2_sector_indexmap"
    k, rows, cols, shape = sizes(rng, half)
    y, x = vectors(half, rows, cols, shape)
    v, a = np.hypot(y, x), np.arctan2(-y, x)
    if rng.random() < 0.3:
        v = rng.random(v.shape) * 6
        a = rng.uniform(-1, 1, v.shape) * (np.pi / 2 if half else np.pi)
    angle, sector, kstep = params(rng, half)
    kw = {} if kstep == 1 and rng.random() < 0.5 else {"kstep": kstep}
    keep = v.copy(), a.copy()
    got = getattr(cmap, fn)(v, a, angle, sector, **kw)
    at = "%s(%s, %s, %r, %r, %s)" % (fn, show(v), show(a), angle, sector, kw)
    if (keep[0] != v).any() or (keep[1] != a).any():
        return at + ": the maps were changed"
    return check(at, got, v, a, half, angle, sector, kstep)


def whole(rng, i):
    half = bool(i % 2)
    mode = None if half else [None, "rfft2", "fft2"][int(rng.integers(3))]
    angle, sector, kstep = params(rng, half)
    shape = None
    H, W = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    n, m = int(rng.integers(1, 10)), int(rng.integers(1, 8))
    if rng.random() < 0.5:
        shape = (H, W)
        n = int(rng.integers(1, H + 1))
        m = int(rng.integers(1, W // 2 + 2)) if half or mode != "fft2" else int(rng.integers(1, W + 1))
        if rng.random() < 0.4:
            n, m = H, (W // 2 + 1 if half or mode != "fft2" else W)
    rows, cols = n, m
    if not half and mode != "fft2":
        cols = 2 * m - 1
        if shape and cols == W + 1:
            cols = W
    k = {"kstep": kstep}
    if mode:
        k["mode"] = mode
    if shape:
        k["shape"] = shape
    fn = "k_indexmap" if half else "fft2_k_indexmap"
    got = getattr(cmap, fn)(n, m, angle, sector, **k)
    y, x = vectors(half, rows, cols, shape)
    return check("%s(%d, %d, %r, %r, %s)" % (fn, n, m, angle, sector, k), got, np.hypot(y, x), np.arctan2(-y, x), half, angle, sector, kstep)


def bad(rng, i):
    half = bool(i % 2)
    lim = 90 if half else 180
    fn = getattr(cmap, "sector_indexmap" if half else "fft2_sector_indexmap")
    v, a = getattr(cmap, "rfft2_kangle" if half else "fft2_kangle")(int(rng.integers(1, 6)), int(rng.integers(1, 6)))
    angle, sector = float(rng.uniform(-lim, lim)), float(rng.uniform(0.1, 180))
    if rng.random() < 0.5:
        angle = float(rng.choice([lim + 0.001, -lim - 0.001, lim * 3]))
    else:
        sector = float(rng.choice([0, -0.001, 180.001, -40, 400]))
    for args in ((v, a, angle, sector), (v, a, angle, sector, 2.0)):
        raises("%s angle %r sector %r" % (fn.__name__, angle, sector), ValueError, fn, *args)
    for nm in ("rfft2_grid", "rfft2_kangle", "fft2_grid", "fft2_kangle"):
        for kw in ({}, {"kisize": 4}, {"kjsize": 4}):
            raises("%s without the shape" % nm, ValueError, getattr(cmap, nm), **kw)


warnings.simplefilter("ignore")
SCENARIOS = [("grids, modulus and angle", grids), ("sector maps", maps), ("maps of the data sizes", whole), ("invalid sectors rejected", bad)]
