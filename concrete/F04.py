from lib import *
import warnings
from cddm import map as cmap


def naive(D, L, K, M, number, half):
    """(mean modulus, mean data) over the pixels of the full plane with this label, or None"""
    H, W = L.shape
    ks, vs = [], []
    for i in range(H):
        for j in range(W):
            if L[i, j] != number:
                continue
            p, own = (i, j), True
            if half and j >= W // 2 + 1:
                p, own = ((H - i) % H, W - j), False
            if M is not None and not M[p]:
                continue
            v = D[..., p[0], p[1], :]
            ks.append(K[i, j])
            vs.append(v if own else np.conj(v))
    if not ks:
        return None
    return np.mean(ks), np.mean(vs, axis=0)


def setup(rng, half):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 7))
    shape = None
    rows, cols = n, (2 * m - 1 if half else m)
    if rng.random() < 0.6:
        H, W = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        shape = (H, W)
        n = H if rng.random() < 0.6 else int(rng.integers(1, H + 1))
        top = W // 2 + 1 if half else W
        m = top if rng.random() < 0.6 else int(rng.integers(1, top + 1))
        rows, cols = n, (2 * m - 1 if half else m)
        if half and cols == W + 1:
            cols = W
    return n, m, rows, cols, shape


def freqs(n):
    return np.array([p if p <= (n - 1) // 2 else p - n for p in range(n)], float)


def labels(rows, cols, shape, angle, sector, kstep):
    """naive labels; the pixels on a boundary of the sector or between two steps are marked unsure"""
    si = sj = 1.0
    if shape is not None:
        H, W = shape
        si, sj = (1.0, H / W) if H > W else (W / H, 1.0)
    y, x = np.meshgrid(freqs(rows) * si, freqs(cols) * sj, indexing="ij")
    v, a = np.hypot(y, x), np.degrees(np.arctan2(-y, x))
    d = (a - angle + 180) % 360 - 180
    L = np.where(np.abs(d) < sector / 2, np.floor(v / kstep + 0.5).astype(int), -1)
    L[0, 0] = 0
    f = v / kstep + 0.5
    unsure = (np.abs(np.abs(d) - sector / 2) < 1e-7) | (np.abs(f - np.round(f)) < 1e-9) & (np.abs(d) < sector / 2)
    unsure[0, 0] = False
    return v, L, unsure


def select(rng, i):
    half = bool(i % 3)
    n, m, rows, cols, shape = setup(rng, half)
    angle = float(rng.choice([0, 180, -180, 90, 45, rng.uniform(-180, 180)])) + float(rng.choice([0, 0.013]))
    angle = min(max(angle, -180), 180)
    sector = float(rng.choice([180, 90, 30, 179, rng.uniform(1, 180)]))
    kstep = float(rng.choice([1, 1, 0.5, 2, rng.uniform(0.3, 3)]))
    K, L, unsure = labels(rows, cols, shape, angle, sector, kstep)
    if unsure.any():
        # labels at a boundary are F03's subject; they are taken from the library
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = cmap.fft2_k_indexmap(rows, cols, angle, sector, kstep, shape, "fft2")
        L = np.where(unsure, got, L)
    lead = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3))))
    T = int(rng.integers(1, 5))
    D = rng.integers(-9, 10, lead + (n, m, T)).astype(float)
    if rng.random() < 0.7:
        D = D + 1j * rng.integers(-9, 10, D.shape)
    kw = {"kstep": kstep}
    M, data = None, D
    kind = int(rng.integers(3))
    if kind:
        M = rng.random((n, m)) < float(rng.choice([0.3, 0.7, 1.0]))
        kw["mask"] = M
        if kind == 2:
            data = D[..., M, :]
            if data.shape[-3:-1] == (n, m):
                return None
    if shape is not None:
        kw["shape"] = shape
    if not half:
        kw["mode"] = "fft2"
    elif rng.random() < 0.5:
        kw["mode"] = "rfft2"
    top = int(L.max()) + 1
    how = int(rng.integers(4))
    if how == 0:
        numbers = list(range(top))
    elif how == 1:
        numbers = [int(v) for v in rng.integers(0, top + 2, int(rng.integers(0, 4)))]
        kw["k"] = [v + float(rng.choice([0, 0.3, -0.4])) for v in numbers]
    else:
        numbers = int(rng.integers(0, top + 1))
        kw["k"] = numbers if how == 2 else numbers + float(rng.choice([0, 0.3, -0.4]))
    keep = data.copy()
    r = cmap.k_select(data, angle, sector, **kw)
    at = "k_select(%s, %r, %r, %s), full data %s" % (show(data), angle, sector, show(kw), show(D))
    if (keep != data).any():
        return at + ": the data were changed"
    if isinstance(numbers, list):
        want = [x for x in (naive(D, L, K, M, v, half) for v in numbers) if x is not None]
        r = tuple(r)
        if len(r) != len(want):
            return "%s: %d results, expected %d" % (at, len(r), len(want))
    else:
        want, r = [naive(D, L, K, M, numbers, half)], [r]
        if want[0] is None or r[0] is None:
            return None if want[0] is None and r[0] is None else "%s: %s, expected %s" % (at, show(r[0]), show(want[0]))
    for (a, b), (c, d) in zip(r, want):
        if abs(a - c) > 1e-9 * (1 + abs(c)):
            return "%s: mean modulus %r, expected %r" % (at, a, c)
        if np.shape(b) != np.shape(d) or not np.allclose(b, d, rtol=1e-9, atol=1e-9):
            return "%s: mean data %s, expected %s" % (at, show(b), show(d))


def halves(rng, i):
    H, W = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    lead = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 3))))
    a = rng.standard_normal(lead + (H, W))
    f = np.fft.fft2(a)
    h = np.fft.rfft2(a)
    kind = int(rng.integers(3))
    x = {0: f, 1: f.real.copy(), 2: rng.random(f.shape) < 0.5}[kind]
    axes = (-2, -1)
    y = x
    kw = {}
    if lead and rng.random() < 0.5:
        axes = (0, 1)
        y = np.moveaxis(x, (-2, -1), axes).copy()
        kw["axes"] = axes
    back = lambda v: np.moveaxis(v, axes, (-2, -1))
    at = "of %s with %s" % (show(y), kw)
    whalf = W // 2 + 1
    d = back(cmap.as_rfft2_data(y, **kw))
    same("as_rfft2_data " + at, d, x[..., :whalf])
    c = back(cmap.as_rfft2_conj(y, **kw))
    if c.shape != d.shape:
        return "as_rfft2_conj %s: shape %s" % (at, c.shape)
    want = np.stack([np.stack([x[..., (-p) % H, W - q] for q in range(1, whalf)], -1) if whalf > 1 else x[..., 0, :0] for p in range(H)], -2)
    same("as_rfft2_conj " + at, c[..., 1:], want)
    if kind == 2:
        if c[..., 0].any():
            return "as_rfft2_conj %s: the first column holds data" % at
        e = x[..., :whalf].copy()
        e[..., 1:] |= want
        same("as_rfft2_mask " + at, back(cmap.as_rfft2_mask(y, **kw)), e)
    z = np.moveaxis(h, (-2, -1), axes).copy() if kw else h
    r = back(cmap.from_rfft2_data(z, (H, W), **kw))
    if r.shape != f.shape or not np.allclose(r, f, atol=1e-9):
        return "from_rfft2_data of the transform of %s with %s: %s, expected %s" % (show(a), kw, show(r), show(f))
    if W % 2:
        r = back(cmap.from_rfft2_data(z, **kw))
        if r.shape != f.shape or not np.allclose(r, f, atol=1e-9):
            return "from_rfft2_data without shape of the transform of %s: %s" % (show(a), show(r))


SCENARIOS = [("selection", select), ("selection again", select), ("half planes", halves)]
