from lib import *
from cddm.map import as_rfft2_data, as_rfft2_conj, from_rfft2_data, as_rfft2_mask
from cddm.fft import rfft2_crop, fft2_crop


def pick(rng):
    rank = int(rng.integers(2, 5))
    sh = [int(v) for v in rng.integers(1, 7, rank)]
    a1, a2 = sorted(int(v) for v in rng.choice(rank, 2, replace=False))
    axes = [a1, a2]
    if rng.random() < 0.3:
        axes = axes[::-1]
    axes = tuple(a - rank if rng.random() < 0.4 else a for a in axes)
    return sh, a1, a2, axes


def args(axes, rank):
    return {} if tuple(a % rank for a in axes) == (rank - 2, rank - 1) and axes[1] < 0 else {"axes": axes}


def expand(rng, i):
    """transform of a real image, possibly cropped; full plane back"""
    sh, a1, a2, axes = pick(rng)
    rank = len(sh)
    x = np.moveaxis(rng.normal(size=sh), (a1, a2), (-2, -1))
    H, W = x.shape[-2:]
    h, full = np.fft.rfft2(x), np.fft.fft2(x)
    kw = args(axes, rank)
    back = lambda z: np.moveaxis(z, (-2, -1), (a1, a2))
    kind = i % 4
    if kind == 0:                               # width known
        kw["shape"] = (H, W)
    elif kind == 1:                             # width inferred: odd
        if W % 2 == 0:
            ki, kj = H // 2, W // 2 - 1
            h, full = rfft2_crop(h, None, kj), fft2_crop(full, None, kj)
    else:                                       # cropped, frame shape given or not
        ki, kj = int(rng.integers(0, H // 2 + 1)) if H % 2 else int(rng.integers(0, max(1, H // 2))), int(rng.integers(0, (W + 1) // 2))
        h, full = rfft2_crop(h, ki, kj), fft2_crop(full, ki, kj)
        if kind == 2:
            kw["shape"] = (H, W)
    h, full = layout(rng, back(h)), back(full)
    b = h.copy()
    inp = dict(h=b, kw=kw)
    r = from_rfft2_data(h, **kw)
    same("full plane", r, full, inp)
    same("input modified", h, b)
    if rng.random() < 0.5:
        a = from_rfft2_data(layout(rng, np.abs(h)), **kw)
        same("full plane of moduli", a, np.abs(full), inp)
    return "%s %s %d" % (sh, axes, kind)


def halves(rng, i):
    sh, a1, a2, axes = pick(rng)
    rank = len(sh)
    k = i % 4
    a = rng.normal(size=sh) + 1j * rng.normal(size=sh) if k == 0 else rng.normal(size=sh) if k == 1 else \
        rng.integers(0, 9, sh) if k == 2 else rng.random(sh) < 0.5
    a = layout(rng, a)
    b = a.copy()
    kw = args(axes, rank)
    inp = dict(a=b, kw=kw)
    H, W = sh[a1], sh[a2]
    w = W // 2 + 1
    m = np.moveaxis(b, (a1, a2), (-2, -1))
    d = np.moveaxis(as_rfft2_data(a, **kw), (a1, a2), (-2, -1))
    c = np.moveaxis(as_rfft2_conj(a, **kw), (a1, a2), (-2, -1))
    same("value at k", d, m[..., :w], inp)
    true("type", d.dtype == a.dtype and c.dtype == a.dtype, inp)
    want = c.copy()
    for p in range(H):
        for q in range(1, w):
            want[..., p, q] = m[..., -p, -q]
    same("value at -k", c, want, inp)
    if k == 3:
        r = np.moveaxis(as_rfft2_mask(a, **kw), (a1, a2), (-2, -1))
        sel = m[..., :w].copy()
        for p in range(H):
            for q in range(1, w):
                sel[..., p, q] |= m[..., -p, -q]
        same("mask", r, sel, inp)
    same("input modified", a, b)
    return "%s %s %d" % (sh, axes, k)


def rejects(rng, i):
    h, w = (int(v) for v in rng.integers(1, 6, 2))
    a = rng.normal(size=(h, w))
    raises("height", ValueError, from_rfft2_data, a, shape=(h - 1, 2 * w))
    if w > 1:
        raises("width", ValueError, from_rfft2_data, a, shape=(h, 2 * w - 3 - int(rng.integers(0, 2))))
    return "%d %d" % (h, w)


SCENARIOS = [("expand", expand), ("halves", halves), ("rejects", rejects)]
