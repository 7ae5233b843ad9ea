from lib import *
from cddm.fft import rfft2_crop, fft2_crop


def transform(rng):
    H, W = (int(v) for v in rng.integers(1, 10, 2))
    lead = tuple(int(v) for v in rng.integers(1, 3, int(rng.integers(0, 3))))
    half = bool(rng.integers(0, 2))
    a = rng.normal(size=lead + (H, W))
    x = np.fft.rfft2(a) if half else np.fft.fft2(a + 1j * rng.normal(size=a.shape))
    return H, W, lead, half, a, layout(rng, x)


def crops(rng, i):
    H, W, lead, half, a, x = transform(rng)
    Wx = x.shape[-1]
    ki = None if rng.random() < 0.3 else int(rng.integers(0, H // 2 + 1))
    kj = None if rng.random() < 0.3 else int(rng.integers(0, (Wx - 1 if half else W // 2) + 1))
    b = x.copy()
    f = rfft2_crop if half else fft2_crop
    r = f(x, ki, kj) if i % 2 else f(x, kimax=ki, kjmax=kj)
    inp = dict(x=b, half=half, kimax=ki, kjmax=kj)
    wi = list(range(H)) if ki is None else list(range(ki + 1)) + list(range(-ki, 0))
    if half:
        wj = list(range(Wx if kj is None else kj + 1))
    else:
        wj = list(range(W)) if kj is None else list(range(kj + 1)) + list(range(-kj, 0))
    want = np.empty(lead + (len(wi), len(wj)), complex)
    for p, u in enumerate(wi):
        for q, v in enumerate(wj):
            want[..., p, q] = b[..., u, v]
    same("cropped transform", r, want, inp)
    same("input modified", x, b, inp)
    true("type", r.dtype == x.dtype, inp)
    if ki is not None or kj is not None:
        r[...] = 9
        same("input shared with the result", x, b, inp)
    return "%s %s %s %s" % (x.shape, half, ki, kj)


def rejects(rng, i):
    H, W, lead, half, a, x = transform(rng)
    f = rfft2_crop if half else fft2_crop
    big_i = H // 2 + 1 + int(rng.integers(0, 3))
    big_j = (x.shape[-1] if half else W // 2 + 1) + int(rng.integers(0, 3))
    ok_i, ok_j = (None, int(rng.integers(0, H // 2 + 1))), (None, 0)
    raises("kimax", ValueError, f, x, big_i, ok_j[i % 2])
    raises("kjmax", ValueError, f, x, ok_i[i % 2], big_j)
    raises("both", ValueError, f, x, big_i, big_j)
    return "%s %s" % (x.shape, half)


SCENARIOS = [("crop", crops), ("rejects", rejects)]
