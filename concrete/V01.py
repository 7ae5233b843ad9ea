from lib import *
from cddm import video as V, fft as F
from cddm.conf import CDDMConfig, set_rfft2lib, set_fftlib, SCIPY_INSTALLED

DT = {"F": np.float64, "I": np.int64, "C": np.complex128, "B": np.uint8, "f": np.float32}


def video(rng, n, shapes, dt, lo=1, hi=9):
    out = []
    for _ in range(n):
        fr = []
        for sh in shapes:
            a = rng.integers(lo, hi, sh) if dt in "IB" else rng.normal(size=sh) + (1j * rng.normal(size=sh) if dt == "C" else 0)
            fr.append(np.asarray(a, DT[dt]))
        out.append(tuple(fr))
    return out


def shapes_of(rng, cams, lo=1):
    return [(int(rng.integers(lo, 7)), int(rng.integers(lo, 7))) for _ in range(cams)]


def feed(v, k):
    return iter(v) if k % 3 == 0 else (f for f in v) if k % 3 == 1 else v


def copy(v):
    return [tuple(f.copy() for f in fr) for fr in v]


def compare(what, out, want, inputs, before, inplace=False):
    out = list(out)
    if len(out) != len(want):
        return "%s: %d outputs for %d inputs" % (what, len(out), len(want))
    for i, (o, w) in enumerate(zip(out, want)):
        if not isinstance(o, tuple) or len(o) != len(w):
            return "%s: output %d is not a tuple of one frame per camera" % (what, i)
        for c, (x, y) in enumerate(zip(o, w)):
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9):
                return "%s: frame %d of camera %d is not the operation on the frame at that position" % (what, i, c)
    if not inplace:
        for v, b in zip(inputs, before):
            for i, (fr, ofr) in enumerate(zip(v, b)):
                if any(not np.array_equal(x, y) for x, y in zip(fr, ofr)):
                    return "%s: input frame %d modified" % (what, i)
    return ""


def binary(rng, i):
    fn = ("add", "subtract", "multiply")[i % 3]
    op = {"add": np.add, "subtract": np.subtract, "multiply": np.multiply}[fn]
    cams, n = int(rng.integers(1, 4)), int(rng.integers(0, 6))
    sh = shapes_of(rng, cams)
    dx, dy = [("F", "F"), ("I", "I"), ("C", "F"), ("F", "I"), ("C", "C"), ("f", "f")][int(rng.integers(0, 6))]
    x, y = video(rng, n, sh, dx), video(rng, n, sh, dy)
    inplace = bool(rng.random() < 0.3)
    if dx == "f":
        x, y = copy(x), copy(y)
    bx, by = copy(x), copy(y)
    want = [tuple(op(a, b) for a, b in zip(f, g)) for f, g in zip(bx, by)]
    k = {"inplace": True} if inplace else ({"dtype": "float64"} if dx == "I" and rng.random() < 0.5 else {})
    e = compare("%s(%r)" % (fn, k), getattr(V, fn)(feed(x, i), feed(y, i + 1), **k), want, [x, y], [bx, by], inplace)
    if not e and inplace and any(not np.array_equal(a, b) for f, g in zip(y, by) for a, b in zip(f, g)):
        e = fn + ": the second video was modified"
    if e:
        return e
    if n:
        j = int(rng.integers(0, n))
        bad = list(y)
        bad[j] = y[j] + (y[j][0],) if rng.random() < 0.5 else y[j][:-1]
        got = 0
        try:
            for _ in getattr(V, fn)(x, bad):
                got += 1
            return fn + ": frame tuples of different lengths accepted"
        except ValueError:
            if got != j:
                return "%s: rejected at tuple %d instead of %d" % (fn, got, j)
    return ""


def one_video(rng, i):
    cams, n = int(rng.integers(1, 4)), int(rng.integers(0, 6))
    which = ("normalize_video", "normalize_fft", "crop", "mask")[i % 4]
    sh = shapes_of(rng, cams) if which != "mask" else shapes_of(rng, 1) * cams
    dt = "FICf"[int(rng.integers(0, 4))]
    x = video(rng, n, sh, dt)
    b = copy(x)
    inplace = False
    if which in ("normalize_video", "normalize_fft"):
        inplace = bool(dt != "I" and rng.random() < 0.4)
        d = (lambda f: f.mean()) if which == "normalize_video" else (lambda f: f[0, 0])
        want = [tuple(f / d(f) for f in fr) for fr in b]
        out = getattr(V if which == "normalize_video" else F, which)(feed(x, i), **({"inplace": True} if inplace else {}))
        if dt == "f":
            out = (tuple(np.where(np.abs(a - w) < 1e-3 * np.abs(w).max(), w, a) for a, w in zip(o, ww)) for o, ww in zip(out, want))
    elif which == "crop":
        def sl():
            t = [None if rng.random() < 0.3 else int(rng.integers(-3, 8)) for _ in range(2)]
            if rng.random() < 0.3:
                t.append(int(rng.choice([1, 2, 3])))
            return t
        a, c = sl(), sl()
        roi = tuple(slice(*t) if rng.random() < 0.5 else (tuple(t) if rng.random() < 0.5 else t) for t in (a, c))
        want = [tuple(f[slice(*a), slice(*c)] for f in fr) for fr in b]
        out = V.crop(feed(x, i), roi) if rng.random() < 0.5 else V.crop(feed(x, i), roi=list(roi))
    else:
        m = rng.random(sh[0]) < 0.5
        want = [tuple(f[m] for f in fr) for fr in b]
        out = V.mask(feed(x, i), m)
    return compare(which, out, want, [x], [b], inplace)


def crop_index(k, lim, n):
    return list(range(n)) if lim is None else list(range(0, lim + 1)) + [n - j for j in range(lim, 0, -1)]


def transforms(rng, i):
    old = set_rfft2lib("numpy"), set_fftlib("numpy")
    try:
        if SCIPY_INSTALLED and i % 2:
            set_rfft2lib("scipy")
            set_fftlib("scipy")
        fn = ("rfft2_video", "fft2_video")[(i // 2) % 2]
        cams, n = int(rng.integers(1, 3)), int(rng.integers(0, 4))
        sh = shapes_of(rng, cams, 2)
        dt = "FIB"[int(rng.integers(0, 3))] if fn == "rfft2_video" or rng.random() < 0.6 else "C"
        x = video(rng, n, sh, dt)
        b = copy(x)
        H, W = min(s[0] for s in sh), min(s[1] for s in sh)
        ki = None if rng.random() < 0.3 else int(rng.integers(0, H // 2 + 1))
        kj = None if rng.random() < 0.3 else int(rng.integers(0, W // 2 + 1))
        # an even axis cut at its largest wave number would need it twice
        want = []
        for fr in b:
            t = []
            for f in fr:
                h, w = f.shape
                X = np.fft.fft2(f)
                rows = crop_index("i", ki, h)
                cols = (list(range(w // 2 + 1)) if kj is None else list(range(kj + 1))) if fn == "rfft2_video" else crop_index("j", kj, w)
                t.append(X[np.ix_(rows, cols)])
            want.append(tuple(t))
        e = compare(fn, getattr(F, fn)(feed(x, i), kimax=ki, kjmax=kj), want, [x], [b])
        if e:
            return e
        if n:
            h, w = sh[0]
            k = {"kimax": h // 2 + 1 + int(rng.integers(0, 3))} if i % 3 else {"kjmax": w // 2 + 1 + int(rng.integers(0, 3))}
            try:
                list(getattr(F, fn)(x, **k))
                return "%s accepted %r for shape %r" % (fn, k, (h, w))
            except ValueError:
                pass
        return ""
    finally:
        set_rfft2lib(old[0])
        set_fftlib(old[1])


SCENARIOS = [("two videos", binary), ("one video", one_video), ("transforms", transforms)]
