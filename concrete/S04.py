from lib import *
from cddm import sim


def setup(rng):
    bits = int(rng.integers(1, 17))
    sat = float(rng.choice([1.0, 255.0, 32768.0, 1000.0, rng.random() * 100 + 0.01]))
    bl = float(rng.choice([0.0, 10.0, -3.0, rng.normal() * 20]))
    sh = tuple(int(v) for v in rng.integers(0, 6, int(rng.integers(0, 4))))
    return bits, 2 ** bits - 1, sat, bl, sh


def values(rng, sat, bl, top, sh):
    n = int(np.prod(sh))
    kind = int(rng.integers(4))
    if kind == 0:
        x = rng.uniform(bl - sat, bl + 2 * sat, n)
    elif kind == 1:
        x = bl + sat * (rng.integers(-1, top + 3, n) + rng.choice([0, 0.5, 0.25, -0.25], n)) / top
    elif kind == 2:
        x = rng.choice([bl, bl + sat, bl - sat, bl + sat * 10, bl + sat / 2, -1e12, 1e12, 0.0], n)
    else:
        x = np.round(rng.uniform(bl, bl + sat, n))
    return x.reshape(sh)


def clean(rng, i):
    bits, top, sat, bl, sh = setup(rng)
    if i % 7 == 0:
        bits, top, sat, bl, k = 14, 16383, 32768.0, 0.0, {}
    else:
        k = dict(saturation=sat, black_level=bl, bit_depth="%dbit" % bits)
    x = values(rng, sat, bl, top, sh)
    if rng.random() < 0.2:
        x = x.astype(int)
    if rng.random() < 0.2:
        k["readout_noise"] = float(rng.random() * 100)
    out = None
    if sh and rng.random() < 0.3:
        out = k["out"] = np.full(sh, 77, "uint16")
    keep = np.array(x)
    r = sim.adc(x, noise_model="none", **k)
    at = "adc of %s with %s" % (show(x), {a: b for a, b in k.items() if a != "out"})
    if np.shape(r) != sh or np.asarray(r).dtype.kind != "u":
        return at + ": result %s %s" % (np.shape(r), np.asarray(r).dtype)
    if out is not None and (r is not out):
        return at + ": the given array is not the result"
    if not (keep == x).all():
        return at + ": the frame was changed"
    v = np.asarray(r).astype(np.int64)
    if v.size and (v.min() < 0 or v.max() > top):
        return at + ": a count outside [0, %d]: %s" % (top, show(v))
    ideal = (np.asarray(x, float) - bl) / sat * top
    want = np.clip(np.floor(ideal), 0, top)
    e = 1e-9 * (1 + np.abs(ideal))
    lo, hi = np.clip(np.floor(ideal - e), 0, top), np.clip(np.floor(ideal + e), 0, top)
    if ((v < lo) | (v > hi)).any():
        return at + ": %s, expected %s" % (show(v), show(want))
    f = np.asarray(x, float).ravel()
    o = np.argsort(f, kind="stable")
    if (np.diff(v.ravel()[o]) < 0).any():
        return at + ": not monotone: %s" % show(v)
    return ""


def noisy(rng, i):
    bits, top, sat, bl, sh = setup(rng)
    x = np.abs(values(rng, sat, 0.0, top, sh)) % 1e5
    k = dict(saturation=sat, black_level=bl, bit_depth="%dbit" % bits, noise_model=("gaussian", "poisson")[i % 2])
    if rng.random() < 0.5:
        k["readout_noise"] = float(rng.choice([0, 1, 100]))
    r = np.asarray(sim.adc(x, **k)).astype(np.int64)
    at = "adc of %s with %s" % (show(x), k)
    if r.shape != sh:
        return at + ": shape %s" % (r.shape,)
    if r.size and (r.min() < 0 or r.max() > top):
        return at + ": a count outside [0, %d]: %s" % (top, show(r))
    return ""


def unknown(rng, i):
    m = ("uniform", "", "Gaussian", None, "no")[i % 5]
    try:
        sim.adc(np.ones((2, 2)), noise_model=m)
    except ValueError:
        return ""
    return "noise model %r accepted" % (m,)


SCENARIOS = [("clean", clean), ("noisy", noisy), ("unknown model", unknown)]
