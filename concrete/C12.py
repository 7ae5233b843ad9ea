from lib import *
from cddm.norm import fold_data, equalize_data, shift_data, take_data


def mk(rng):
    n = int(rng.integers(1, 8))
    sh = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, 4)))) + (2 * n - 1,)
    return n, sh, cdata(rng, sh)


def fold(rng, i):
    n, sh, x = mk(rng)
    b = x.copy()
    mode = int(rng.integers(-1, 2))
    r = fold_data(x) if mode == 0 and i % 2 else fold_data(x, mode)
    want = np.empty(sh[:-1] + (n,), complex)
    for k in range(n):
        p, m = b[..., k], b[..., -k] if k else None
        want[..., k] = p if k == 0 else ((p + np.conj(m)) / 2 if mode == 0 else p if mode == 1 else m)
    same("fold mode %d" % mode, r, want, dict(data=x, mode=mode))
    r[...] = 7
    same("data modified", x, b)
    return "%s %d" % (sh, mode)


def alignment(rng, i):
    n, sh, x = mk(rng)
    b = x.copy()
    eq = bool(i % 2)
    r = (equalize_data if eq else shift_data)(x)
    inp = dict(data=x)
    same("shape", r.shape, x.shape, inp)
    same("zero delay", r[..., 0], np.abs(b[..., 0]) + 0j, inp)
    for k in range(1, n):
        p, q, z, w = r[..., k], r[..., -k], b[..., k], np.conj(b[..., -k])
        if eq:
            same("opposite delays are conjugate, delay %d" % k, q, np.conj(p), inp)
            same("square at %d" % k, p * p, z * w, inp)
        else:
            same("modulus at %d" % k, np.abs(p), np.abs(z), inp)
            same("modulus at -%d" % k, np.abs(q), np.abs(w), inp)
            same("opposite phases at %d" % k, p * np.abs(w), np.conj(q) * np.abs(z), inp)
            same("common phase removed at %d" % k, p * p * np.abs(w), z * w * np.abs(z), inp)
    if not eq and n > 1:
        # a misalignment phase is removed: symmetric data times a phase gives back the symmetric data
        s = np.concatenate([np.abs(b[..., :1]), b[..., 1:n], np.conj(b[..., n - 1:0:-1])], -1)
        for a in (0.0, float(rng.uniform(-0.3, 0.3))):
            ok = np.abs(np.angle(s)) < np.pi - abs(a) - 1e-6
            g = shift_data(s * np.exp(1j * a))
            same("misalignment phase %g" % a, np.where(ok, g, 0), np.where(ok, s, 0), dict(s=s, a=a))
    same("data modified", x, b)
    return "%s %s" % (sh, eq)


def rejects(rng, i):
    n, sh, x = mk(rng)
    for f in (fold_data, equalize_data, shift_data):
        raises("real data", ValueError, f, x.real)
    raises("mode", ValueError, fold_data, x, int(rng.choice([2, -2, 3, 10])))
    return str(sh)


def take(rng, i):
    fsh = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(1, 3))))
    lead = () if i % 2 else (int(rng.integers(1, 4)),)
    n = int(rng.integers(1, 5))
    m = rng.random(fsh) < rng.choice([0.3, 0.7])
    kind = int(rng.integers(4, 6))
    d = []
    for k in range(kind):
        if k == 1:
            d.append(rng.integers(0, 9, lead + (n,)))
        elif k > 1 and rng.random() < 0.4:
            d.append(None)
        else:
            d.append(rng.normal(size=lead + fsh + (n,)))
    b = [None if a is None else a.copy() for a in d]
    r = take_data(tuple(d), m)
    true("parts", len(r) == kind, dict(d=d, m=m))
    sel = [ix for ix in np.ndindex(*fsh) if m[ix]]
    for k in range(kind):
        if d[k] is None:
            true("absent part", r[k] is None)
        elif k == 1:
            same("count", r[k], b[k])
        else:
            want = np.stack([b[k][(Ellipsis,) + ix + (slice(None),)] for ix in sel], -2) if sel else np.zeros(lead + (0, n))
            same("part %d" % k, r[k], want, dict(d=d, m=m))
            same("data modified", d[k], b[k])
    return "%s %s %s %d" % (fsh, lead, n, kind)


SCENARIOS = [("fold", fold), ("align", alignment), ("rejects", rejects), ("take", take)]
