from gen import *
import itertools
from cddm.norm import norm_flags, norm_from_string, normalize
from cddm import norm as NM
from cddm.core import ccorr, acorr, _default_norm

CORR = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)
NAMES = {"baseline": 0, "standard": 1, "structured": 2, "weighted": 3, "subtracted": 4, "compensated": 8}


def value_error(what, inputs, f, *a, **k):
    try:
        f(*a, **k)
    except ValueError:
        return
    except Exception as e:
        raise Fail("%s: raised %s instead of ValueError; inputs %s" % (what, type(e).__name__, inputs))
    raise Fail("%s: no ValueError; inputs %s" % (what, inputs))


def flags(rng, i):
    a, b, c, d = [bool(i >> k & 1) for k in range(4)] if i < 16 else [bool(x) for x in rng.integers(0, 2, 4)]
    want = (2 if a else 0) | (4 if b else 0) | (3 if c else 0) | (8 if d else 0) | (0 if a or c else 1)
    r = norm_flags(structured=a, subtracted=b, weighted=c, compensated=d)
    true("norm_flags", r == want, dict(structured=a, subtracted=b, weighted=c, compensated=d, got=r, expected=want))
    return "%s" % want


def mess(rng, s):
    s = "".join(c.upper() if rng.random() < 0.4 else c for c in s)
    return " " * int(rng.integers(0, 3)) + s + " " * int(rng.integers(0, 3))


def text(rng, i):
    k = int(rng.integers(1, 5))
    names = [sorted(NAMES)[int(j)] for j in rng.integers(0, len(NAMES), k)]
    t = "|".join(mess(rng, n) for n in names)
    w = 0
    for n in names:
        w |= NAMES[n]
    if w % 4 == 0:
        w |= 1
    if rng.random() < 0.3:
        bad = ["", "foo", "stand", "standardx", "norm_standard", "3", "structured subtracted", "__class__", "*"][int(rng.integers(0, 9))]
        j = int(rng.integers(0, k + 1))
        l = t.split("|")
        l.insert(j, bad)
        value_error("invalid text", "|".join(l), norm_from_string, "|".join(l))
        return "bad " + bad
    r = norm_from_string(t)
    true("norm_from_string", r == w, dict(text=t, got=r, expected=w))
    return t.lower().replace(" ", "")


def parts(rng, kind, p):
    K, n = 4, int(rng.integers(3, 7))
    c = rng.integers(1, 9, n)
    z = lambda: rng.normal(size=(K, n)) + 1j * rng.normal(size=(K, n))
    f = lambda: rng.normal(size=(K, n)) * 3 + 1
    if kind == "corr":
        return (f(), c, f() if p[0] else None, z() if p[1] else None, z() if p[2] else None)
    return (f(), c, z() if p[0] else None, z() if p[1] else None)


def available(kind, p):
    if kind == "corr":
        return [m for m in CORR if (p[0] or not m & 2) and (p[1] or not m & 12)]
    return [2] + ([6] if p[0] and p[1] else [])


def table(rng, i):
    kind = "corr" if rng.random() < 0.6 else "diff"
    p = [bool(x) for x in rng.integers(0, 2, 3 if kind == "corr" else 2)]
    if kind == "corr" and p[2] and not p[1]:
        p[1] = True
    data = parts(rng, kind, p)
    m = int(rng.integers(-1, 18))
    t = m
    ok = m in available(kind, p)
    if 0 < m < 16 and rng.random() < 0.3:
        t = "|".join(n for n, b in NAMES.items() if b and m & b == b)
        if not m % 4:
            ok = (m | 1) in available(kind, p)
    z = lambda: rng.normal(size=4) + 1j * rng.normal(size=4)
    kw = dict(background=(z(), z()), variance=(np.ones(4) * 2, np.ones(4) * 3))
    inputs = dict(kind=kind, parts=p, norm=t)
    if ok:
        normalize(data, norm=t, **kw)
    else:
        value_error("flags without their data", inputs, normalize, data, norm=t, **kw)
    d = max(x for x in available(kind, p) if not x & 8)
    a, b = normalize(data, **kw), normalize(data, norm=d, **kw)
    same("default norm is the richest", a, b, inputs)
    return "%s %s %s" % (kind, p, t)


def request(rng, i):
    method = ["corr", "fft", "diff"][int(rng.integers(0, 3))]
    cross = bool(rng.random() < 0.5)
    m = int(rng.integers(-1, 17))
    sup = (1, 2, 3, 5, 6, 7) if method != "diff" else ((2, 6) if cross else (2,))
    z = lambda: rng.normal(size=(5, 2)) + 1j * rng.normal(size=(5, 2))
    fn, a = (ccorr, (z(), z())) if cross else (acorr, (z(),))
    inputs = dict(method=method, cross=cross, norm=m)
    if m in sup:
        r = fn(*a, n=3, method=method, norm=m)
        if method != "diff":
            true("parts", (r[2] is not None) == bool(m & 2) and (r[3] is not None) == bool(m & 4), inputs)
        true("accepted", _default_norm(m, method, cross) == m, inputs)
    else:
        value_error("unsupported flags", inputs, fn, *a, n=3, method=method, norm=m)
    r, q = fn(*a, n=3, method=method), fn(*a, n=3, method=method, norm=sup[-1])
    true("default", [x is None for x in r] == [x is None for x in q], inputs)
    return str(inputs)


SCENARIOS = [("flags", flags), ("text", text), ("table", table), ("request", request)]
