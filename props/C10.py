"""C10: normalization flags select exactly the valid modes."""
from props.common import *

NORM = "cddm.norm."
STANDARD, STRUCTURED, WEIGHTED, SUBTRACTED, COMPENSATED = 1, 2, 3, 4, 8
CORR = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)
DIFF = (2, 6)
REQ = {"corr": (1, 2, 3, 5, 6, 7), "fft": (1, 2, 3, 5, 6, 7), ("diff", True): (2, 6), ("diff", False): (2,)}
NAMES = {"baseline": 0, "standard": 1, "structured": 2, "weighted": 3, "subtracted": 4, "compensated": 8}


def flags(a, b, c, d):
    def body(S):
        want = (STRUCTURED if a else 0) | (SUBTRACTED if b else 0) | (WEIGHTED if c else 0) | (COMPENSATED if d else 0)
        if not a and not c:
            want |= STANDARD
        r = S.call(NORM + "norm_flags", structured=a, subtracted=b, weighted=c, compensated=d)
        S.prove("documented bits", eq(num(r), const(want)))
        r = S.call(NORM + "norm_flags", a, b, c, d)
        S.prove("documented bits (positional)", eq(num(r), const(want)))
    return body


def text_bits(names):
    w = 0
    for x in names:
        w |= NAMES[x]
    return w | STANDARD if w % 4 == 0 else w


def good_text():
    def body(S):
        for k in range(1, 7):
            for names in itertools.combinations(sorted(NAMES), k):
                for j, sp in enumerate(("|".join(names), " | ".join(reversed(names)), "|".join(n.upper() for n in names) + " ")):
                    r = S.call(NORM + "norm_from_string", sp)
                    S.prove("flags of text", eq(num(r), const(text_bits(names))))
    return body


BAD = ("", "foo", "structured|", "|subtracted", "structured,subtracted", "sub tracted", "2", "standard||weighted", "baselin", "weighted|x")


def bad_text(t):
    def body(S):
        S.raises("invalid text is rejected", NORM + "norm_from_string", t, only="ValueError")
    return body


def parts_(S, kind, p):
    K, N = S.dims("K", lo=1), S.dims("n", lo=3)
    c = S.arr("count", (N,), "I")
    d = S.arr("corr", (K, N), "F")
    if kind == "corr":
        sq, s1, s2 = p
        return (d, c, S.arr("sq", (K, N), "F") if sq else None, S.arr("s1", (K, N), "C") if s1 else None,
                S.arr("s2", (K, N), "C") if s2 else None), K
    s1, s2 = p
    return (d, c, S.arr("s1", (K, N), "C") if s1 else None, S.arr("s2", (K, N), "C") if s2 else None), K


def available(kind, p):
    if kind == "corr":
        sq, s1, s2 = p
        return [m for m in CORR if (sq or not m & STRUCTURED) and (s1 or not m & (SUBTRACTED | COMPENSATED))]
    return [2] + ([6] if p[0] and p[1] else [])


def richest(kind, p):
    a = [m for m in available(kind, p) if not m & COMPENSATED]
    return max(a)


def check_default(kind, p):
    def body(S):
        data, K = parts_(S, kind, p)
        r = S.call(NORM + "_default_norm_from_data", data, "corr" if kind == "corr" else "diff", None)
        S.prove("default is the richest available", eq(num(r), const(richest(kind, p))))
    return body


def check_norm(kind, p, m, public):
    def body(S):
        data, K = parts_(S, kind, p)
        Denoise(S)
        if m == "other":
            norm = var("norm")
            S.assume(or_(lt(norm, I0), ge(norm, const(16))))
        else:
            norm = m
        ok = m != "other" and m in available(kind, p)
        if public:
            kw = dict(background=(S.arr("b1", (K,), "C"), S.arr("b2", (K,), "C")), variance=(S.arr("v1", (K,), "F"), S.arr("v2", (K,), "F")), norm=norm)
            if ok:
                S.call(NORM + "normalize", data, **kw)
            else:
                S.raises("flags without their data are rejected", NORM + "normalize", data, only="ValueError", **kw)
        elif ok:
            r = S.call(NORM + "_default_norm_from_data", data, "corr" if kind == "corr" else "diff", norm)
            S.prove("flags are kept", eq(num(r), num(norm)))
        else:
            S.raises("flags without their data are rejected", NORM + "_default_norm_from_data", data,
                     "corr" if kind == "corr" else "diff", norm, only="ValueError")
    return body


def request(method, cross, m):
    def body(S):
        sup = REQ.get(method) or REQ[(method, cross)]
        norm = m
        if m == "other":
            norm = var("norm")
            S.assume(or_(lt(norm, I0), ge(norm, const(16))))
        K, N = S.dims("K", "N", lo=1)
        f = S.arr("f1", (N, K), "C")
        args = (f, S.arr("f2", (N, K), "C")) if cross else (f,)
        fn = CORE + ("ccorr" if cross else "acorr")
        if m is None:
            r = S.call(CORE + "_default_norm", None, method, cross=cross)
            S.prove("default is the richest supported", eq(num(r), const(sup[-1])))
        elif m in sup:
            r = S.call(CORE + "_default_norm", norm, method, cross=cross)
            S.prove("flags are kept", eq(num(r), num(norm)))
        else:
            S.raises("unsupported flags are rejected", fn, *args, norm=norm, n=3, method=method, only="ValueError")
    return body


CASES = []
for a, b, c, d in itertools.product((False, True), repeat=4):
    CASES.append(("norm_flags[structured=%s subtracted=%s weighted=%s compensated=%s]" % (a, b, c, d), flags(a, b, c, d)))
CASES.append(("norm_from_string", good_text()))
for t in BAD:
    CASES.append(("norm_from_string[%r]" % t, bad_text(t)))
for kind, w in (("corr", 3), ("diff", 2)):
    for p in itertools.product((False, True), repeat=w):
        if kind == "corr" and p[2] and not p[1]:
            continue                              # a second sum without a first does not occur
        nm = "".join("-+"[x] for x in p)
        CASES.append(("default norm[%s data %s]" % (kind, nm), check_default(kind, p)))
        for m in list(range(16)) + ["other"]:
            CASES.append(("norm of data[%s data %s norm=%s]" % (kind, nm, m), check_norm(kind, p, m, False)))
            CASES.append(("normalize[%s data %s norm=%s]" % (kind, nm, m), check_norm(kind, p, m, True)))
for method in ("corr", "fft", "diff"):
    for cross in (True, False):
        for m in [None] + list(range(16)) + ["other"]:
            CASES.append(("request[%s %s norm=%s]" % (method, "cross" if cross else "auto", m), request(method, cross, m)))
