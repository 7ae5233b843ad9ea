"""F03: wave-vector grids and sector maps label every pixel correctly."""
from fractions import Fraction
from props.common import *
from props.carry import LastWrite
from pyvc.mathax import terms, instances

MAP = "cddm.map."
PI = app("pi", (), "R")


def known(S, *es):
    """facts on real remainders, square roots and pi in the terms es"""
    for t in terms(es, ("rmod",)):
        a, b = t.args[1], t.args[2]
        k = fresh("turns")
        S.assume(implies(gt(b, R0), and_(eq(a, add(mul(toreal(k), b), t)), ge(t, R0), lt(t, b))))
        S.assume(implies(lt(b, R0), and_(eq(a, add(mul(toreal(k), b), t)), le(t, R0), gt(t, b))))
    S.assume(and_(gt(PI, const(3, "R")), lt(PI, const(4, "R"))))


# ------------------------------------------------------------------ grids
def freq(p, n):
    """signed wave-vector index at position p of a transform of length n"""
    return ite(le(p, floordiv(sub(n, I1), const(2))), p, sub(p, n))


def sizes(S, half, given, shape):
    """(keywords, number of rows and columns of the result, steps)"""
    k = {}
    H, W = S.dims("H", "W", lo=1)
    n, m = S.dims("kisize", "kjsize", lo=1)
    rows, cols = H, (add(floordiv(W, const(2)), I1) if half else W)
    if given[0]:
        k["kisize"], rows = n, n
    if given[1]:
        k["kjsize"], cols = m, m
    si = sj = R1
    if shape:
        k["shape"] = (H, W)
        si = ite(gt(H, W), R1, div(toreal(W), toreal(H)))
        sj = ite(gt(H, W), div(toreal(H), toreal(W)), R1)
    return k, rows, cols, si, sj


def vector(half, rows, cols, si, sj, p):
    i = freq(p[0], rows)
    j = p[1] if half else freq(p[1], cols)
    return mul(toreal(i), si), mul(toreal(j), sj)


def grid(half, given, shape):
    def body(S):
        k, rows, cols, si, sj = sizes(S, half, given, shape)
        r = S.call(MAP + ("rfft2_grid" if half else "fft2_grid"), **k)
        S.prove("two grids", isinstance(r, tuple) and len(r) == 2)
        for x, c in zip(r, (0, 1)):
            S.prove_shape("shape of the transform", x, (rows, cols))
            p = S.index((rows, cols))
            S.prove_eq("signed wave-vector index times its step", S.ex.read(x, p), vector(half, rows, cols, si, sj, p)[c])
    return body


def kangle(half, given, shape):
    def body(S):
        k, rows, cols, si, sj = sizes(S, half, given, shape)
        r = S.call(MAP + ("rfft2_kangle" if half else "fft2_kangle"), **k)
        S.prove("modulus and angle", isinstance(r, tuple) and len(r) == 2)
        for x in r:
            S.prove_shape("shape of the transform", x, (rows, cols))
        p = S.index((rows, cols))
        y, x = vector(half, rows, cols, si, sj, p)
        v, a = num(S.ex.read(r[0], p)), num(S.ex.read(r[1], p))
        ok = v.op == "app" and v.args[0] == "sqrt"
        S.prove("a modulus", ok)
        if ok:
            S.prove_eq("modulus of the wave vector", v.args[1], add(mul(x, x), mul(y, y)))
        ok = a.op == "app" and a.args[0] == "arctan2"
        S.prove("an angle", ok)
        if ok:
            S.prove_eq("counter-clockwise angle (rows count downwards)", a.args[1], neg(y))
            S.prove_eq("counter-clockwise angle (columns)", a.args[2], x)
    return body


def missing(half, given):
    def body(S):
        n = S.dims("n", lo=1)
        k = dict(zip(("kisize", "kjsize"), (n, n)))
        k = {a: v for (a, v), g in zip(k.items(), given) if g}
        for fn in ("grid", "kangle"):
            S.raises("the shape is required", MAP + ("rfft2_" if half else "fft2_") + fn, only="ValueError", **k)
    return body


# ------------------------------------------------------------------ sectors
def label(S, last, v, p, phi, kk, st, a, s, turn, H):
    """v is the label of pixel p, of direction phi and modulus kk; H: rows of a half-plane map"""
    known(S, v, *[c(j) for j, c, lo, hi in last.rules])
    n = fresh("nearest")
    m = sub(div(kk, st), const(Fraction(1, 2), "R"))
    S.assume(and_(ge(toreal(n), m), lt(toreal(n), add(m, R1))))
    last.know(n)
    deg = div(PI, const(180, "R"))
    full = mul(PI, const(turn, "R"))
    mid, wid = mul(deg, a), mul(deg, div(s, const(2, "R")))
    d = [sub(add(phi, scale(full, t)), mid) for t in (-1, 0, 1)]
    inside = or_(*[and_(lt(x, wid), gt(x, neg(wid))) for x in d])
    outside = and_(*[or_(gt(x, wid), lt(x, neg(wid))) for x in d])
    origin = and_(eq(p[0], I0), eq(p[1], I0))
    S.prove("zero at the origin", implies(origin, eq(v, I0)))
    S.assume(not_(origin))
    labelled = and_(ge(v, I0), le(eabs(sub(mul(toreal(v), st), kk)), div(st, const(2, "R"))))
    if H is not None:
        gone = and_(eq(p[1], I0), gt(p[0], floordiv(H, const(2))))
        S.prove("the redundant half of the first column is not labelled", implies(gone, eq(v, const(-1))))
        S.assume(not_(gone))
    S.prove("nearest step number inside the sector", implies(inside, labelled))
    S.prove("-1 outside the sector", implies(outside, eq(v, const(-1))))
    S.prove("a label or -1", or_(eq(v, const(-1)), labelled))


def sector(fn, kstep):
    half = fn == "sector_indexmap"
    turn = 1 if half else 2                       # the period of the direction, in units of pi

    def body(S):
        H, W = S.dims("H", "W", lo=1)
        K, A = S.arr("kmap", (H, W), "F"), S.arr("anglemap", (H, W), "F")
        kr, ar = S.old(K), S.old(A)
        q = (fresh("q"), fresh("q"))
        S.ex.add_axiom(forall(q, ge(kr(q), R0)))
        bound = mul(PI, const(Fraction(turn, 2), "R"))
        S.ex.add_axiom(forall(q, and_(ge(ar(q), neg(bound)), le(ar(q), bound))))
        a, s = var("angle", "R"), var("sector", "R")
        lim = const(90 * turn, "R")
        S.assume(and_(ge(a, neg(lim)), le(a, lim), gt(s, R0), le(s, const(180, "R"))))
        k, st = {}, R1
        if kstep:
            st = k["kstep"] = var("kstep", "R")
            S.assume(gt(st, R0))
        last = LastWrite(S)
        kept = [S.ex.heap[x.store] for x in (K, A)]
        r = S.call(MAP + fn, K, A, a, s, **k)
        S.prove_shape("one label per pixel", r, (H, W))
        S.prove("integer labels", r.dtype == "I")
        S.prove("the maps are not modified", [S.ex.heap[x.store] for x in (K, A)] == kept)
        p = S.index((H, W), "p")
        v = num(S.ex.read(r, p))
        phi, kk = ar(p), kr(p)
        label(S, last, v, p, phi, kk, st, a, s, turn, H if half else None)
    return body


class Sectors(object):
    """the sector maps by their contract (proved below): recorded arguments, an opaque map"""
    def __init__(self, S, half):
        self.S, self.calls = S, []
        S.ex.contracts[MAP + ("sector_indexmap" if half else "fft2_sector_indexmap")] = self

    def __call__(self, ex, f, args, kw):
        names = ("kmap", "anglemap", "angle", "sector", "kstep")
        got = dict(zip(names, args))
        got.update(kw)
        K, A = got["kmap"], got["anglemap"]
        a, s = toreal(num(got["angle"])), toreal(num(got["sector"]))
        lim = 90 if f.name == "sector_indexmap" else 180
        ex.oblige("requires of the sector map: a valid angle and sector",
                  and_(ge(a, const(-lim, "R")), le(a, const(lim, "R")), gt(s, R0), le(s, const(180, "R"))))
        ex.oblige("requires of the sector map: maps of one shape", eq(num(K.shape[0]), num(A.shape[0])))
        ex.oblige("requires of the sector map: maps of one shape", eq(num(K.shape[1]), num(A.shape[1])))
        ex.oblige("requires of the sector map: a positive step", gt(toreal(num(got.get("kstep", R1))), R0))
        key = [K.store, A.store] + [toreal(num(got.get(x, R1))) for x in names[2:]]
        for g, _, _, r, k0 in self.calls:
            if key == k0 and ex.heap[K.store] is self.content[0] and ex.heap[A.store] is self.content[1]:
                return r               # the same map again
        self.content = ex.heap[K.store], ex.heap[A.store]
        r = ex.alloc(K.shape, "I", Fn(sym_reader("sectormap_%d" % len(self.calls), "I")))
        self.calls.append((got, ex.reader(K), ex.reader(A), r, key))
        ex.used_contracts.add("%s.%s" % (f.module.name, f.name))
        return r


def whole(fn, mode, shape, dflt=False):
    """the maps built from the sizes of the data (and of the frame)"""
    half = fn == "k_indexmap"
    turn = 1 if half else 2

    def body(S):
        n, m = S.dims("kisize", "kjsize", lo=1)
        H, W = S.dims("H", "W", lo=1)
        a, s = var("angle", "R"), var("sector", "R")
        lim = const(90 * turn, "R")
        S.assume(and_(ge(a, neg(lim)), le(a, lim), gt(s, R0), le(s, const(180, "R"))))
        st = var("kstep", "R")
        S.assume(gt(st, R0))
        if dflt:
            a, s, st = R0, const(5, "R"), R1
            args, k = (n, m), {}
        else:
            args, k = (n, m, a, s), {"kstep": st}
        if mode:
            k["mode"] = mode
        si = sj = R1
        rows, cols = n, m
        if mode in (None, "rfft2") and not half:
            cols = sub(scale(m, 2), I1)
            if shape:
                cols = ite(eq(cols, add(W, I1)), W, cols)
                S.assume(le(cols, W))
                S.assume(le(n, H))
        if shape:
            k["shape"] = (H, W)
            si = ite(gt(H, W), R1, div(toreal(W), toreal(H)))
            sj = ite(gt(H, W), div(toreal(H), toreal(W)), R1)
        maps = Sectors(S, half)
        r = S.call(MAP + fn, *args, **k)
        S.prove("one map", len(maps.calls) == 1)
        got, K, A, out, _ = maps.calls[0]
        S.prove("the map is the result", isinstance(r, Arr) and r.store == out.store)
        S.prove_shape("one label per pixel of the data or of the full plane", r, (rows, cols))
        p = S.index((rows, cols), "p")
        S.prove_eq("label of the pixel", S.ex.read(r, p), S.ex.read(out, p))
        y, x = vector(half, rows, cols, si, sj, p)
        v, w = num(K(p)), num(A(p))
        ok = v.op == "app" and v.args[0] == "sqrt"
        S.prove("a modulus", ok)
        if ok:
            S.prove_eq("modulus of the wave vector", v.args[1], add(mul(x, x), mul(y, y)))
        ok = w.op == "app" and w.args[0] == "arctan2"
        S.prove("an angle", ok)
        if ok:
            S.prove_eq("counter-clockwise angle (rows count downwards)", w.args[1], neg(y))
            S.prove_eq("counter-clockwise angle (columns)", w.args[2], x)
        for nm, ref in (("angle", a), ("sector", s), ("kstep", st)):
            S.prove_eq("the requested %s" % nm, toreal(num(got[nm])) if nm in got else R1, ref)
    return body


def rejects(fn):
    lim = 90 if fn == "sector_indexmap" else 180

    def body(S):
        H, W = S.dims("H", "W", lo=1)
        K, A = S.arr("kmap", (H, W), "F"), S.arr("anglemap", (H, W), "F")
        a, s = var("angle", "R"), var("sector", "R")
        ok = and_(ge(a, const(-lim, "R")), le(a, const(lim, "R")), gt(s, R0), le(s, const(180, "R")))
        S.assume(not_(ok))
        S.raises("invalid angles and sectors rejected", MAP + fn, K, A, a, s, only="ValueError")
    return body


CASES = []
for half in (True, False):
    for given in ((True, True), (True, False), (False, True), (False, False)):
        for shape in (True, False):
            nm = "%s[%s%s%s]" % ("half" if half else "full", "kisize " if given[0] else "", "kjsize " if given[1] else "", "shape" if shape else "")
            if shape or all(given):
                CASES.append(("grid " + nm, grid(half, given, shape)))
                CASES.append(("modulus and angle " + nm, kangle(half, given, shape)))
            else:
                CASES.append(("required shape " + nm, missing(half, given)))
for fn in ("fft2_sector_indexmap", "sector_indexmap"):
    for kstep in (False, True):
        CASES.append(("%s[%s]" % (fn, "kstep" if kstep else "default"), sector(fn, kstep)))
    CASES.append(("%s rejects" % fn, rejects(fn)))
for shape in (False, True):
    CASES.append(("k_indexmap[%s]" % ("shape" if shape else ""), whole("k_indexmap", None, shape)))
    for mode in (None, "rfft2", "fft2"):
        CASES.append(("fft2_k_indexmap[%s %s]" % (mode, "shape" if shape else ""), whole("fft2_k_indexmap", mode, shape)))
CASES.append(("k_indexmap[defaults]", whole("k_indexmap", None, False, True)))
CASES.append(("fft2_k_indexmap[defaults]", whole("fft2_k_indexmap", None, False, True)))
EXTRA = []
