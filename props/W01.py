"""W01: window functions are bounded, symmetric and zero outside the unit circle."""
from fractions import Fraction
from props.common import *
from pyvc.expr import isconst, map_apps
from pyvc.mathax import instances

W = "cddm.window."


def distance2(i, j, h, w):
    """squared distance of a pixel's centre from the frame's, each axis in units of half the frame"""
    half = const(Fraction(1, 2), "R")
    y = div(add(sub(toreal(i), scale(toreal(h), half.args[0])), half), scale(toreal(h), half.args[0]))
    x = div(add(sub(toreal(j), scale(toreal(w), half.args[0])), half), scale(toreal(w), half.args[0]))
    return add(mul(x, x), mul(y, y))


class Window(object):
    """one evaluation of a window function on an arbitrary frame"""
    def __init__(self, S, fn, tag, params, given):
        self.h, self.w = S.dims("h" + tag, lo=1), S.dims("w" + tag, lo=1)
        a = []
        if fn == "tukey":
            a = [params["alpha"]]
        if fn == "gaussian":
            a = [params["sigma"]]
        k = {}
        if given:
            k["out"] = S.arr("out" + tag, (self.h, self.w), "F")
        self.out = S.call(W + fn, (self.h, self.w), *a, **k)
        self.S = S
        S.prove_shape("one value per pixel", self.out, (self.h, self.w))
        S.prove("type", self.out.dtype == "F")
        if given:
            S.prove("the supplied array is the result", self.out.store == k["out"].store)

    def at(self, i, j):
        return num(self.S.ex.read(self.out, (i, j)))

    def pixel(self):
        return self.S.index((self.h, self.w))

    def d2(self, i, j):
        return distance2(i, j, self.h, self.w)


def parameters(S, fn, alpha):
    p = {}
    if fn == "tukey":
        p["alpha"] = var("alpha", "R")
        S.assume(ge(p["alpha"], R0))
        S.assume(le(p["alpha"], R1))
    if fn == "gaussian":
        p["sigma"] = var("sigma", "R")
        S.assume(gt(p["sigma"], R0))
    return p


def know(S, *vs):
    for c in instances(vs):
        S.assume(c)


def as_profile(S, v, d2, rho, p):
    """v as a function of rho, the scaled distance: every square root in it is rho or rho/(sigma sqrt 2)"""
    two = const(2, "R")
    root = app("sqrt", (two,), "R")
    s = p.get("sigma")

    def f(name, args, sort):
        if name != "sqrt" or isconst(args[0]):
            return None
        x = args[0]
        if s is None:
            S.prove_eq("a function of the scaled distance", x, d2)
            return rho
        n = len(S.ex.pc)
        know(S, root)
        S.prove("a function of the scaled distance", eq(mul(mul(x, root), mul(root, mul(s, s))), d2))
        del S.ex.pc[n:]
        return div(rho, mul(s, root))
    return map_apps(v, f)


def window(fn, given):
    def body(S):
        p = parameters(S, fn, None)
        a = Window(S, fn, "1", p, given[0])
        b = Window(S, fn, "2", p, given[1])
        i, j = a.pixel()
        k, l = b.pixel()
        va, vb = a.at(i, j), b.at(k, l)
        vi, vj = a.at(sub(sub(a.h, I1), i), j), a.at(i, sub(sub(a.w, I1), j))
        da, db = a.d2(i, j), b.d2(k, l)
        ra, rb = var("distance1", "R"), var("distance2", "R")
        fa, fb = as_profile(S, va, da, ra, p), as_profile(S, vb, db, rb, p)
        S.prove("symmetric in the vertical axis", eq(fa, as_profile(S, vi, da, ra, p)))
        S.prove("symmetric in the horizontal axis", eq(fa, as_profile(S, vj, da, ra, p)))
        # from here on the distances are any two non-negative numbers
        S.assume(and_(ge(ra, R0), ge(rb, R0)))
        know(S, fa, fb)
        S.prove("between zero and one", and_(ge(fa, R0), le(fa, R1)))
        S.prove("never increases with the scaled distance", implies(le(ra, rb), ge(fa, fb)))
        S.prove("depends on the scaled distance only", implies(eq(ra, rb), eq(fa, fb)))
        if fn != "gaussian":
            S.prove("zero at and beyond the inscribed ellipse", implies(ge(ra, R1), eq(fa, R0)))
        if fn == "tukey":
            S.prove("one on the flat part", implies(and_(le(ra, sub(R1, p["alpha"])), lt(ra, R1)), eq(fa, R1)))
    return body


def full_taper(given):
    def body(S):
        a = Window(S, "tukey", "1", {"alpha": const(1, "R")}, given)
        i, j = a.pixel()
        r = S.call(W + "hann", (a.h, a.w))
        S.prove("full taper is the hann window", eq(num(a.at(i, j)), num(S.ex.read(r, (i, j)))))
    return body


def reject(fn):
    def body(S):
        h, w = S.dims("h", lo=1), S.dims("w", lo=1)
        v = var("value", "R")
        S.assume(le(v, R0) if fn == "gaussian" else or_(lt(v, R0), gt(v, R1)))
        S.raises("invalid parameter rejected", W + fn, (h, w), v, only="ValueError")
    return body


CASES = []
for fn in ("blackman", "gaussian", "tukey", "hann"):
    for given in itertools.product((False, True), repeat=2):
        CASES.append(("%s[%s]" % (fn, " ".join("given" if g else "new" for g in given)), window(fn, given)))
for given in (False, True):
    CASES.append(("tukey and hann[%s]" % ("given" if given else "new"), full_taper(given)))
for fn in ("gaussian", "tukey"):
    CASES.append(("%s rejects" % fn, reject(fn)))
EXTRA = []
