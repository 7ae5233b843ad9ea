"""Shared by C08, C09 and C11: symbolic results of a correlation call and the documented formulas."""
from props.common import *
from pyvc.expr import div as rdiv
from pyvc.obl import Stop

NORM = "cddm.norm."
STANDARD, STRUCTURED, WEIGHTED, SUBTRACTED, COMPENSATED = 1, 2, 3, 4, 8
CORR = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)
HALF = const(Fraction(1, 2))
LAYOUTS = ("k", "kl", "multi", "flat")


class Result(object):
    """an arbitrary correlation ('corr') or difference ('diff') result with backgrounds and variances"""
    def __init__(self, S, kind, layout="k", cplx_=False, auto=False, parts="+++", mask=False, var="pair", bg="pair", nlo=1):
        self.S, self.kind, self.layout, self.auto = S, kind, layout, auto
        n = S.dims("n", lo=nlo)
        K = S.dims("K", lo=0)
        fr = {"k": (K,), "kl": (K, S.dims("M", lo=0)), "multi": (K,), "flat": ()}[layout]
        lead = (S.dims("L", lo=0),) if layout == "multi" else ()
        self.frame, self.lead, self.n = fr, lead, n
        sh = lead + fr + (n,)
        self.shape = sh
        dt = "C" if cplx_ else "F"
        self.dt = dt
        self.corr = S.arr("corr", sh, dt)
        self.count = S.arr("count", lead + (n,), "I")
        self.sq = S.arr("sq", sh, "F") if kind == "corr" and parts[0] == "+" else None
        self.m1 = S.arr("m1", sh, "C") if parts[1] == "+" else None
        self.m2 = S.arr("m2", sh, "C") if parts[2] == "+" and not auto else None
        self.data = (self.corr, self.count, self.sq, self.m1, self.m2) if kind == "corr" else (self.corr, self.count, self.m1, self.m2)
        self.b1 = S.arr("b1", fr, "C")
        self.b2 = S.arr("b2", fr, "C") if bg == "pair" else self.b1
        self.v1 = S.arr("v1", fr, "F")
        self.v2 = S.arr("v2", fr, "F") if var == "pair" else self.v1
        if "single" in (var, bg) and fr:
            S.assume(not_(eq(fr[0], const(2))))         # an array of two rows is taken for a pair
        self.background = (self.b1, self.b2) if bg == "pair" else self.b1
        self.variance = (self.v1, self.v2) if var == "pair" else self.v1
        self.mask = S.arr("mask", fr, "B") if mask else None
        self.arrays = [a for a in (self.corr, self.count, self.sq, self.m1, self.m2, self.b1, self.b2, self.v1, self.v2, self.mask) if a is not None]
        self.contents = [S.ex.heap[a.store] for a in self.arrays]

    def unchanged(self):
        self.S.prove("inputs are not modified", all(self.S.ex.heap[a.store] is c for a, c in zip(self.arrays, self.contents)))

    def sel(self, a, frame_only):
        """the reader of a part, restricted to the selected pixels"""
        if a is None:
            return None
        S = self.S
        if self.mask is not None and a is not self.count:
            from pyvc.sym import ELLIPSIS, SliceVal
            ix = self.mask if frame_only else (ELLIPSIS, self.mask, SliceVal(None, None, None))
            a = S.ex.getitem(a, ix)
        return S.ex.reader(a)

    def view(self):
        """everything at one index: functions of the full index (lead, frame, delay)"""
        f = {}
        for nm in ("corr", "sq", "m1", "m2"):
            f[nm] = self.sel(getattr(self, nm), False)
        for nm in ("b1", "b2", "v1", "v2"):
            f[nm] = self.sel(getattr(self, nm), True)
        cnt = self.S.ex.reader(self.count)
        nl = len(self.lead)

        def at(idx):
            v = {}
            for nm in ("corr", "sq", "m1", "m2"):
                v[nm] = f[nm](tuple(idx)) if f[nm] else None
            for nm in ("b1", "b2", "v1", "v2"):
                v[nm] = f[nm](tuple(idx[nl:-1]))
            v["c"] = cnt(tuple(idx[:nl]) + (idx[-1],))
            if v["m2"] is None:
                v["m2"] = v["m1"]
            return v
        return at

    def out_shape(self):
        if self.mask is None:
            return self.shape
        from pyvc.npmodel import mask_info
        return self.lead + (mask_info(self.S.ex, self.mask)[0],) + (self.n,)


def cmul(a, b):
    return n_mul(n_conj(a), b)


def div(a, c):
    c = toreal(num(c))
    if isinstance(a, CV):
        return CV(rdiv(a.re, c), rdiv(a.im, c))
    return rdiv(toreal(num(a)), c)


def part(v, dt):
    """the stored form of conj(a) b"""
    return v if dt == "C" else cplx(v).re


def square(a, b, dt):
    """|b-a|^2, with the same for the quarter turned first signal as imaginary part"""
    re = absq(n_sub(b, a))
    if dt != "C":
        return re
    return CV(re, absq(n_sub(b, n_mul(CV(R0, const(1, "R")), cplx(a)))))


def twice(x, dt):
    """x for the value itself and for the quarter turned one"""
    return CV(x, x) if dt == "C" else x


def variance_of(v):
    return mul(HALF, add(v["v1"], v["v2"]))


def expected(kind, norm, v, dt):
    """documented value of the correlation (difference, for difference data) representation"""
    c, b1, b2, m1, m2 = v["c"], v["b1"], v["b2"], v["m1"], v["m2"]
    if kind == "diff":
        d = n_sub(cplx(b2), cplx(b1))
        r = div(v["corr"], c)
        if norm == STRUCTURED:
            return n_sub(r, absq(d))
        s = n_sub(cplx(m2), cplx(m1))
        return n_add(n_sub(r, div(n_mul(const(2), cmul(d, s).re), c)), absq(d))
    sub_, comp = bool(norm & SUBTRACTED), bool(norm & COMPENSATED)
    if norm & WEIGHTED == STANDARD:
        r = div(v["corr"], c)
        if sub_:
            cross = n_add(cmul(b1, m2), cmul(m1, b2))
            return n_add(n_sub(r, part(div(cross, c), dt)), part(cmul(b1, b2), dt))
        if comp:
            return n_sub(r, part(div(div(cmul(m1, m2), c), c), dt))
        return n_sub(r, part(cmul(b1, b2), dt))
    var = twice(variance_of(v), dt)
    sq = twice(v["sq"], dt)
    r = n_add(div(n_sub(v["corr"], n_mul(HALF, sq)), c), var)
    if sub_:
        # mean |(f2-b2)-(f1-b1)|^2 = mean|f2-f1|^2 - 2 Re conj(b2-b1)(mean f2 - mean f1) + |b2-b1|^2
        ds, db = n_sub(cplx(m2), cplx(m1)), n_sub(cplx(b2), cplx(b1))
        x = cmul(db, ds).re
        if dt == "C":
            J = CV(R0, const(1, "R"))
            y = cmul(n_sub(cplx(b2), n_mul(J, cplx(b1))), n_sub(cplx(m2), n_mul(J, cplx(m1)))).re
            x = CV(x, y)
        return n_sub(n_add(r, div(x, c)), n_mul(HALF, square(b1, b2, dt)))
    if comp:
        return n_add(r, n_mul(HALF, div(div(square(m1, m2, dt), c), c)))
    return n_add(r, n_mul(HALF, square(b1, b2, dt)))


def convert(kind, mode, scale, V, r):
    """another representation of a value r in the native one of the data"""
    if kind == "corr" and mode == "diff":
        r = n_sub(scale2(V), n_mul(const(2), r))
    if kind == "diff" and mode == "corr":
        r = n_sub(V, n_mul(HALF, r))
    return div(r, V) if scale else r


def scale2(V):
    return mul(const(2, "R"), V)


class DenoiseSame(Denoise):
    """the calls of a second run, whose k-th argument is a(idx) * (k-th argument of the first run) + b(idx)
    with a, b the same at all delays: the results are then in the same relation (lemma 'filters are affine')"""
    def __init__(self, S, first, a, b, names=None):
        self.S, self.first, self.a, self.b, self.calls = S, first, a, b, []
        self.install(names)

    def __call__(self, ex, f, args, kw):
        S, x, k = self.S, args[0], len(self.calls)
        q = "%s.%s" % (f.module.name, f.name)
        same = k < len(self.first.calls) and len(args) == 1 and not kw and self.first.calls[k][0] == q
        S.prove("the same filters are applied", same)
        if not same:
            raise Stop()
        _, sh, dt, old, new, _ = self.first.calls[k]
        S.prove_shape("filtered data", x, sh)
        S.prove("same type", ("C" if x.dtype == "C" else "F") == dt)
        n0 = len(ex.pc)
        i = S.index(sh)
        self.assume(i)
        rel = lambda rd: (lambda idx: n_add(n_mul(self.a(idx), rd(tuple(idx))), self.b(idx)))
        S.prove_eq("filtered data are related", ex.read(x, i), rel(old)(i))
        del ex.pc[n0:]
        r = ex.alloc(tuple(x.shape), dt, Fn(rel(new)))
        self.calls.append((q, sh, dt, ex.reader(x), rel(new), r))
        ex.used_contracts.add(q)
        return r

    def assume(self, i):
        pass
