"""A01: data filters keep their defining order and locality."""
from props.common import *
from pyvc.npmodel import NAN
from contracts.filters import mid

F_ = "cddm._core_nb."
AVG = "cddm.avg."


def lead_dims(S, rank):
    return tuple(S.dims(x, lo=0) for x in ("K", "L", "M")[:rank - 1])


def inplace(S, x, mode):
    """the out argument of a case"""
    if mode == "in place":
        return {"out": x}
    if mode == "out":
        return {"out": S.arr("out", x.shape, x.dtype)}
    return {}


def result(S, r, x, kw, keep):
    S.prove_shape("shape", r, x.shape)
    S.prove("type", r.dtype == x.dtype)
    if kw:
        S.prove("written into the output", r.store == kw["out"].store)
    if kw.get("out") is not x:
        S.prove("the input is not modified", S.ex.heap[x.store] is keep)
        S.prove("the result is not the input", r.store != x.store)


def running(fn, rank, mode, nans):
    low = fn == "decreasing"

    def body(S):
        sh = lead_dims(S, rank) + (S.dims("n", lo=1),)
        x = S.arr("data", sh, "F")
        xr = S.old(x)
        m = lambda i: I0
        if nans:
            S.ex.nan_aware, S.ex.assume_finite = True, False
            nm = sym_reader("nans", "I")
            m = lambda i: num(nm(tuple(i[:-1])))
            raw = xr
            ps = tuple(fresh("p") for _ in sh)
            S.ex.axioms.append(forall(ps, not_(eq(raw(ps), NAN))))
            xr = lambda i: ite(lt(i[-1], m(i)), NAN, raw(tuple(i)))
            S.ex.heap[x.store] = Fn(xr)
        keep = S.ex.heap[x.store]
        kw = inplace(S, x, mode)
        r = S.call(AVG + fn, x, **kw)
        result(S, r, x, kw, keep)
        i = S.index(sh)
        row, k = i[:-1], i[-1]
        R = lambda q: S.ex.read(r, row + (q,))
        X = lambda q: xr(row + (q,))
        before = (lambda a, b: le(a, b)) if low else (lambda a, b: ge(a, b))
        m0 = m(i)
        S.assume(ge(m0, I0))
        # induction over k
        n0 = len(S.ex.pc)
        S.assume(eq(k, I0))
        S.prove_eq("first value", R(k), X(k))
        del S.ex.pc[n0:]
        S.assume(gt(k, I0))
        if nans:
            S.assume(le(k, m0))
            S.assume(eq(R(sub(k, I1)), NAN))         # induction hypothesis within the leading NaN
            S.prove_eq("no value yet among the leading NaN: taken over", R(k), X(k))
            del S.ex.pc[n0:]
        S.assume(gt(k, m0))
        # induction hypothesis: R(k-1) bounds x on [m, k-1] and is attained at w
        j, w = fresh("j"), fresh("w")
        p = sub(k, I1)
        if nans:
            S.assume(not_(eq(R(p), NAN)))
        S.assume(forall((j,), implies(and_(ge(j, m0), le(j, p)), before(R(p), X(j)))))
        S.assume(and_(ge(w, m0), le(w, p), eq(R(p), X(w))))
        q = fresh("q")
        S.assume(and_(ge(q, m0), le(q, k)))
        S.prove("bounds every value so far", before(R(k), X(q)))
        S.prove("is one of the values so far", or_(eq(R(k), X(k)), eq(R(k), X(w))))
        S.prove("keeps the order", before(R(k), R(p)))
        if nans:
            S.prove("a value, not NaN", not_(eq(R(k), NAN)))
    return body


def interior(S, r, x, xr, kw, spec):
    sh = x.shape
    i = S.index(sh)
    row, k = i[:-1], i[-1]
    n = num(sh[-1])
    got = S.ex.read(r, i)
    n0 = len(S.ex.pc)
    S.assume(or_(eq(k, I0), eq(k, sub(n, I1))))
    S.prove_eq("end points are kept", got, xr(i))
    del S.ex.pc[n0:]
    S.assume(and_(gt(k, I0), lt(k, sub(n, I1))))
    a, b, c = [xr(row + (q,)) for q in (sub(k, I1), k, add(k, I1))]
    spec(got, a, b, c)


def three(fn, rank, dt, mode):
    def body(S):
        sh = lead_dims(S, rank) + (S.dims("n", lo=3),)
        x = S.arr("data", sh, dt)
        xr, keep = S.old(x), S.ex.heap[x.store]
        kw = inplace(S, x, mode)
        r = S.call(AVG + fn, x, **kw)
        result(S, r, x, kw, keep)

        def spec(got, a, b, c):
            if fn == "convolve":
                q = const(Fraction(1, 4))
                S.prove_eq("the 1/4, 1/2, 1/4 average", got, n_add(n_mul(q, a), n_add(n_mul(const(Fraction(1, 2)), b), n_mul(q, c))))
                return
            for nm, g, u, v, w in ([("", num(got), num(a), num(b), num(c))] if dt == "F" else
                                   [("real part: ", cplx(got).re, cplx(a).re, cplx(b).re, cplx(c).re),
                                    ("imaginary part: ", cplx(got).im, cplx(a).im, cplx(b).im, cplx(c).im)]):
                S.prove(nm + "one of the three values", or_(eq(g, u), eq(g, v), eq(g, w)))
                for y, z in ((u, v), (v, w), (u, w)):
                    S.prove(nm + "the middle one", and_(or_(le(y, g), le(z, g)), or_(ge(y, g), ge(z, g))))
        interior(S, r, x, xr, kw, spec)
    return body


def chain(rank, dt, n):
    """denoise = n times (median, then convolve), each applied to the previous result"""
    def body(S):
        sh = lead_dims(S, rank) + (S.dims("n", lo=3),)
        x = S.arr("data", sh, dt)
        keep = S.ex.heap[x.store]
        cur = S.old(x)
        D = Denoise(S, (F_ + "median", F_ + "convolve"))
        r = S.call(AVG + "denoise", x, **({} if n is None else {"n": n}))
        steps = 2 * (3 if n is None else n)
        S.prove("number of filter steps", len(D.calls) == steps)
        i = S.index(sh)
        for q, c in enumerate(D.calls):
            S.prove("median and convolve alternate", c[0] == F_ + ("median", "convolve")[q % 2])
            S.prove("works on the result of the previous step", c[2] == dt)
            S.prove_eq("works on the result of the previous step", c[3](i), cur(i))
            cur = c[4]
        S.prove_shape("shape", r, sh)
        S.prove_eq("result of the last step", S.ex.read(r, i), cur(i))
        S.prove("the input is not modified", S.ex.heap[x.store] is keep)
    return body


CASES = []
MODES = ("new", "out", "in place")
for rank in (1, 2, 3):
    for fn in ("decreasing", "increasing"):
        for mode in MODES:
            for nans in (False, True):
                CASES.append(("%s[rank %d %s%s]" % (fn, rank, mode, " leading NaN" if nans else ""), running(fn, rank, mode, nans)))
    for fn in ("median", "convolve"):
        for dt in "FC":
            for mode in MODES:
                CASES.append(("%s[rank %d %s %s]" % (fn, rank, dt, mode), three(fn, rank, dt, mode)))
    for dt in "FC":
        for n in (None, 0, 1, 2, 3, 5):
            CASES.append(("denoise[rank %d %s n=%s]" % (rank, dt, n), chain(rank, dt, n)))
EXTRA = []
