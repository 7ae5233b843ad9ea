"""C12: folding and phase alignment combine exactly the two signs of each delay."""
from props.common import *

NORM = "cddm.norm."


def data(S, rank):
    n = S.dims("n", lo=1)
    sh = tuple(S.dims(x, lo=0) for x in ("K", "L", "M")[:rank - 1]) + (full(n),)
    x = S.arr("data", sh, "C")
    return n, sh, x, S.old(x), S.ex.heap[x.store]


def at(rd, idx, k):
    return rd(tuple(idx[:-1]) + (k,))


def fold(rank, mode):
    def body(S):
        n, sh, x, rd, keep = data(S, rank)
        r = S.call(NORM + "fold_data", x, **({} if mode is None else {"mode": mode}))
        S.prove_shape("shape", r, sh[:-1] + (n,))
        i = S.index(sh[:-1] + (n,))
        k = i[-1]
        pos, zero = at(rd, i, k), eq(k, I0)
        neg = at(rd, i, sub(full(n), k))              # index -k
        if mode in (0, None):
            want = n_ite(zero, pos, n_mul(const(Fraction(1, 2)), n_add(pos, n_conj(neg))))
        elif mode == 1:
            want = pos
        else:
            want = n_ite(zero, pos, neg)
        S.prove_eq("folded value", S.ex.read(r, i), want)
        S.prove("data are not modified", S.ex.heap[x.store] is keep)
        S.prove("a new array", r.store != x.store)
    return body


def sqrt_of(x):
    from pyvc.npmodel import sqrt_
    return sqrt_(x)


def align(rank, fn):
    def body(S):
        n, sh, x, rd, keep = data(S, rank)
        r = S.call(NORM + fn, x)
        S.prove_shape("shape", r, sh)
        S.prove("data are not modified", S.ex.heap[x.store] is keep)
        S.prove("a new array", r.store != x.store)
        i = S.index(sh[:-1] + (n,))
        k = i[-1]
        z = cplx(S.ex.read(r, i[:-1] + (I0,)))
        S.prove_eq("zero delay is the modulus", z, CV(sqrt_of(absq(at(rd, i, I0))), R0))
        S.assume(ge(k, I1))
        m = sub(full(n), k)
        pos, neg = cplx(at(rd, i, k)), cplx(n_conj(at(rd, i, m)))
        p, q = cplx(S.ex.read(r, i)), cplx(S.ex.read(r, i[:-1] + (m,)))
        if fn == "equalize_data":
            S.prove_eq("opposite delays are conjugate", q, n_conj(p))
            S.prove_eq("square is the product of the two signs", n_mul(p, p), n_mul(pos, neg))
        else:
            half = const(Fraction(1, 2), "R")
            ph = mul(half, add(app("arctan2", (pos.im, pos.re), "R"), app("arctan2", (neg.im, neg.re), "R")))
            c, s = app("cos", (ph,), "R"), app("sin", (ph,), "R")
            a, b = sqrt_of(absq(pos)), sqrt_of(absq(neg))
            S.prove_eq("modulus kept, phase is the mean phase", p, CV(mul(a, c), mul(a, s)))
            S.prove_eq("modulus kept, opposite phase", q, CV(mul(b, c), neg_(mul(b, s))))
    return body


def neg_(x):
    return scale(x, -1)


def bad(fn, dt, **kw):
    def body(S):
        n = S.dims("n", lo=1)
        x = S.arr("data", (S.dims("K", lo=0), full(n)), dt)
        S.raises("rejected", NORM + fn, x, only="ValueError", **kw)
    return body


def take(kind, p, rank, levels):
    def body(S):
        sh = tuple(S.dims(x, lo=0) for x in ("K", "L")[:rank])
        lead = (S.dims("A", lo=0),) if levels else ()
        n = S.dims("n", lo=1)
        m = S.arr("mask", sh, "B")
        mk = lambda nm, dt, on=True: S.arr(nm, lead + sh + (n,), dt) if on else None
        cnt = S.arr("count", lead + (n,), "I")
        d = (mk("c", "C"), cnt) + ((mk("sq", "F", p[0]),) if kind == "corr" else ()) + (mk("m1", "C", p[1]), mk("m2", "C", p[2]))
        olds = [None if a is None else (S.old(a), S.ex.heap[a.store]) for a in d]
        r = S.call(NORM + "take_data", d, m)
        S.prove("as many parts", isinstance(r, tuple) and len(r) == len(d))
        from pyvc.npmodel import mask_info
        info = mask_info(S.ex, m)
        for k, (a, b) in enumerate(zip(d, r)):
            if a is None:
                S.prove_none("absent part stays absent", b)
                continue
            if k == 1:
                S.prove("count is the same", b is a or (b.store == a.store))
                continue
            out = lead + (info[0],) + (n,)
            S.prove_shape("selected pixels", b, out)
            i = S.index(out)
            sel = S.ex.getitem(a, (Ellipsis_(), m, all_()))
            S.prove_eq("selected pixels", S.ex.read(b, i), S.ex.read(sel, i))
            S.prove("data are not modified", S.ex.heap[a.store] is olds[k][1])
    return body


def Ellipsis_():
    from pyvc.sym import ELLIPSIS
    return ELLIPSIS


def all_():
    from pyvc.sym import SliceVal
    return SliceVal(None, None, None)


CASES = []
for rank in (1, 2, 3, 4):
    for mode in (None, 0, 1, -1):
        CASES.append(("fold_data[rank %d mode %s]" % (rank, mode), fold(rank, mode)))
    for fn in ("equalize_data", "shift_data"):
        CASES.append(("%s[rank %d]" % (fn, rank), align(rank, fn)))
for dt in "FIB":
    for fn in ("fold_data", "equalize_data", "shift_data"):
        CASES.append(("%s rejects real data[%s]" % (fn, dt), bad(fn, dt)))
for mode in (2, -2, 3, "x"):
    CASES.append(("fold_data rejects mode %r" % (mode,), bad("fold_data", "C", mode=mode)))
for kind in ("corr", "diff"):
    for p in itertools.product((False, True), repeat=3):
        if kind == "diff" and p[0]:
            continue
        for rank in (1, 2):
            for levels in (False, True):
                CASES.append(("take_data[%s parts %s rank %d%s]" % (kind, "".join("+" if x else "-" for x in p), rank, " levels" if levels else ""),
                              take(kind, p, rank, levels)))
EXTRA = []
