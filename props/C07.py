"""C07: correlation results carry mutually consistent correlation, count and sums."""
from props.common import *
from props import C01, C02, C04, C05, C06

KERNELS = sorted(set(C01.KERNELS + C02.KERNELS + C04.KERNELS + C05.KERNELS + C06.KERNELS + [NB + k for k in (
    "_cross_diff_vec", "_cross_diff", "_cross_diff_regular", "_auto_diff_vec", "_auto_diff", "_auto_diff_regular")]))
MAX_PATHS = 600


class Sq(object):
    """frames of squared moduli (or their doubles)"""
    def __init__(self, f, c=1):
        self.f, self.c = f, const(c, "R")

    def at(self, i, px):
        return n_mul(self.c, absq(self.f.at(i, px)))


class Twice(object):
    def __init__(self, f):
        self.f = f

    def at(self, i, px):
        return n_mul(const(2, "R"), self.f.at(i, px))


def present(S, name, v, want):
    if want:
        S.prove(name + " present", isinstance(v, Arr))
    else:
        S.prove(name + " absent", v is None)


def mk(cross, rank, axis, timed, method, norm, cplx, nmode="n", squares=False, given=False, align=False):
    def body(S):
        N = S.dims("N", lo=1)
        rest = rest_dims(S, rank)
        f = Data(S, "f1", rank, axis, N, rest)
        g = Data(S, "f2", rank, axis, N, rest) if cross else f
        kw = dict(axis=axis, align=align)
        if cplx:
            kw["complex"] = True
        m, nn = method, norm
        if method is not None:
            kw["method"] = method
        if norm is not None:
            kw["norm"] = norm
        T1 = T2 = lambda i: i
        if timed and cross:
            t1, T1 = times(S, "t1", N)
            t2, T2 = times(S, "t2", N)
            kw.update(t1=t1, t2=t2)
        elif timed:
            t, T1 = times(S, "t", N)
            T2 = T1
            C06.distinct(S, T1, N)
            kw.update(t=t)
        n = S.dims("n", lo=1)
        if nmode == "n":
            kw["n"] = n
        elif given:
            pass
        elif timed:
            n = None
        else:
            n = N
        if m is None:
            m = "corr" if nmode == "n" else "fft"
        if nn is None:
            nn = 7 if m != "diff" else (6 if cross else 2)
        two = cplx and cross
        q = [f, g]
        s1 = Sq(f)
        s2 = Sq(g)
        if squares:
            s1 = Data(S, "f1s", rank, axis, N, rest, "F")
            s2 = Data(S, "f2s", rank, axis, N, rest, "F") if cross else s1
            q += [s1, s2]
            kw.update({"f1s": s1.arr, "f2s": s2.arr} if cross else {"fs": s1.arr})
        base = [None] * 5
        if given:
            L = full(n) if two else n
            o = [old_out(S, "cor0", rest + (L,), "C" if cplx else "F"), old_out(S, "count0", (L,), "I")]
            structured, subtr = nn & 2, nn & 4
            if m == "diff":
                o += [old_out(S, "m%d" % k, rest + (L,), "C") if (subtr and cross) else (None, None) for k in (1, 2)]
            else:
                o += [old_out(S, "sq0", rest + (L,), "F") if structured else (None, None)]
                o += [old_out(S, "m%d" % k, rest + (L,), "C") if subtr and (cross or k == 1) else (None, None) for k in (1, 2)]
            kw["aout"] = tuple(a for a, b in o)
            base = [b for a, b in o]
            if m == "diff":
                base = base[:2] + [None] + base[2:]
        r = S.call(CORE + ("ccorr" if cross else "acorr"), *([f.arr, g.arr] if cross else [f.arr]), **kw)
        S.prove("result is a tuple", isinstance(r, tuple) and len(r) == (4 if m == "diff" else 5))
        cor, cnt = r[0], r[1]
        sq, ds1, ds2 = (None, r[2], r[3]) if m == "diff" else r[2:]
        if n is None:
            S.prove("result is an array", isinstance(cor, Arr) and cor.ndim == rank)
            n = cor.shape[-1]
            if two:
                S.prove("delay axis is odd", eq(mod(n, const(2)), I1))
                n = floordiv(add(n, I1), const(2))
            covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T2(j), T1(i)))
        L = full(n) if two else n
        shape = rest + (L,)

        def plus(k, ix, v):
            return v if base[k] is None else n_add(base[k](ix), v)

        def corv(*ix):
            px, k = ix[:-1], ix[-1]
            if m == "diff":
                ps = (lambda c, v: sum_pairs(N, N, c, v)) if cross else (lambda c, v: sum_apairs(N, c, v))
                v = ps(lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: absq(n_sub(g.at(j, px), f.at(i, px))))
            elif cross:
                v = C04.cross_corr_value(f, g, N, T1, T2, k, px, n, cplx)
            else:
                v = C02.auto_spec(f, N, T1, k, px, cplx)
            return plus(0, ix, v)

        def cntv(k):
            if two:
                _, d = wrap(k, full(n))
                v = sum_pairs(N, N, lambda i, j: eq(sub(T2(j), T1(i)), d), lambda i, j: I1)
            elif cross:
                v = sum_pairs(N, N, lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: I1)
            else:
                v = sum_apairs(N, lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: I1)
            return plus(1, (k,), v)

        def partner(h, first):
            """sum over the pairs of the frame of this camera"""
            def v(*ix):
                px, k = ix[:-1], ix[-1]
                if two:
                    _, d = wrap(k, full(n))
                    c = lambda i, j: eq(sub(T2(j), T1(i)), d)
                else:
                    c = lambda i, j: eq(eabs(sub(T2(j), T1(i))), k)
                return sum_pairs(N, N, c, lambda i, j: h.at(i if first else j, px))
            return v

        S.prove_array("correlation", cor, shape, corv)
        S.prove_array("count", cnt, (L,), cntv)
        want_sq = bool(nn & 2) and m != "diff"
        want_ds = bool(nn & 4)
        present(S, "squares", sq, want_sq) if m != "diff" else None
        if want_sq and isinstance(sq, Arr):
            if cross:
                S.prove_array("sum of squares", sq, shape, lambda *ix: plus(2, ix, n_add(partner(s1, True)(*ix), partner(s2, False)(*ix))))
            else:
                S.prove_array("sum of squares", sq, shape, lambda *ix: plus(2, ix, C06.asum_spec(Twice(s1), N, T1, ix[-1], ix[:-1])))
        if cross:
            present(S, "first mean", ds1, want_ds)
            present(S, "second mean", ds2, want_ds)
            if want_ds and isinstance(ds1, Arr) and isinstance(ds2, Arr):
                S.prove_array("sum of the first signal", ds1, shape, lambda *ix: plus(3, ix, partner(f, True)(*ix)))
                S.prove_array("sum of the second signal", ds2, shape, lambda *ix: plus(4, ix, partner(g, False)(*ix)))
        else:
            present(S, "first mean", ds1, want_ds and m != "diff")
            present(S, "second mean", ds2, False)
            if want_ds and m != "diff" and isinstance(ds1, Arr):
                S.prove_array("sum of the signal", ds1, shape, lambda *ix: plus(3, ix, C06.asum_spec(f, N, T1, ix[-1], ix[:-1])))
        for x in q:
            x.unchanged()
    return body


def name(cross, **k):
    return "%s[%s]" % ("ccorr" if cross else "acorr", " ".join("%s=%s" % (a, b) for a, b in k.items()))


CASES, EXTRA = [], []


def add_case(cross, rank=2, axis=0, timed=False, method="corr", norm=None, cplx=False, extra=False, **k):
    d = dict(rank=rank, axis=axis, timed=timed, method=method, norm=norm, cplx=cplx, **k)
    (EXTRA if extra else CASES).append((name(cross, **d), mk(cross, **d)))


for cross in (True, False):
    for timed in (False, True):
        for method in ("corr", "fft", "diff"):
            norms = (1, 2, 3, 5, 6, 7) if method != "diff" else ((2, 6) if cross else (2,))
            for norm in norms:
                for cplx in ((False, True) if method != "diff" else (False,)):
                    ex = method == "fft" and timed and norm not in (2, 7) or norm in (2, 6) and cplx
                    add_case(cross, timed=timed, method=method, norm=norm, cplx=cplx, extra=ex)
            for axis in (-1, 1):
                add_case(cross, axis=axis, timed=timed, method=method, extra=(method == "fft" and timed))
            add_case(cross, rank=1, timed=timed, method=method)
            add_case(cross, rank=3, axis=1, timed=timed, method=method, extra=(method == "fft"))
            add_case(cross, timed=timed, method=method, given=True)
            add_case(cross, timed=timed, method=method, squares=True, align=True, extra=(method == "fft" and timed))
        add_case(cross, timed=timed, method=None, nmode="none", extra=timed)
        add_case(cross, timed=timed, method=None)
        add_case(cross, timed=timed, method=None, nmode="given", given=True, norm=3)


def rejected(cross, **kw):
    def body(S):
        N, K = S.dims("N", lo=1), S.dims("K", lo=1)
        f = S.arr("f1", (N, K), "C")
        g = S.arr("f2", (N, K), "C")
        n = S.dims("n", lo=1)
        S.raises("rejected", CORE + ("ccorr" if cross else "acorr"), *([f, g] if cross else [f]), n=n, **kw)
    return body


for cross in (True, False):
    for method, bad in (("corr", (0, 4, 8, -1)), ("fft", (0, 4)), ("diff", (0, 1, 3, 5, 7)), ("other", (3,))):
        for b in bad + ((6,) if method == "diff" and not cross else ()):
            CASES.append((name(cross, method=method, norm=b), rejected(cross, method=method, norm=b)))
