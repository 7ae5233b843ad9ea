"""C06: delay-dependent sums add each frame once per partner at that delay."""
from props.common import *
from fractions import Fraction
from props.C02 import grid

KERNELS = [NB + k for k in ("_cross_sum_vec", "_cross_sum", "_cross_sum_regular", "_cross_sum_complex_vec", "_cross_sum_complex",
                            "_cross_sum_complex_regular", "_cross_sum_complex_regular_inverted")]


def distinct(S, T, N):
    """the times of one sequence are distinct"""
    S.ex.assume_distinct(T, N) if hasattr(S.ex, "assume_distinct") else None
    i, j = fresh("i"), fresh("j")
    S.ex.assume(forall((i, j), implies(and_(rng(i, N), rng(j, N), eq(T(i), T(j))), eq(i, j))))


def csum_spec(f, N, T1, T2, k, px, n, cplx, inv):
    if cplx:
        _, d = wrap(k, full(n))
        if inv:
            d = neg(d)
        return sum_pairs(N, N, lambda i, j: eq(sub(T2(j), T1(i)), d), lambda i, j: f.at(i, px))
    return sum_pairs(N, N, lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: f.at(i, px))


def asum_spec(f, N, T, k, px):
    return sum_apairs(N, lambda i, j: eq(eabs(sub(T(j), T(i))), k), lambda i, j: n_mul(const(Fraction(1, 2)), n_add(f.at(i, px), f.at(j, px))))


def cross(inv, dtype="C"):
    def mk(rank, axis, timed, nmode, cplx, align):
        def body(S):
            N = S.dims("N", lo=1)
            rest = rest_dims(S, rank)
            f = Data(S, "f", rank, axis, N, rest, dtype)
            kw = dict(axis=axis, align=align, complex=cplx, time_inversion=inv)
            T1 = T2 = lambda i: i
            if timed:
                t1, T1 = times(S, "t", N)
                t2, T2 = times(S, "t_other", N)
                kw.update(t=t1, t_other=t2)
            base, n = None, None
            if nmode != "none":
                n = S.dims("n", lo=1)
            if nmode == "n":
                kw["n"] = n
            elif nmode == "aout":
                a, base = old_out(S, "aout", rest + (full(n) if cplx else n,), dtype)
                kw["aout"] = a
            elif not timed:
                n = N
            r = S.call(CORE + "cross_sum", f.arr, **kw)
            if n is None:
                S.prove("result is an array", isinstance(r, Arr) and r.ndim == rank)
                n = r.shape[-1]
                if cplx:
                    S.prove("delay axis is odd", eq(mod(n, const(2)), I1))
                    n = floordiv(add(n, I1), const(2))
                covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T2(j), T1(i)))

            def spec(*ix):
                v = csum_spec(f, N, T1, T2, ix[-1], ix[:-1], n, cplx, inv)
                return v if base is None else n_add(base(ix), v)
            shape = rest + (full(n) if cplx else n,)
            S.prove_array("result is the sum over pairs", r, shape, spec)
            if base is not None:
                S.prove_array("supplied output holds the result", a, shape, spec)
            f.unchanged()
        return body
    return mk


def auto(dtype="C"):
    def mk(rank, axis, timed, nmode, cplx, align):
        def body(S):
            N = S.dims("N", lo=1)
            rest = rest_dims(S, rank)
            f = Data(S, "f", rank, axis, N, rest, dtype)
            kw = dict(axis=axis, align=align)
            T = lambda i: i
            if timed:
                t, T = times(S, "t", N)
                distinct(S, T, N)
                kw.update(t=t)
            base, n = None, None
            if nmode != "none":
                n = S.dims("n", lo=1)
            if nmode == "n":
                kw["n"] = n
            elif nmode == "aout":
                a, base = old_out(S, "aout", rest + (n,), dtype)
                kw["aout"] = a
            elif not timed:
                n = N
            r = S.call(CORE + "auto_sum", f.arr, **kw)
            if n is None:
                S.prove("result is an array", isinstance(r, Arr) and r.ndim == rank)
                n = r.shape[-1]
                covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T(j), T(i)))

            def spec(*ix):
                v = asum_spec(f, N, T, ix[-1], ix[:-1])
                return v if base is None else n_add(base(ix), v)
            S.prove_array("result is the sum over pairs", r, rest + (n,), spec)
            if base is not None:
                S.prove_array("supplied output holds the result", a, rest + (n,), spec)
            f.unchanged()
        return body
    return mk


CASES = (grid(cross(False), "cross_sum") + grid(cross(True), "cross_sum time-inverted", (False, True), ("n",)) +
         grid(cross(False, "F"), "cross_sum of real data", (False, True), ("n",)) +
         grid(auto(), "auto_sum", (False,)) + grid(auto("F"), "auto_sum of real data", (False,), ("n",)))
