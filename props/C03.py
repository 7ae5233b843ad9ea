"""C03: difference functions sum the squared frame differences at each delay."""
from props.common import *
from props.C02 import grid

KERNELS = [NB + k for k in ("_cross_diff_vec", "_cross_diff", "_cross_diff_regular", "_auto_diff_vec", "_auto_diff", "_auto_diff_regular")]


def case(auto):
    def mk(rank, axis, timed, nmode, cplx, align, dtype="C"):
        def body(S):
            N = S.dims("N", lo=1)
            rest = rest_dims(S, rank)
            f = Data(S, "f1", rank, axis, N, rest, dtype)
            g = f if auto else Data(S, "f2", rank, axis, N, rest, dtype)
            kw = dict(axis=axis, align=align)
            T1 = T2 = lambda i: i
            if timed and auto:
                t, T1 = times(S, "t", N)
                T2 = T1
                kw.update(t=t)
            elif timed:
                t1, T1 = times(S, "t1", N)
                t2, T2 = times(S, "t2", N)
                kw.update(t1=t1, t2=t2)
            base, n = None, None
            if nmode != "none":
                n = S.dims("n", lo=1)
            if nmode == "n":
                kw["n"] = n
            elif nmode == "aout":
                a, base = old_out(S, "aout", rest + (n,), "F")
                kw["aout"] = a
            elif not timed:
                n = N
            r = S.call(CORE + ("auto_difference" if auto else "cross_difference"), *([f.arr] if auto else [f.arr, g.arr]), **kw)
            if n is None:
                S.prove("result is an array", isinstance(r, Arr) and r.ndim == rank)
                n = r.shape[-1]
                covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T2(j), T1(i)))

            def spec(*ix):
                px, k = ix[:-1], ix[-1]
                ps = (lambda c, v: sum_apairs(N, c, v)) if auto else (lambda c, v: sum_pairs(N, N, c, v))
                v = ps(lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: absq(n_sub(g.at(j, px), f.at(i, px))))
                return v if base is None else n_add(base(ix), v)
            S.prove_array("result is the sum over pairs", r, rest + (n,), spec)
            if base is not None:
                S.prove_array("supplied output holds the result", a, rest + (n,), spec)
            f.unchanged()
            g.unchanged()
        return body
    return mk


CASES = grid(case(False), "cross_difference", (False,)) + grid(case(True), "auto_difference", (False,))
