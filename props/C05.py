"""C05: pair counts equal the number of frame pairs at each delay."""
from props.common import *

KERNELS = [NB + k for k in ("_add_count_cross", "_add_count_cross_complex", "_add_count_auto")]


def atime(S, name, kind):
    """(argument, length, times): an array of times, or the number of regular frames"""
    if kind == "array":
        N = S.dims("N" + name, lo=1)
        t, T = times(S, name, N)
        return t, N, T
    m = S.dims("m" + name, lo=1)
    return m, m, lambda i: i


def cross(k1, k2, nmode, cplx):
    def body(S):
        a1, N1, T1 = atime(S, "t1", k1)
        kw = dict(complex=cplx)
        if k2 == "none":
            N2, T2 = N1, T1
        else:
            a2, N2, T2 = atime(S, "t2", k2)
            kw["t2"] = a2
        n, base = None, None
        if nmode != "none":
            n = S.dims("n", lo=1)
        if nmode == "n":
            kw["n"] = n
        if nmode == "aout":
            a, base = old_out(S, "aout", (full(n) if cplx else n,), "I")
            kw["aout"] = a
        r = S.call(CORE + "cross_count", a1, **kw)
        if n is None:
            S.prove("result is an array", isinstance(r, Arr) and r.ndim == 1)
            n = r.shape[-1]
            if cplx:
                S.prove("delay axis is odd", eq(mod(n, const(2)), I1))
                n = floordiv(add(n, I1), const(2))
            covers(S, "default delays cover every pair", n, N1, N2, lambda i, j: sub(T2(j), T1(i)))
        S.prove("counts are integers", isinstance(r, Arr) and r.dtype == "I")

        def spec(k):
            if cplx:
                _, d = wrap(k, full(n))
                v = sum_pairs(N1, N2, lambda i, j: eq(sub(T2(j), T1(i)), d), lambda i, j: I1)
            else:
                v = sum_pairs(N1, N2, lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: I1)
            return v if base is None else n_add(base((k,)), v)
        S.prove_array("result is the number of pairs", r, (full(n) if cplx else n,), spec)
        if base is not None:
            S.prove_array("supplied output holds the result", a, (full(n) if cplx else n,), spec)
    return body


def auto(k1, nmode):
    def body(S):
        a1, N, T = atime(S, "t", k1)
        kw = {}
        n, base = None, None
        if nmode != "none":
            n = S.dims("n", lo=1)
        if nmode == "n":
            kw["n"] = n
        if nmode == "aout":
            a, base = old_out(S, "aout", (n,), "I")
            kw["aout"] = a
        r = S.call(CORE + "auto_count", a1, **kw)
        if n is None:
            S.prove("result is an array", isinstance(r, Arr) and r.ndim == 1)
            n = r.shape[-1]
            covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T(j), T(i)))
        S.prove("counts are integers", isinstance(r, Arr) and r.dtype == "I")

        def spec(k):
            v = sum_apairs(N, lambda i, j: eq(eabs(sub(T(j), T(i))), k), lambda i, j: I1)
            return v if base is None else n_add(base((k,)), v)
        S.prove_array("result is the number of pairs", r, (n,), spec)
        if base is not None:
            S.prove_array("supplied output holds the result", a, (n,), spec)
    return body


CASES = []
for nmode in ("none", "n", "aout"):
    for k1 in ("array", "integer"):
        for k2 in ("array", "integer", "none"):
            for cplx in (False, True):
                CASES.append(("cross_count[t1 %s t2 %s n=%s%s]" % (k1, k2, nmode, " complex" if cplx else ""), cross(k1, k2, nmode, cplx)))
        CASES.append(("auto_count[t %s n=%s]" % (k1, nmode), auto(k1, nmode)))
