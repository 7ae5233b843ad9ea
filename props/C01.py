"""C01: cross-correlation is the sum over all frame pairs at each delay."""
from props.common import *

KERNELS = [NB + k for k in ("_cross_corr_vec", "_cross_corr_complex_vec", "_cross_corr", "_cross_corr_complex",
                            "_cross_corr_regular", "_cross_corr_complex_regular")]


def case(rank, axis, timed, nmode, cplx, align, dtype="C"):
    def body(S):
        N = S.dims("N", lo=1)
        rest = rest_dims(S, rank)
        f, g = Data(S, "f1", rank, axis, N, rest, dtype), Data(S, "f2", rank, axis, N, rest, dtype)
        kw = dict(axis=axis, complex=cplx, align=align)
        if timed:
            t1, T1 = times(S, "t1", N)
            t2, T2 = times(S, "t2", N)
            kw.update(t1=t1, t2=t2)
        else:
            T1 = T2 = lambda i: i
        base = None
        if nmode == "n":
            n = S.dims("n", lo=1)
            kw["n"] = n
        elif nmode == "aout":
            n = S.dims("n", lo=1)
            a, base = old_out(S, "aout", rest + (full(n) if cplx else n,), "C" if cplx else "F")
            kw["aout"] = a
        elif not timed:
            n = N
        else:
            n = None
        r = S.call(CORE + "cross_correlate", f.arr, g.arr, **kw)
        if n is None:
            S.prove("result is an array", isinstance(r, Arr) and r.ndim == rank)
            n = r.shape[-1]
            if cplx:
                S.prove("delay axis is odd", eq(mod(n, const(2)), I1))
                n = floordiv(add(n, I1), const(2))
            covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T2(j), T1(i)))

        def spec(*ix):
            px, k = ix[:-1], ix[-1]
            if cplx:
                _, d = wrap(k, full(n))
                v = sum_pairs(N, N, lambda i, j: eq(sub(T2(j), T1(i)), d), lambda i, j: prod_conj(f.at(i, px), g.at(j, px)))
            else:
                v = sum_pairs(N, N, lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: re_(prod_conj(f.at(i, px), g.at(j, px))))
            return v if base is None else n_add(base(ix), v)
        shape = rest + (full(n) if cplx else n,)
        S.prove_array("result is the sum over pairs", r, shape, spec)
        if base is not None:
            S.prove_array("supplied output holds the result", a, shape, spec)
        f.unchanged()
        g.unchanged()
    return body


CASES = []
for rank in (1, 2, 3):
    for axis in axes_of(rank):
        for timed in (False, True):
            for nmode in ("none", "n", "aout"):
                for cplx in (False, True):
                    for align in ((False, True) if axis >= 0 else (False,)):
                        if rank == 3 and axis < 0 and nmode != "n":
                            continue
                        CASES.append(("cross_correlate[rank=%d axis=%d %s n=%s %s%s]" % (
                            rank, axis, "t given" if timed else "regular", nmode, "complex" if cplx else "real", " align" if align else ""),
                            case(rank, axis, timed, nmode, cplx, align)))
for dt in "FI":
    for timed in (False, True):
        CASES.append(("cross_correlate[%s data rank=2 %s]" % ({"F": "real", "I": "integer"}[dt], "t given" if timed else "regular"),
                      case(2, 0, timed, "n", False, False, dt)))
