"""C02: auto-correlation counts every frame pair exactly once."""
from props.common import *

KERNELS = [NB + k for k in ("_auto_corr_vec", "_auto_corr_complex_vec", "_auto_corr", "_auto_corr_complex",
                            "_auto_corr_regular", "_auto_corr_complex_regular")]


def auto_spec(f, N, T, k, px, cplx):
    """unordered pairs; the earlier frame is conjugated"""
    if not cplx:
        return sum_apairs(N, lambda i, j: eq(eabs(sub(T(j), T(i))), k), lambda i, j: re_(prod_conj(f.at(i, px), f.at(j, px))))
    fwd = sum_apairs(N, lambda i, j: eq(sub(T(j), T(i)), k), lambda i, j: prod_conj(f.at(i, px), f.at(j, px)))
    bwd = sum_apairs(N, lambda i, j: and_(lt(sub(T(j), T(i)), I0), eq(sub(T(i), T(j)), k)), lambda i, j: prod_conj(f.at(j, px), f.at(i, px)))
    return n_add(fwd, bwd)


def case(rank, axis, timed, nmode, cplx, align, dtype="C"):
    def body(S):
        N = S.dims("N", lo=1)
        rest = rest_dims(S, rank)
        f = Data(S, "f", rank, axis, N, rest, dtype)
        kw = dict(axis=axis, complex=cplx, align=align)
        T = lambda i: i
        if timed:
            t, T = times(S, "t", N)
            kw.update(t=t)
        base, n = None, None
        if nmode != "none":
            n = S.dims("n", lo=1)
        if nmode == "n":
            kw["n"] = n
        elif nmode == "aout":
            a, base = old_out(S, "aout", rest + (n,), "C" if cplx else "F")
            kw["aout"] = a
        elif not timed:
            n = N
        r = S.call(CORE + "auto_correlate", f.arr, **kw)
        if n is None:
            S.prove("result is an array", isinstance(r, Arr) and r.ndim == rank)
            n = r.shape[-1]
            covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T(j), T(i)))

        def spec(*ix):
            v = auto_spec(f, N, T, ix[-1], ix[:-1], cplx)
            return v if base is None else n_add(base(ix), v)
        S.prove_array("result is the sum over pairs", r, rest + (n,), spec)
        if base is not None:
            S.prove_array("supplied output holds the result", a, rest + (n,), spec)
        f.unchanged()
    return body


def grid(case, name, cplxs=(False, True), nmodes=("none", "n", "aout")):
    out = []
    for rank in (1, 2, 3):
        for axis in axes_of(rank):
            for timed in (False, True):
                for nmode in nmodes:
                    for cplx in cplxs:
                        for align in ((False, True) if axis >= 0 else (False,)):
                            if rank == 3 and axis < 0 and nmode != "n":
                                continue
                            out.append(("%s[rank=%d axis=%d %s n=%s %s%s]" % (
                                name, rank, axis, "t given" if timed else "regular", nmode, "complex" if cplx else "real",
                                " align" if align else ""), case(rank, axis, timed, nmode, cplx, align)))
    return out


CASES = grid(case, "auto_correlate")
for dt in "FI":
    for timed in (False, True):
        CASES.append(("auto_correlate[%s data rank=2 %s]" % ({"F": "real", "I": "integer"}[dt], "t given" if timed else "regular"),
                      case(2, 0, timed, "n", False, False, dt)))
