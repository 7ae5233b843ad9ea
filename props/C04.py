"""C04: the FFT method gives the same numbers as the direct method."""
from props.common import *
from props import C01, C02, C06

KERNELS = [NB + k for k in ("_cross_corr_fft", "_cross_corr_fft_regular", "_auto_corr_fft", "_auto_corr_fft_regular")]


def cross_corr_value(f, g, N, T1, T2, k, px, n, cplx):
    if cplx:
        _, d = wrap(k, full(n))
        return sum_pairs(N, N, lambda i, j: eq(sub(T2(j), T1(i)), d), lambda i, j: prod_conj(f.at(i, px), g.at(j, px)))
    return sum_pairs(N, N, lambda i, j: eq(eabs(sub(T2(j), T1(i))), k), lambda i, j: re_(prod_conj(f.at(i, px), g.at(j, px))))


def case(fn):
    def mk(rank, axis, timed, nmode, cplx, align, dtype="C", inv=False):
        def body(S):
            N = S.dims("N", lo=1)
            rest = rest_dims(S, rank)
            f = Data(S, "f1", rank, axis, N, rest, dtype)
            g = Data(S, "f2", rank, axis, N, rest, dtype) if fn == "cross_correlate_fft" else f
            kw = dict(axis=axis)
            if not fn.startswith("auto_sum"):
                kw["complex"] = cplx
            if inv:
                kw["time_inversion"] = True
            pos = [f.arr]
            T1 = T2 = lambda i: i
            if fn.startswith("auto"):
                if timed:
                    t, T1 = times(S, "t", N)
                    T2 = T1
                    C06.distinct(S, T1, N)
                    kw["t"] = t
            else:
                if timed:
                    t1, T1 = times(S, "t1", N)
                    t2, T2 = times(S, "t2", N)
                    kw.update({"t": t1, "t_other": t2} if "sum" in fn else {"t1": t1, "t2": t2})
                if fn == "cross_correlate_fft":
                    pos.append(g.arr)
            two = cplx and not fn.startswith("auto")
            odt = dtype if "sum" in fn else ("C" if cplx else "F")
            base, n = None, None
            if nmode != "none":
                n = S.dims("n", lo=1)
            if nmode == "n":
                kw["n"] = n
            elif nmode == "aout":
                a, base = old_out(S, "aout", rest + (full(n) if two else n,), odt)
                kw["aout"] = a
            elif not timed:
                n = N
            r = S.call(CORE + fn, *pos, **kw)
            if n is None:
                S.prove("result is an array", isinstance(r, Arr) and r.ndim == rank)
                n = r.shape[-1]
                if two:
                    S.prove("delay axis is odd", eq(mod(n, const(2)), I1))
                    n = floordiv(add(n, I1), const(2))
                covers(S, "default delays cover every pair", n, N, N, lambda i, j: sub(T2(j), T1(i)))

            def spec(*ix):
                px, k = ix[:-1], ix[-1]
                if fn == "cross_correlate_fft":
                    v = cross_corr_value(f, g, N, T1, T2, k, px, n, cplx)
                elif fn == "auto_correlate_fft":
                    v = C02.auto_spec(f, N, T1, k, px, cplx)
                elif fn == "cross_sum_fft":
                    v = C06.csum_spec(f, N, T1, T2, k, px, n, cplx, inv)
                else:
                    v = C06.asum_spec(f, N, T1, k, px)
                return v if base is None else n_add(base(ix), v)
            shape = rest + (full(n) if two else n,)
            S.prove_array("result is the sum over pairs", r, shape, spec)
            if base is not None:
                S.prove_array("supplied output holds the result", a, shape, spec)
            f.unchanged()
            g.unchanged()
        return body
    return mk


def grid(fn, timeds=(False, True), cplxs=(False, True), nmodes=("none", "n", "aout"), ranks=(1, 2, 3), **k):
    out = []
    for rank in ranks:
        for axis in axes_of(rank):
            for timed in timeds:
                for nmode in nmodes:
                    for cplx in cplxs:
                        if rank == 3 and nmode != "n":
                            continue
                        out.append(("%s[rank=%d axis=%d %s n=%s %s%s]" % (
                            fn, rank, axis, "t given" if timed else "regular", nmode, "complex" if cplx else "real",
                            "".join(" %s=%s" % x for x in sorted(k.items()))), case(fn)(rank, axis, timed, nmode, cplx, False, **k)))
    return out


Q = dict(ranks=(1, 2))
EXTRA = (grid("cross_correlate_fft", ranks=(3,)) + grid("auto_correlate_fft", ranks=(3,)) + grid("cross_sum_fft", (True,), ranks=(3,)) +
         grid("cross_sum_fft", (True,), inv=True, ranks=(1, 2)) + grid("auto_sum_fft", (True,), (False,), ranks=(3,)))
CASES = (grid("cross_correlate_fft", **Q) + grid("auto_correlate_fft", **Q) + grid("cross_sum_fft", (True,), **Q) +
         grid("cross_sum_fft", (True,), inv=True, nmodes=("n",), ranks=(2,)) + grid("auto_sum_fft", (True,), (False,), **Q) +
         grid("cross_sum_fft", (True,), dtype="F", nmodes=("n",), ranks=(2,)) + grid("auto_sum_fft", (True,), (False,), dtype="F", nmodes=("n",), ranks=(2,)))
