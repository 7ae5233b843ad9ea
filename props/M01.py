"""M01: multi-tau levels equal correlations of the binned data."""
from props.common import *
from props.multi import *
from pyvc.npmodel import mask_info, NAN

p2 = lambda k: app("pow2", (num(k),), "I")


def mk(cross, rank=2, axis=0, method="corr", norm=None, binning=None, cplx_=False, timed=False, given=False,
       div=False, mask=False, align=False, public=True, squares=False):
    def body(S):
        ex = S.ex
        N = S.dims("N", lo=1)
        dims = tuple(S.dims(n, lo=1) for n in ("K", "L", "M")[:rank - 1])
        f = Data(S, "f1", rank, axis, N, dims)
        g = Data(S, "f2", rank, axis, N, dims) if cross else f
        size = S.dims("size", lo=5)
        period = S.dims("period", lo=1)
        kw = dict(level_size=size, period=period, axis=axis, align=align)
        if method is not None:
            kw["method"] = method
        if norm is not None:
            kw["norm"] = norm
        if binning is not None:
            kw["binning"] = binning
        if cplx_:
            kw["complex"] = True
        m = method or "corr"
        b = binning if binning is not None else (0 if m == "diff" else 1)
        nn = norm if norm is not None else (7 if m != "diff" else (6 if cross else 2))
        T1 = T2 = lambda i: i
        if timed and cross:
            t1, T1 = times(S, "t1", N)
            t2, T2 = times(S, "t2", N)
            kw.update(t1=t1, t2=t2)
        elif timed:
            t, T1 = times(S, "t", N)
            T2 = T1
            kw.update(t=t)
        tot = I1
        for d in dims:
            tot = mul(tot, d)
        mk_, mr = None, None
        if mask:
            mk_ = kw["mask"] = S.arr("mask", dims, "B")
            mr = S.old(mk_)
            tot = mask_info(ex, mk_)[0]
            S.assume(ge(tot, I1))
        if div:
            D, e = S.dims("D", lo=1), S.dims("m", lo=0)
            S.assume(eq(tot, mul(D, e)))
            kw["thread_divisor"] = D
        cor = Correlate(S)
        lv = Levels(S, cor, b)
        k = fresh("k")
        left = lambda x: floordiv(N, p2(x))
        if given:
            Mgiven = S.dims("nlevel", lo=0)
            kw["nlevel"] = Mgiven
            # every level has a frame
            S.assume(forall((k,), implies(and_(ge(k, I0), le(k, Mgiven)), ge(left(k), I1))))
        else:
            S.assume(ge(N, size))

        def known(x, hi):
            """the number of frames of level x: at least N // 2^x (equal to it unless every second frame of
            an odd number is taken)"""
            L = app("frames", (x,), "I")
            S.assume(eq(p2(add(x, I1)), scale(p2(x), 2)))
            S.assume(ge(p2(x), I1))
            S.prove("halving of the number of frames", lemma)
            S.assume(ge(L, left(x)) if b == 0 else eq(L, left(x)))
            h = floordiv(left(x), const(2))
            S.assume(eq(h, left(add(x, I1))))
        # (N // p) // 2 = N // (2 p)
        a_, q_ = var("lemma_N"), var("lemma_p")
        lemma = implies(and_(ge(a_, I0), ge(q_, I1)), eq(floordiv(floordiv(a_, q_), const(2)), floordiv(a_, scale(q_, 2))))
        lv.bound = N
        lv.known = lambda ex, x, hi: known(x, hi)
        r = S.call(MT + ("ccorr_multi" if cross else "acorr_multi"), *([f.arr, g.arr] if cross else [f.arr]), **kw)
        S.prove("fast and slow data", isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, tuple) for x in r))
        fast, slow = r
        P = ["cor", "count"] + ([] if m == "diff" else ["sq"]) + ["m1", "m2"]
        S.prove("parts", len(fast) == len(P) and len(slow) == len(P))
        want = {"cor": True, "count": True, "sq": bool(nn & 2), "m1": bool(nn & 4) and (cross or m != "diff"), "m2": bool(nn & 4) and cross}
        rec = cor.calls[0]
        for c in cor.calls:
            S.prove("method, normalization and representation", c["method"] == m and c["norm"] == nn and c["complex"] == cplx_ and c["cross"] == cross)
        M = num(slow[1].shape[0])
        if given:
            S.prove("number of levels", eq(M, Mgiven))
        else:
            S.prove("a level has at least level_size frames", and_(ge(M, I0), ge(left(M), size)))
            S.prove("no level is left out", not_(ge(left(add(M, I1)), size)))
        two = cplx_ and cross
        nf = mul(period, size)
        Lf, Ls = (full(nf), full(size)) if two else (nf, size)
        dts = {"cor": "C" if cplx_ else "F", "count": "I", "sq": "F", "m1": "C", "m2": "C"}
        src = {"f1": lambda px: (lambda t: f.at(t, px)), "f2": lambda px: (lambda t: g.at(t, px)),
               "s1": lambda px: (lambda t: absq(f.at(t, px))), "s2": lambda px: (lambda t: absq(g.at(t, px)))}

        def roles(p):
            rs = ["f1", "f2"] if cross else ["f1"]
            if p == "cor":
                return rs
            if p == "sq":
                return ["s" + x[1] for x in rs]
            return ["f" + p[1]] if p[0] == "m" else []

        def fastv(p, px, d):
            sids = [series(N, src[x](px), x) for x in roles(p)]
            return plain(p, dts[p], d, nf, N, clock(N, T1, T2), sids)

        def slowv(p, l, px, d):
            ln = lv.halved(app("frames", (l,), "I"))
            sids = []
            for x in roles(p):
                dt = "C" if x[0] == "f" else "F"
                G = lambda t, x=x, dt=dt: sym_reader("level_" + x, dt)((l, t, series(N, src[x](px), x)))
                sids.append(series(ln, lambda t, G=G: lv.bin(G(scale(t, 2)), G(add(scale(t, 2), I1))), x))
            return plain(p, dts[p], d, size, ln, clock(ln, lambda i: i, lambda i: i), sids)
        for p, a, s in zip(P, fast, slow):
            if not want[p]:
                S.prove("%s absent" % p, a is None and s is None)
                continue
            S.prove("%s present" % p, isinstance(a, Arr) and isinstance(s, Arr))
            if p == "count":
                S.prove_array("counts at full rate", a, (Lf,), lambda d: fastv(p, (), d))
                S.prove_array("counts of a level", s, (M, Ls), lambda l, d: slowv(p, l, (), d))
                continue
            S.prove_shape("%s at full rate: shape" % p, a, dims + (Lf,))
            S.prove_shape("%s of the levels: shape" % p, s, (M,) + dims + (Ls,))
            for what, arr, sh in (("%s at full rate" % p, a, dims + (Lf,)), ("%s of a level" % p, s, (M,) + dims + (Ls,))):
                n0 = len(ex.pc)
                ix = S.index(sh)
                px = ix[-1 - len(dims):-1]
                if mask:
                    n1 = len(ex.pc)
                    S.assume(mr(px))
                w = fastv(p, px, ix[-1]) if arr is a else slowv(p, ix[0], px, ix[-1])
                S.prove_eq(what, ex.read(arr, ix), w)
                if mask:
                    del ex.pc[n1:]
                    S.assume(not_(mr(px)))
                    S.prove_eq("outside of the mask", cplx(ex.read(arr, ix)).re, NAN)
                del ex.pc[n0:]
        f.unchanged()
        g.unchanged()
    return body


CASES = []


def case(cross, **k):
    nm = "%s[%s]" % ("ccorr_multi" if cross else "acorr_multi", " ".join("%s=%s" % kv for kv in k.items()))
    CASES.append((nm, mk(cross, **k)))


for cross in (True, False):
    for method in ("corr", "fft", "diff"):
        for norm in (1, 2, 3, 5, 6, 7) if method != "diff" else ((2, 6) if cross else (2,)):
            for cplx_ in (False, True) if method == "corr" else (False,):
                case(cross, method=method, norm=norm, cplx_=cplx_)
        for binning in (0, 1, 2) if method != "diff" else (0, 2):
            case(cross, method=method, binning=binning)
    case(cross, method=None)
    for rank, axis in ((1, 0), (2, 1), (2, -1), (3, 0), (3, 1), (3, -1), (4, 0)):
        case(cross, rank=rank, axis=axis)
        if rank > 1:
            case(cross, rank=rank, axis=axis, align=True, binning=0)
    for rank in (2, 3):
        case(cross, rank=rank, div=True)
        case(cross, rank=rank, mask=True)
        case(cross, rank=rank, mask=True, div=True)
    for binning in (0, 1):
        case(cross, given=True, binning=binning)
        case(cross, timed=True, binning=binning)
EXTRA = []
