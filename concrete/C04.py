from gen import *
from cddm.core import cross_correlate_fft, auto_correlate_fft, cross_sum_fft, auto_sum_fft, ccorr, acorr


def cross(rng, i):
    d = frames(rng)
    n = pick_n(rng, full_cross(d))
    cplx = bool(rng.random() < 0.5)
    d.update(n=n, complex=cplx)
    want = cross_corr(d["f1"], d["f2"], d["t1"], d["t2"], d["axis"], n, cplx)
    check_call(rng, "cross_correlate_fft", lambda a: cross_correlate_fft(
        d["f1"], d["f2"], t1=d["t1"], t2=d["t2"], axis=d["axis"], n=n, complex=cplx, aout=a), want, d, (d["f1"], d["f2"]), complex if cplx else float)
    return sig(d, n, cplx)


def auto(rng, i):
    d = frames(rng, two=False, distinct=True)
    n = pick_n(rng, full_auto(d))
    cplx = bool(rng.random() < 0.5)
    d.update(n=n, complex=cplx)
    want = auto_corr(d["f1"], d["t1"], d["axis"], n, cplx)
    check_call(rng, "auto_correlate_fft", lambda a: auto_correlate_fft(
        d["f1"], t=d["t1"], axis=d["axis"], n=n, complex=cplx, aout=a), want, d, (d["f1"],), complex if cplx else float)
    return sig(d, n, cplx)


def csum(rng, i):
    d = frames(rng, two=False, regular=False, real=bool(i % 2))
    n = pick_n(rng, full_cross(d))
    cplx, inv = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    d.update(n=n, complex=cplx, time_inversion=inv)
    want = cross_sum(d["f1"], d["t1"], d["t2"], d["axis"], n, cplx, inv)
    check_call(rng, "cross_sum_fft", lambda a: cross_sum_fft(
        d["f1"], d["t1"], t_other=d["t2"], axis=d["axis"], n=n, complex=cplx, time_inversion=inv, aout=a), want, d, (d["f1"],), want.dtype)
    return sig(d, n, cplx, inv)


def asum(rng, i):
    d = frames(rng, two=False, regular=False, real=bool(i % 2), distinct=True)
    n = pick_n(rng, full_auto(d))
    d.update(n=n)
    want = auto_sum(d["f1"], d["t1"], d["axis"], n)
    check_call(rng, "auto_sum_fft", lambda a: auto_sum_fft(d["f1"], d["t1"], axis=d["axis"], n=n, aout=a), want, d, (d["f1"],), want.dtype)
    return sig(d, n)


def parts(rng, i):
    """all five parts by both methods"""
    au = bool(i % 2)
    d = frames(rng, two=not au, distinct=au)
    n = int(rng.integers(1, (full_auto(d) if au else full_cross(d)) + 3))
    cplx = bool(rng.random() < 0.5)
    norm = int(rng.choice([1, 2, 3, 5, 6, 7]))
    r = []
    for m in ("corr", "fft"):
        if au:
            r.append(acorr(d["f1"], t=d["t1"], axis=d["axis"], n=n, norm=norm, method=m, complex=cplx))
        else:
            r.append(ccorr(d["f1"], d["f2"], t1=d["t1"], t2=d["t2"], axis=d["axis"], n=n, norm=norm, method=m, complex=cplx))
    for k, (a, b) in enumerate(zip(*r)):
        same("part %d by fft against corr" % k, b, a, dict(d, n=n, norm=norm, complex=cplx))
    return sig(d, n, cplx, norm)


SCENARIOS = [("cross", cross), ("auto", auto), ("cross_sum", csum), ("auto_sum", asum), ("parts", parts)]
