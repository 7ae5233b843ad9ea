from gen import *
from cddm.core import cross_sum as cs, auto_sum as asum


def cross(rng, i):
    d = frames(rng, two=False, real=bool(i % 2))
    n = pick_n(rng, full_cross(d))
    cplx, inv, al = bool(rng.random() < 0.5), bool(rng.random() < 0.5), bool(rng.random() < 0.3)
    d.update(n=n, complex=cplx, time_inversion=inv, align=al)
    want = cross_sum(d["f1"], d["t1"], d["t2"], d["axis"], n, cplx, inv)
    check_call(rng, "cross_sum", lambda a: cs(
        d["f1"], t=d["t1"], t_other=d["t2"], axis=d["axis"], n=n, align=al, complex=cplx, time_inversion=inv, aout=a),
        want, d, (d["f1"],), want.dtype)
    return sig(d, n, cplx, inv, al)


def auto(rng, i):
    d = frames(rng, two=False, real=bool(i % 2), distinct=True)
    n = pick_n(rng, full_auto(d))
    al = bool(rng.random() < 0.3)
    d.update(n=n, align=al)
    want = auto_sum(d["f1"], d["t1"], d["axis"], n)
    check_call(rng, "auto_sum", lambda a: asum(d["f1"], t=d["t1"], axis=d["axis"], n=n, align=al, aout=a), want, d, (d["f1"],), want.dtype)
    return sig(d, n, al)


def explicit_regular(rng, i):
    d = frames(rng, two=False, regular=True)
    n = pick_n(rng, d["N"])
    cplx, inv = bool(i % 2), bool(i % 3 == 0)
    t = np.arange(d["N"])
    same("explicit regular times", cs(d["f1"], t=t, t_other=t, axis=d["axis"], n=n, complex=cplx, time_inversion=inv),
         cs(d["f1"], axis=d["axis"], n=n, complex=cplx, time_inversion=inv), dict(d, n=n))
    same("explicit regular times (auto)", asum(d["f1"], t=t, axis=d["axis"], n=n), asum(d["f1"], axis=d["axis"], n=n), dict(d, n=n))
    return sig(d, n, cplx, inv)


SCENARIOS = [("cross", cross), ("auto", auto), ("explicit_regular", explicit_regular)]
