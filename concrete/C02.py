from gen import *
from cddm.core import auto_correlate


def auto(rng, i):
    d = frames(rng, two=False, real=(i % 5 == 4))
    n = pick_n(rng, full_auto(d))
    cplx = bool(rng.random() < 0.5)
    al = bool(rng.random() < 0.3)
    d.pop("t2")
    d.update(n=n, complex=cplx, align=al)
    want = auto_corr(d["f1"], d["t1"], d["axis"], n, cplx)
    check_call(rng, "auto_correlate", lambda a: auto_correlate(
        d["f1"], t=d["t1"], axis=d["axis"], n=None if a is not None and i % 2 else n, align=al, complex=cplx, aout=a),
        want, d, (d["f1"],), complex if cplx else float)
    return sig(d, n, cplx, al)


def explicit_regular(rng, i):
    """leaving the times out is the same as giving 0, 1, 2, ..."""
    d = frames(rng, two=False, regular=True)
    n = pick_n(rng, d["N"])
    cplx = bool(i % 2)
    a = auto_correlate(d["f1"], axis=d["axis"], n=n, complex=cplx)
    b = auto_correlate(d["f1"], t=np.arange(d["N"]), axis=d["axis"], n=n, complex=cplx)
    same("explicit regular times", b, a, dict(d, n=n))
    return sig(d, n, cplx)


SCENARIOS = [("auto", auto), ("explicit_regular", explicit_regular)]
