from gen import *
from cddm.core import cross_correlate


def cross(rng, i):
    d = frames(rng)
    n = pick_n(rng, full_cross(d))
    cplx = bool(rng.random() < 0.5)
    al = bool(rng.random() < 0.3)
    want = cross_corr(d["f1"], d["f2"], d["t1"], d["t2"], d["axis"], n, cplx)
    d.update(n=n, complex=cplx, align=al)
    # a given output array fixes the number of delays
    check_call(rng, "cross_correlate", lambda a: cross_correlate(
        d["f1"], d["f2"], t1=d["t1"], t2=d["t2"], axis=d["axis"], n=None if a is not None and i % 2 else n, align=al, complex=cplx, aout=a),
        want, d, (d["f1"], d["f2"]), complex if cplx else float)
    return sig(d, n, cplx, al)


def real_frames(rng, i):
    d = frames(rng, real=True)
    n = pick_n(rng, full_cross(d))
    cplx = bool(i % 2)
    want = cross_corr(d["f1"], d["f2"], d["t1"], d["t2"], d["axis"], n, cplx)
    check_call(rng, "cross_correlate of real frames", lambda a: cross_correlate(
        d["f1"], d["f2"], t1=d["t1"], t2=d["t2"], axis=d["axis"], n=n, complex=cplx, aout=a), want, dict(d, n=n), (d["f1"], d["f2"]), complex if cplx else float)
    return sig(d, n, cplx)


SCENARIOS = [("cross", cross), ("real", real_frames)]
