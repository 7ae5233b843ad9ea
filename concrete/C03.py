from gen import *
from cddm.core import cross_difference, auto_difference


def cross(rng, i):
    d = frames(rng)
    n = pick_n(rng, full_cross(d))
    al = bool(rng.random() < 0.3)
    want = cross_diff(d["f1"], d["f2"], d["t1"], d["t2"], d["axis"], n)
    d.update(n=n, align=al)
    check_call(rng, "cross_difference", lambda a: cross_difference(
        d["f1"], d["f2"], t1=d["t1"], t2=d["t2"], axis=d["axis"], n=n, align=al, aout=a), want, d, (d["f1"], d["f2"]), float)
    return sig(d, n, al)


def auto(rng, i):
    d = frames(rng, two=False)
    n = pick_n(rng, full_auto(d))
    al = bool(rng.random() < 0.3)
    want = auto_diff(d["f1"], d["t1"], d["axis"], n)
    d.update(n=n, align=al)
    check_call(rng, "auto_difference", lambda a: auto_difference(
        d["f1"], t=d["t1"], axis=d["axis"], n=n, align=al, aout=a), want, d, (d["f1"],), float)
    return sig(d, n, al)


SCENARIOS = [("cross", cross), ("auto", auto)]
