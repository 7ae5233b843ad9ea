from gen import *
from cddm.core import cross_count as cc, auto_count as ac


def some_t(rng):
    if rng.random() < 0.2:
        m = int(rng.integers(1, 9))
        return m, np.arange(m)
    t = times(rng, int(rng.integers(1, 10)))
    return (t if rng.random() < 0.7 else [int(x) for x in t]), t


def cross(rng, i):
    a1, t1 = some_t(rng)
    a2, t2 = some_t(rng)
    if rng.random() < 0.2:
        a2, t2 = None, t1
    n = pick_n(rng, span2(t1, t2))
    cplx = bool(rng.random() < 0.5)
    want = cross_count(t1, t2, span2(t1, t2) if n is None else n, cplx)
    inputs = dict(t1=a1, t2=a2, n=n, complex=cplx)
    if rng.random() < 0.4:
        base = rng.integers(0, 50, len(want))
        a = base.copy()
        got = cc(a1, a2, n, complex=cplx, aout=a)
        same("cross_count (given output)", got, base + want, inputs)
        same("cross_count (the given array)", a, base + want, inputs)
    else:
        got = cc(a1, a2, n, complex=cplx)
        same("cross_count", got, want, inputs)
    true("counts are integers", np.asarray(got).dtype.kind == "i", inputs)
    return str(inputs)


def auto(rng, i):
    a1, t1 = some_t(rng)
    n = pick_n(rng, span1(t1))
    want = auto_count(t1, span1(t1) if n is None else n)
    inputs = dict(t=a1, n=n)
    if rng.random() < 0.4:
        base = rng.integers(0, 50, len(want))
        a = base.copy()
        got = ac(a1, n, aout=a)
        same("auto_count (given output)", got, base + want, inputs)
        same("auto_count (the given array)", a, base + want, inputs)
    else:
        got = ac(a1, n)
        same("auto_count", got, want, inputs)
    true("counts are integers", np.asarray(got).dtype.kind == "i", inputs)
    return str(inputs)


SCENARIOS = [("cross", cross), ("auto", auto)]
