"""S02: generated camera triggers respect the frame period."""
from props.common import *
from props.carry import Carry

SIM = "cddm.sim."


def pair(fn, kw):
    def body(S):
        N, n = S.dims("N", lo=0), S.dims("n", lo=1)
        r = S.call(SIM + fn, N, n=n) if kw == "n" else (S.call(SIM + fn, N, n) if kw else S.call(SIM + fn, N))
        if not kw:
            n = const(32)
        S.prove("one array per camera", isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, Arr) for x in r))
        for x in r:
            S.prove_shape("one time per cycle", x, (N,))
            S.prove("integer times", x.dtype == "I")
        S.prove("separate arrays", r[0].store != r[1].store)
        i = S.index((N,))
        t1, t2 = (num(S.ex.read(x, i)) for x in r)
        c = mul(i[0], scale(n, 2))
        o1, o2 = sub(t1, c), sub(t2, c)
        S.prove("the first camera's offset is below n", and_(ge(o1, I0), lt(o1, n)))
        ok = or_(eq(o2, I0), eq(o2, n))
        S.prove("the second camera's offset is 0 or n%s" % (" or the first camera's" if fn == "create_random_times2" else ""),
                or_(ok, eq(o2, o1)) if fn == "create_random_times2" else ok)
        S.assume(lt(add(i[0], I1), N))
        for k, x in enumerate(r):
            S.prove("consecutive times of one camera are at least n apart", ge(sub(num(S.ex.read(x, (add(i[0], I1),))), (t1, t2)[k]), n))
    return body


def single(kw, two):
    def body(S):
        N, n = S.dims("N", lo=0), S.dims("n", lo=1)
        k, d = {}, I1
        if kw:
            d = S.dims("dt_min", lo=1)
            S.assume(le(d, n))
            k["dt_min"] = d
        S.assume(ge(N, const(2 if two else 1)))
        c = Carry(S, 2 if two else 1)
        x = S.call(SIM + "create_random_time", N, n, **k)
        S.prove_shape("one time per period", x, (N,))
        S.prove("integer times", x.dtype == "I")
        i = c.seen[0] if c.seen else S.index((sub(N, I1) if two else N,))[0]
        t = num(S.ex.read(x, (i,)))
        if not two:
            S.prove("inside its period", and_(ge(t, mul(i, n)), lt(t, mul(add(i, I1), n))))
        else:
            S.prove("consecutive times at least the minimum spacing apart", ge(sub(num(S.ex.read(x, (add(i, I1),))), t), d))
    return body


def empty(S):
    n = S.dims("n", lo=1)
    x = S.call(SIM + "create_random_time", 0, n)
    S.prove_shape("one time per period", x, (I0,))


CASES = [("create_random_time[empty]", empty)]
for fn in ("create_random_times1", "create_random_times2"):
    for kw in (None, "n", "positional"):
        CASES.append(("%s[%s]" % (fn, kw), pair(fn, kw)))
for kw in (False, True):
    for two in (False, True):
        CASES.append(("create_random_time[%s %s]" % ("dt_min" if kw else "default", "pair" if two else "one"), single(kw, two)))
EXTRA = []
