"""S04: the simulated sensor readout is clamped and monotone."""
from props.common import *
from pyvc.mathax import instances

ADC = "cddm.sim.adc"
BITS = tuple(range(1, 17))


def inputs(S, rank, model, dtype="F"):
    """the frame (a scalar or an array), black level, saturation and the keywords"""
    sh = tuple(S.dims(n, lo=0) for n in "HWD"[:rank])
    k = {"saturation": var("saturation", "R"), "black_level": var("black_level", "R"), "noise_model": model}
    S.assume(gt(k["saturation"], R0))
    if rank:
        x = S.arr("frame", sh, dtype)
        rd = S.old(x)
        at = lambda p: toreal(num(rd(p)))
    else:
        x = var("frame", "R")
        at = lambda p: x
    return x, at, sh, k


def value(S, r, p):
    v = num(S.ex.read(r, p)) if isinstance(r, Arr) else num(r)
    for c in instances([v]):
        S.assume(c)
    return v


def result(S, r, sh, out=None):
    S.prove("an integer", (r.dtype if isinstance(r, Arr) else num(r).sort) == "I")
    if sh or out is not None:
        S.prove_shape("one count per element", r, sh)
    if out is not None:
        S.prove("written into the given array", r.store == out.store)


def clean(bits, rank, given, noise=False, dtype="F"):
    def body(S):
        x, at, sh, k = inputs(S, rank, "none", dtype)
        top = const(2 ** bits - 1)
        if given:
            k["out"] = S.arr("out", sh, "I")
        if noise:
            k["readout_noise"] = var("readout", "R")
        r = S.call(ADC, x, bit_depth="%dbit" % bits, **k)
        result(S, r, sh, k.get("out"))
        p, q = S.index(sh, "p"), S.index(sh, "q")
        v, w, a, b = value(S, r, p), value(S, r, q), at(p), at(q)
        S.prove("between zero and full scale", and_(ge(v, I0), le(v, top)))
        if rank:
            S.prove("never decreases with the intensity", implies(le(a, b), le(v, w)))
        else:
            y = var("frame2", "R")
            w = value(S, S.call(ADC, y, bit_depth="%dbit" % bits, **k), ())
            S.prove("never decreases with the intensity", implies(le(x, y), le(v, w)))
        ideal = mul(div(sub(a, k["black_level"]), k["saturation"]), toreal(top))
        inside = and_(ge(ideal, R0), le(ideal, toreal(top)))
        S.prove("integer part of the scaled intensity", implies(inside, and_(le(toreal(v), ideal), lt(ideal, toreal(add(v, I1))))))
        S.prove("zero below the black level", implies(le(ideal, R0), eq(v, I0)))
        S.prove("full scale at and above saturation", implies(ge(ideal, toreal(top)), eq(v, top)))
    return body


def noisy(bits, rank, model, readout):
    def body(S):
        x, at, sh, k = inputs(S, rank, model)
        k["readout_noise"] = var("readout", "R")
        S.assume(ge(k["readout_noise"], R0))
        if not readout:
            del k["readout_noise"]
        if rank:
            q = tuple(fresh("q") for _ in sh)
            S.ex.add_axiom(forall(q, ge(at(q), R0)))
        else:
            S.assume(ge(x, R0))
        r = S.call(ADC, x, bit_depth="%dbit" % bits, **k)
        result(S, r, sh)
        v = value(S, r, S.index(sh, "p"))
        S.prove("between zero and full scale", and_(ge(v, I0), le(v, const(2 ** bits - 1))))
    return body


def defaults(S):
    """the default arguments: 14 bit, saturation 32768, black level 0"""
    x, at, sh, k = inputs(S, 2, "none")
    r = S.call(ADC, x, noise_model="none")
    result(S, r, sh)
    p = S.index(sh, "p")
    v = value(S, r, p)
    ideal = mul(div(at(p), const(32768, "R")), const(16383, "R"))
    S.prove("between zero and full scale", and_(ge(v, I0), le(v, const(16383))))
    S.prove("integer part of the scaled intensity", implies(and_(ge(ideal, R0), le(ideal, const(16383, "R"))),
                                                           and_(le(toreal(v), ideal), lt(ideal, toreal(add(v, I1))))))


def unknown(S):
    x, at, sh, k = inputs(S, 2, "uniform")
    for m in ("uniform", "", "Gaussian", None):
        k["noise_model"] = m
        S.raises("unknown noise model rejected", ADC, x, only="ValueError", **k)


CASES = [("defaults", defaults), ("unknown model", unknown)]
for bits in BITS:
    CASES.append(("%d bit" % bits, clean(bits, 2, False)))
for rank in (0, 1, 3):
    CASES.append(("12 bit rank %d" % rank, clean(12, rank, False)))
CASES.append(("14 bit integer frame", clean(14, 2, False, dtype="I")))
CASES.append(("8 bit given output", clean(8, 2, True)))
CASES.append(("14 bit given output", clean(14, 2, True)))
CASES.append(("readout noise is not applied without a model", clean(10, 2, False, True)))
for model in ("gaussian", "poisson"):
    for bits in (8, 10, 12, 14, 16):
        CASES.append(("%s %d bit" % (model, bits), noisy(bits, 2, model, True)))
    CASES.append(("%s no readout noise" % model, noisy(14, 2, model, False)))
    CASES.append(("%s scalar" % model, noisy(12, 0, model, True)))
EXTRA = []
