"""Random calls of the correlation functions."""
import numpy as np
from lib import *


def frames(rng, two=True, real=False, regular=None, distinct=False, nmax=9):
    """dict with one or two sequences, times and axis"""
    N = int(rng.integers(1, nmax))
    sh, ax = shape_with(rng, N)
    mk = (lambda: layout(rng, rng.normal(size=sh))) if real else (lambda: cdata(rng, sh))
    d = {"f1": mk(), "axis": ax, "N": N}
    if two:
        d["f2"] = mk()
    reg = (rng.random() < 0.4) if regular is None else regular
    d["t1"] = d["t2"] = None
    if not reg:
        d["t1"] = times(rng, N, distinct)
        d["t2"] = times(rng, N, distinct) if rng.random() < 0.8 else d["t1"]
    return d


def full_cross(d):
    return d["N"] if d["t1"] is None else span2(d["t1"], d["t2"])


def full_auto(d):
    return d["N"] if d["t1"] is None else span1(d["t1"])


def given_out(rng, shape, dtype):
    """a supplied output array: base values and the array, maybe not contiguous"""
    base = rng.normal(size=shape)
    if np.dtype(dtype).kind == "c":
        base = base + 1j * rng.normal(size=shape)
    base = base.astype(dtype)
    return base, layout(rng, base.copy())


def check_call(rng, what, call, want, d, keep, out_dtype, accumulate=True):
    """call(aout) gives want; with an output array it is added to it; inputs stay as they were"""
    before = [k.copy() for k in keep]
    inputs = {k: v for k, v in d.items() if v is not None}
    if accumulate and rng.random() < 0.4:
        base, a = given_out(rng, want.shape, out_dtype)
        got = call(a)
        same(what + " (given output)", got, base + want, inputs)
        same(what + " (the given array)", a, base + want, inputs)
    else:
        got = call(None)
        same(what, got, want, inputs)
    for b, k in zip(before, keep):
        same(what + ": input modified", k, b, inputs)
    return got


def sig(d, *more):
    return "%s axis=%d %s %s" % (d["f1"].shape, d["axis"], "regular" if d["t1"] is None else "t", " ".join(str(m) for m in more))
