"""F01: cropping a transform keeps exactly the requested wave vectors."""
from props.common import *

FFT = "cddm.fft."


def freq(p, n, limit):
    """index of the wave vector at position p of an axis of n entries cropped to the limit"""
    return ite(le(p, limit), p, sub(p, n)) if limit is not None else p


def wrapped(f, n):
    """index of wave number f in a transform of length n"""
    return ite(lt(f, I0), add(f, n), f)


def frames(S, rank, dt):
    H, W = S.dims("H", lo=1), S.dims("W", lo=1)
    lead = tuple(S.dims(x, lo=0) for x in ("K", "L")[:rank - 2])
    x = S.arr("x", lead + (H, W), dt)
    return H, W, lead, x


def half(n):
    return floordiv(n, const(2))


def crop(fn, rank, dt, gi, gj, kw=True):
    is_half = fn == "rfft2_crop"

    def body(S):
        H, W, lead, x = frames(S, rank, dt)
        rd, keep = S.old(x), S.ex.heap[x.store]
        ki = kj = None
        if gi:
            ki = S.dims("kimax", lo=0)
            S.assume(le(ki, half(H)))
        if gj:
            kj = S.dims("kjmax", lo=0)
            S.assume(le(kj, sub(W, I1) if is_half else half(W)))
        r = S.call(FFT + fn, x, ki, kj)
        n = H if ki is None else add(scale(ki, 2), I1)
        m = W if kj is None else (add(kj, I1) if is_half else add(scale(kj, 2), I1))
        S.prove_shape("number of wave vectors", r, lead + (n, m))
        S.prove("type", r.dtype == dt)
        i = S.index(lead + (n, m))
        p, q = i[-2:]
        fi = wrapped(freq(p, n, ki), H)
        fj = q if is_half else wrapped(freq(q, m, kj), W)
        S.prove("inside the transform", and_(ge(fi, I0), lt(fi, H), ge(fj, I0), lt(fj, W)))
        S.prove_eq("value at this wave vector", S.ex.read(r, i), rd(i[:-2] + (fi, fj)))
        S.prove("the transform is not modified", S.ex.heap[x.store] is keep)
        if not gi and not gj:
            S.prove("without limits the transform itself", r.store == x.store)
        else:
            S.prove("a new array", r.store != x.store)
    return body


def reject(fn, rank, which, other):
    is_half = fn == "rfft2_crop"

    def body(S):
        H, W, lead, x = frames(S, rank, "C")
        ki = S.dims("kimax", lo=0) if which == "i" or other else None
        kj = S.dims("kjmax", lo=0) if which == "j" or other else None
        if which == "i":
            S.assume(gt(ki, half(H)))
        else:
            S.assume(gt(kj, sub(W, I1) if is_half else half(W)))
        S.raises("limits that do not fit are rejected", FFT + fn, x, ki, kj, only="ValueError")
    return body


CASES = []
for fn in ("rfft2_crop", "fft2_crop"):
    for rank in (2, 3, 4):
        for gi, gj in itertools.product((False, True), repeat=2):
            for dt in "CF":
                CASES.append(("%s[rank %d %s%s%s]" % (fn, rank, dt, " kimax" if gi else "", " kjmax" if gj else ""), crop(fn, rank, dt, gi, gj)))
        for which in "ij":
            for other in (False, True):
                CASES.append(("%s rejects k%smax[rank %d%s]" % (fn, which, rank, " both" if other else ""), reject(fn, rank, which, other)))
EXTRA = []
