"""V01: video filters act frame by frame, in order, with nothing lost."""
from fractions import Fraction
from props.common import *
from props.streams import *
from props.F01 import freq, wrapped, half
from pyvc import fft2model, npmodel
from pyvc.sym import SliceVal

V, F = "cddm.video.", "cddm.fft."


def binary(fn, cams, dx, dy, inplace, dtype):
    op = {"add": n_add, "subtract": n_sub, "multiply": n_mul}[fn]

    def body(S):
        x = Video(S, "x", cams, dx)
        y = Video(S, "y", cams, dy, N=x.N, shapes=x.shapes)
        k = {}
        if inplace:
            k["inplace"] = True
        if dtype:
            k["dtype"] = S.f(V + "FDTYPE") if dtype == "F" else npmodel.DT[dtype]
        r = S.call(V + fn, x.stream, y.stream, **k)
        for i, vals in each(S, r, x.N, cams):
            for c, v in enumerate(vals):
                S.prove_shape("shape of the frame", v, x.shapes[c])
                p = S.index(x.shapes[c])
                S.prove_eq("the operation on the frame at this position", S.ex.read(v, p), op(x.at(c, i, p), y.at(c, i, p)))
                if inplace:
                    S.prove("the frame itself is changed", v.store == x.frame(c, i).store)
            if not inplace:
                x.unchanged()
            y.unchanged()
    return body


def mismatch(fn, a, b):
    def body(S):
        x = Video(S, "x", a, "F")
        y = Video(S, "y", b, "F", N=x.N)
        S.assume(gt(x.N, I0))
        S.raises("frame tuples of different lengths are rejected", V + fn, x.stream, y.stream, only="ValueError")
    return body


def normalize(fn, cams, dt, inplace):
    def body(S):
        x = Video(S, "x", cams, dt, lo=1)
        k = {"inplace": True} if inplace else {}
        r = S.call((F if fn == "normalize_fft" else V) + fn, x.stream, **k)
        for i, vals in each(S, r, x.N, cams):
            for c, v in enumerate(vals):
                H, W = x.shapes[c]
                S.prove_shape("shape of the frame", v, (H, W))
                p = S.index((H, W))
                if fn == "normalize_fft":
                    S.assume(absq_nonzero(x.at(c, i, (I0, I0))))
                    d = x.at(c, i, (I0, I0))
                else:
                    m, n = fresh("m"), fresh("n")
                    d = S_((m, n), and_(rng(m, H), rng(n, W)), x.at(c, i, (m, n)))
                    S.assume(absq_nonzero(d))
                    d = n_div(d, toreal(mul(H, W)))
                S.prove_eq("the operation on the frame at this position", S.ex.read(v, p), n_div(x.at(c, i, p), d))
                if inplace:
                    S.prove("the frame itself is changed", v.store == x.frame(c, i).store)
            if not inplace:
                x.unchanged()
    return body


def absq_nonzero(v):
    return or_(ne(v.re, R0), ne(v.im, R0)) if isinstance(v, CV) else ne(v, R0)


def crop(cams, dt, form):
    def body(S):
        x = Video(S, "x", cams, dt)
        a, n, b, m = (S.dims(s, lo=0) for s in ("a", "n", "b", "m"))
        for H, W in x.shapes:
            S.assume(and_(le(add(a, n), H), le(add(b, m), W)))
        h, w = (a, add(a, n)), (b, add(b, m))
        s = lambda t: SliceVal(t[0], t[1], None)
        roi = {"slices": (s(h), s(w)), "tuples": (h, w), "mixed": (h, s(w)), "rows": (s(h), SliceVal(None, None, None)), "default": None,
               "list": [h, w]}[form]
        r = S.call(V + "crop", x.stream, **({} if roi is None else {"roi": roi}))
        for i, vals in each(S, r, x.N, cams):
            for c, v in enumerate(vals):
                H, W = x.shapes[c]
                if form == "default":
                    sh, o = (H, W), (I0, I0)
                elif form == "rows":
                    sh, o = (n, W), (a, I0)
                else:
                    sh, o = (n, m), (a, b)
                S.prove_shape("shape of the region", v, sh)
                p = S.index(sh)
                S.prove_eq("the operation on the frame at this position", S.ex.read(v, p), x.at(c, i, (add(o[0], p[0]), add(o[1], p[1]))))
            x.unchanged()
    return body


def bad_roi(roi):
    def body(S):
        x = Video(S, "x", 1, "F")
        S.raises("invalid region rejected", V + "crop", x.stream, roi, only="ValueError")
    return body


def mask(cams, dt):
    def body(S):
        x = Video(S, "x", cams, dt, same=True)
        H, W = x.shapes[0]
        mk = S.arr("mask", (H, W), "B")
        on = S.old(mk)
        keep = S.ex.heap[mk.store]
        r = S.call(V + "mask", x.stream, mk)
        cnt, enum, rank, cond = npmodel.mask_info(S.ex, mk)
        for i, vals in each(S, r, x.N, cams):
            for c, v in enumerate(vals):
                S.prove_shape("number of selected pixels", v, (cnt,))
                p = S.index((H, W))
                k = len(S.ex.pc)
                S.assume(on(p))
                S.prove_eq("the operation on the frame at this position", S.ex.read(v, (rank(p),)), x.at(c, i, p))
                del S.ex.pc[k:]
            x.unchanged()
            S.prove("the mask is not modified", S.ex.heap[mk.store] is keep)
    return body


def transform(fn, cams, dt, gi, gj, lib):
    is_half = fn == "rfft2_video"

    def body(S):
        S.ex.config = dict(S.ex.config, rfft2lib=lib, fftlib=lib)
        x = Video(S, "x", cams, dt, lo=1)
        ki = S.dims("kimax", lo=0) if gi else None
        kj = S.dims("kjmax", lo=0) if gj else None
        for H, W in x.shapes:
            if gi:
                S.assume(le(ki, half(H)))
            if gj:
                S.assume(le(kj, half(W)))
        k = {}
        if gi:
            k["kimax"] = ki
        if gj:
            k["kjmax"] = kj
        r = S.call(F + fn, x.stream, **k)
        for i, vals in each(S, r, x.N, cams):
            for c, v in enumerate(vals):
                H, W = x.shapes[c]
                n = H if ki is None else add(scale(ki, 2), I1)
                m = (add(half(W), I1) if is_half else W) if kj is None else (add(kj, I1) if is_half else add(scale(kj, 2), I1))
                S.prove_shape("number of wave vectors", v, (n, m))
                p, q = S.index((n, m))
                fi = wrapped(freq(p, n, ki), H)
                fj = q if is_half else wrapped(freq(q, m, kj), W)
                S.prove_eq("the operation on the frame at this position", S.ex.read(v, (p, q)),
                           fft2model.value(lambda ix, c=c: x.at(c, i, ix), H, W, (), fi, fj))
            x.unchanged()
    return body


def too_large(fn, which):
    def body(S):
        x = Video(S, "x", 1, "F", lo=1)
        S.assume(gt(x.N, I0))
        H, W = x.shapes[0]
        k = S.dims("k", lo=0)
        if which == "kimax":
            S.assume(gt(k, half(H)))
        else:
            S.assume(gt(k, half(W)))
        S.raises("limits that do not fit are rejected", F + fn, x.stream, only="ValueError", **{which: k})
    return body


CASES = []
for fn in ("add", "subtract", "multiply"):
    for cams in (1, 2, 3):
        for dx, dy in (("F", "F"), ("I", "I"), ("C", "C"), ("C", "F"), ("F", "I"), ("I", "F")):
            if cams == 3 and (dx, dy) != ("F", "F"):
                continue
            for inplace in (False, True):
                if inplace and (dx, dy) == ("I", "F"):
                    continue
                CASES.append(("%s[%d cameras %s %s%s]" % (fn, cams, dx, dy, " inplace" if inplace else ""), binary(fn, cams, dx, dy, inplace, None)))
    CASES.append(("%s[dtype]" % fn, binary(fn, 2, "I", "I", False, "F")))
    for a, b in ((1, 2), (2, 1), (3, 2), (1, 0), (0, 1)):
        CASES.append(("%s rejects %d and %d" % (fn, a, b), mismatch(fn, a, b)))
for fn in ("normalize_video", "normalize_fft"):
    for cams in (1, 2):
        for dt in "FIC":
            for inplace in (False, True):
                if not (inplace and dt == "I"):
                    CASES.append(("%s[%d cameras %s%s]" % (fn, cams, dt, " inplace" if inplace else ""), normalize(fn, cams, dt, inplace)))
for form in ("slices", "tuples", "mixed", "rows", "default", "list"):
    for cams in (1, 2):
        CASES.append(("crop[%s %d cameras]" % (form, cams), crop(cams, "I" if form == "tuples" else "F", form)))
for nm, roi in (("one", ((0, 3),)), ("number", 5), ("none", None), ("three", ((0, 1), (0, 1), (0, 1)))):
    CASES.append(("crop rejects %s" % nm, bad_roi(roi)))
for cams in (1, 2):
    for dt in "FIC":
        CASES.append(("mask[%d cameras %s]" % (cams, dt), mask(cams, dt)))
for fn in ("rfft2_video", "fft2_video"):
    for gi, gj in itertools.product((False, True), repeat=2):
        for lib in ("numpy", "scipy"):
            for cams, dt in ((1, "F"), (2, "I")) + (((1, "C"),) if fn == "fft2_video" else ()):
                CASES.append(("%s[%d cameras %s%s%s %s]" % (fn, cams, dt, " kimax" if gi else "", " kjmax" if gj else "", lib), transform(fn, cams, dt, gi, gj, lib)))
    for which in ("kimax", "kjmax"):
        CASES.append(("%s rejects %s" % (fn, which), too_large(fn, which)))
EXTRA = []
