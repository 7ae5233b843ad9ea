"""M05: reshaping for threading and masking is a lossless relabelling."""
from props.common import *
from pyvc.npmodel import mask_info, NAN

DIMS = ("K", "L", "M")


def total(dims):
    r = I1
    for d in dims:
        r = mul(r, d)
    return r


def divisor(S, dims):
    """a divisor of the number of pixels"""
    D, m = S.dims("D", lo=1), S.dims("m", lo=0)
    S.assume(eq(total(dims), mul(D, m)))
    return D, m


def processed(S, y, axis, nd, levels, N, dt):
    """per-pixel results: an arbitrary function of the values of one pixel at arbitrary times"""
    n = S.dims("n", lo=1)
    lead = (S.dims("A", lo=1),) if levels else ()
    yr = S.ex.reader(y)
    g = [sym_reader("g%d" % j, dt) for j in range(3)]
    t = var("t")
    S.assume(and_(ge(t, I0), lt(t, N)))
    fsh = [num(s) for k, s in enumerate(y.shape) if k != axis]

    def part(j):
        def rd(idx):
            pix = list(idx[len(lead):-1])
            pix.insert(axis, t)
            v = cplx(yr(tuple(pix)))
            h = sym_reader("g%d" % j, dt)
            return h(tuple(idx[:len(lead)]) + (idx[-1],) + (app("id", (v.re, v.im), "I"),))
        return S.ex.alloc(tuple(lead) + tuple(fsh) + (n,), dt, Fn(rd))
    return n, lead, part


def want(S, j, fr, i, lead, axis, t, dt, place):
    """the same function of the values of the original pixel"""
    pix = list(place)
    pix.insert(axis, t)
    v = cplx(fr(tuple(pix)))
    return sym_reader("g%d" % j, dt)(tuple(i[:len(lead)]) + (i[-1],) + (app("id", (v.re, v.im), "I"),))


def split(fr_rank, axis, div, levels, form, dt="C"):
    """reshape_input, an arbitrary calculation per pixel, reshape_output"""
    def body(S):
        dims = tuple(S.dims(x, lo=1) for x in DIMS[:fr_rank])
        N = S.dims("N", lo=1)
        sh = list(dims)
        ax = axis % (fr_rank + 1)
        sh.insert(ax, N)
        f = S.arr("f", tuple(sh), "C")
        fr, keep = S.old(f), S.ex.heap[f.store]
        kw = {"axis": axis} if axis else {}
        if div:
            D, m = divisor(S, dims)
            kw["thread_divisor"] = D
        r = S.call(CORE + "reshape_input", f, **kw)
        S.prove("array and shape", isinstance(r, tuple) and len(r) == 2)
        y, shape = r
        S.prove("number of frame axes", len(shape) == fr_rank)
        for k, (a, b) in enumerate(zip(shape, dims)):
            S.prove("old frame shape", eq(num(a), b))
        if div:
            ysh = [D, m]
        elif fr_rank == 1:
            ysh = [I1, dims[0]]
        else:
            ysh = list(dims)
        ax = axis % (len(ysh) + 1)
        ysh.insert(ax, N)
        S.prove_shape("shape for threading", y, tuple(ysh))
        S.prove("the frames are not modified", S.ex.heap[f.store] is keep)
        n, lead, part = processed(S, y, ax, fr_rank, levels, N, dt)
        t = var("t")
        if form == "array":
            data = part(0)
            out = S.call(CORE + "reshape_output", data, shape)
            outs, ids, ins = [out], [0], [data]
        else:
            cnt = S.arr("count", lead + (n,), "I")
            data = (part(0), cnt, part(1), None if form == "some parts" else part(2)) + ((part(1),) if form == "five parts" else ())
            out = S.call(CORE + "reshape_output", data, shape)
            S.prove("as many parts", isinstance(out, tuple) and len(out) == len(data))
            S.prove("the count is passed on", out[1] is cnt or out[1].store == cnt.store)
            if form == "some parts":
                S.prove("absent part", out[3] is None)
            ids = [0, None, 1, 2, 1][:len(data)]
            outs, ins = out, data
        for j, o, d in zip(ids, outs, ins):
            if j is None or d is None:
                continue
            full = lead + dims + (n,)
            S.prove_shape("shape of the frames restored", o, full)
            i = S.index(full)
            place = i[len(lead):-1]
            S.prove_eq("every element back at its pixel", S.ex.read(o, i), want(S, j, fr, i, lead, axis % (fr_rank + 1), t, dt, place))
    return body


def masked(fr_rank, div, levels, form, given, dt="C"):
    def body(S):
        dims = tuple(S.dims(x, lo=1) for x in DIMS[:fr_rank])
        N = S.dims("N", lo=1)
        f = S.arr("f", (N,) + dims, "C")
        mask = S.arr("mask", dims, "B")
        mr = S.old(mask)
        fr, keep = S.old(f), S.ex.heap[f.store]
        kw = {"mask": mask}
        if div:
            cnt_, D, m = mask_info(S.ex, mask)[0], S.dims("D", lo=1), S.dims("m", lo=0)
            S.assume(eq(cnt_, mul(D, m)))
            kw["thread_divisor"] = D
        y, shape = S.call(CORE + "reshape_input", f, **kw)
        cnt, enum, rank, test = mask_info(S.ex, mask)
        if form == "array":
            S.assume(ge(cnt, I1))             # a bare array must have an element to tell its axes
        S.prove("one axis of selected pixels", len(shape) == 1)
        S.prove("number of selected pixels", eq(num(shape[0]), cnt))
        S.prove_shape("shape for threading", y, (N, D, m) if div else (N, cnt))
        S.prove("the frames are not modified", S.ex.heap[f.store] is keep)
        n, lead, part = processed(S, y, 0, 1, levels, N, dt)
        t = var("t")
        okw = {"mask": mask}
        if given:
            okw["shape"] = shape
        if form == "array":
            data = part(0)
            outs, ids = [S.call(CORE + "reshape_output", data, **okw)], [0]
        else:
            c = S.arr("count", lead + (n,), "I")
            data = (part(0), c, part(1), None)
            outs = S.call(CORE + "reshape_output", data, **okw)
            S.prove("the count is passed on", outs[1] is c or outs[1].store == c.store)
            S.prove("absent part", outs[3] is None)
            ids = [0, None, 1, None]
        for j, o in zip(ids, outs):
            if j is None:
                continue
            full = lead + dims + (n,)
            S.prove_shape("shape of the mask restored", o, full)
            i = S.index(full)
            place = i[len(lead):-1]
            n0 = len(S.ex.pc)
            S.assume(mr(place))
            S.prove_eq("selected pixels return to their position", S.ex.read(o, i), want(S, j, fr, i, lead, 0, t, dt, place))
            del S.ex.pc[n0:]
            S.assume(not_(mr(place)))
            v = cplx(S.ex.read(o, i)).re
            S.prove_eq("all others are NaN", v, NAN)
            del S.ex.pc[n0:]
    return body


def bad_divisor(fr_rank, kind):
    def body(S):
        dims = tuple(S.dims(x, lo=1) for x in DIMS[:fr_rank])
        N = S.dims("N", lo=1)
        f = S.arr("f", (N,) + dims, "C")
        if kind == "zero":
            D = 0
        else:
            D = S.dims("D", lo=1)
            q = fresh("q")
            S.assume(forall((q,), not_(eq(total(dims), mul(D, q)))))
        S.raises("incompatible divisor rejected", CORE + "reshape_input", f, thread_divisor=D, only="ValueError")
    return body


def bad_mask(fr_rank, axis):
    def body(S):
        dims = tuple(S.dims(x, lo=1) for x in DIMS[:fr_rank])
        N = S.dims("N", lo=1)
        sh = list(dims)
        sh.insert(axis % (fr_rank + 1), N)
        f = S.arr("f", tuple(sh), "C")
        S.raises("mask on another axis rejected", CORE + "reshape_input", f, axis=axis, mask=S.arr("mask", dims, "B"), only="ValueError")
    return body


def neither(S):
    x = S.arr("x", (S.dims("K", lo=1), S.dims("n", lo=1)), "F")
    S.raises("neither shape nor mask", CORE + "reshape_output", x, only="ValueError")


CASES = []
for r in (1, 2, 3):
    for axis in range(-1, r + 1):
        for div in (False, True):
            if div and not -3 <= axis <= 2:
                continue                      # the threaded data have three axes only
            for levels, form in ((False, "array"), (False, "some parts"), (False, "five parts"), (True, "some parts")):
                CASES.append(("reshape_input, reshape_output[frame rank %d axis %d%s%s %s]" % (
                    r, axis, " divisor" if div else "", " levels" if levels else "", form), split(r, axis, div, levels, form)))
    for div in (False, True):
        for levels, form in ((False, "array"), (False, "parts"), (True, "parts")):
            for given in (False, True):
                CASES.append(("masked[frame rank %d%s%s %s%s]" % (r, " divisor" if div else "", " levels" if levels else "", form,
                                                                " shape given" if given else ""), masked(r, div, levels, form, given)))
    for kind in ("zero", "not a divisor"):
        CASES.append(("rejects divisor[frame rank %d %s]" % (r, kind), bad_divisor(r, kind)))
    for axis in [a for a in range(-r - 1, r + 1) if a % (r + 1) != 0]:
        CASES.append(("rejects mask[frame rank %d axis %d]" % (r, axis), bad_mask(r, axis)))
CASES.append(("reshape_output needs shape or mask", neither))
EXTRA = []
