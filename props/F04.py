"""F04: selection averages exactly the pixels of the sector."""
from props.common import *
from props.F03 import MAP, Sectors, vector, freq
from fractions import Fraction
from pyvc.mathax import instances, terms
from pyvc.sym import Filtered, EXCLUDED, ELLIPSIS, SliceVal, CV

ELL, SL = ELLIPSIS, SliceVal(None, None, None)


class Kangle(object):
    """fft2_kangle by its contract (F03): the arguments recorded, two opaque maps of the full plane"""
    def __init__(self, S):
        self.calls = []
        S.ex.contracts[MAP + "fft2_kangle"] = self

    def __call__(self, ex, f, args, kw):
        got = dict(zip(("kisize", "kjsize", "shape"), args))
        got.update(kw)
        sh = (got["kisize"], got["kjsize"])
        for g, K, A in self.calls:
            if [num(g[x]) for x in ("kisize", "kjsize")] == [num(x) for x in sh] and g.get("shape") == got.get("shape"):
                return (K, A)          # the same maps again
        K = ex.alloc(sh, "F", Fn(sym_reader("kmap_%d" % len(self.calls), "F")))
        A = ex.alloc(sh, "F", Fn(sym_reader("anglemap_%d" % len(self.calls), "F")))
        self.calls.append((got, K, A))
        ex.used_contracts.add("%s.%s" % (f.module.name, f.name))
        return (K, A)


def plane(S, mode, frame, mk):
    """sizes of the data (n, m) and of the full plane, keywords"""
    n, m = S.dims("kisize", "kjsize", lo=1)
    k = {}
    rows, cols = n, m
    if frame:
        H, W = S.dims("H", "W", lo=1)
        k["shape"] = (H, W)
    if mode != "fft2":
        cols = sub(scale(m, 2), I1)
        if frame:
            cols = ite(eq(cols, add(W, I1)), W, cols)
            S.assume(le(cols, W))
            S.assume(le(n, H))
    if mode:
        k["mode"] = mode
    return n, m, rows, cols, k


def partner(p, rows, cols):
    """the pixel of the conjugate wave vector"""
    i, j = p
    return ite(eq(i, I0), I0, sub(rows, i)), ite(eq(j, I0), I0, sub(cols, j))


def select(mode, lead, mk, kk, frame=False):
    half = mode != "fft2"

    def body(S):
        n, m, rows, cols, kw = plane(S, mode, frame, mk)
        A, T = S.dims("A", "T", lo=0)
        ld = (A,) if lead else ()
        D = S.arr("data", ld + (n, m, T), "C" if half else "F")
        data, rd = D, S.old(D)
        if mk:
            M = kw["mask"] = S.arr("mask", (n, m), "B")
            rm = S.old(M)
            if mk == "masked":
                data = S.ex.getitem(D, (ELL, M, SL))
                if lead:
                    S.assume(not_(and_(eq(A, n), eq(num(data.shape[-2]), m))))
        kept = [S.ex.heap[x.store] for x in [data] + ([M] if mk else [])]
        ang, sec, st = var("angle", "R"), var("sector", "R"), var("kstep", "R")
        lim = const(180, "R")
        S.assume(and_(ge(ang, neg(lim)), le(ang, lim), gt(sec, R0), le(sec, lim), gt(st, R0)))
        kang, maps = Kangle(S), Sectors(S, False)
        if kk == "number":
            kv = var("k", "R")
            kw["k"] = kv
        elif kk == "integer":
            kv = var("k", "I")
            kw["k"] = kv
        elif kk == "list":
            kv = [var("k0", "R"), var("k1", "I")]
            kw["k"] = kv
        r = S.call(MAP + "k_select", data, ang, sec, st, **kw)
        S.prove("the data and the mask are not modified", [S.ex.heap[x.store] for x in [data] + ([M] if mk else [])] == kept)
        # labels and moduli of the full plane
        S.prove("one set of labels", len(kang.calls) == 1 and len(maps.calls) == 1)
        g, K, An = kang.calls[0]
        S.prove_eq("rows of the full plane", num(g["kisize"]), rows)
        S.prove_eq("columns of the full plane", num(g["kjsize"]), cols)
        sh = g.get("shape")
        S.prove("the shape of the frame", (sh is None) if not frame else isinstance(sh, tuple) and len(sh) == 2 and sh == kw["shape"])
        s, _, _, L, _ = maps.calls[0]
        S.prove("labelled by modulus and angle", s["kmap"].store == K.store and s["anglemap"].store == An.store)
        for nm, ref in (("angle", ang), ("sector", sec), ("kstep", st)):
            S.prove_eq("the requested %s" % nm, toreal(num(s[nm])) if nm in s else R1, ref)
        rK = sym_reader("kmap_0", "F")
        lab = sym_reader("sectormap_0", "I")
        half_w = add(floordiv(cols, const(2)), I1)

        def canonical(p):
            """the pixel of the data that stands for p, and whether it is p itself"""
            if not half:
                return p, TRUE
            q = partner(p, rows, cols)
            own = lt(p[1], half_w)
            return tuple(ite(own, a, b) for a, b in zip(p, q)), own

        def value(p, rest):
            q, own = canonical(p)
            v = rd(rest[:-1] + q + rest[-1:])
            if not half:
                return v
            return n_ite(own, v, CV(v.re, neg(v.im)))

        def total(x, f, number):
            p = (fresh("i"), fresh("j"))
            q, own = canonical(p)
            c = and_(rng(p[0], rows), rng(p[1], cols), eq(lab(p), number))
            if mk:
                c = and_(c, rm(q))
            v = f(p, q)
            if isinstance(v, CV):
                return CV(sum_(p, c, v.re), sum_(p, c, v.im))
            return sum_(p, c, v)

        def check(x, number):
            if x is None or x is EXCLUDED:
                p = S.index((rows, cols), "p")
                q, own = canonical(p)
                c = and_(eq(lab(p), number), rm(q)) if mk else eq(lab(p), number)
                enumerated(S, [p, q])
                S.prove("omitted only without pixels", not_(c))
                return
            S.prove("modulus and data", isinstance(x, tuple) and len(x) == 2)
            cnt = total(S, lambda p, q: R1, number)
            mean(S, "modulus", num(x[0]), total(S, lambda p, q: rK(q), number), cnt)
            S.prove_shape("one curve per leading index", x[1], ld + (T,))
            ix = S.index(ld + (T,), "x")
            mean(S, "data", S.ex.read(x[1], ix), total(S, lambda p, q: value(p, ix), number), cnt, num(x[0]))

        if kk is None:
            S.prove("one result per wave number", isinstance(r, Filtered))
            i = S.index((r.length,), "kk")[0]
            p = S.index((rows, cols), "p")
            S.prove("every label is visited", and_(lt(lab(p), r.length)))
            check(r.elem(i), i)
        elif kk == "list":
            each = [S.call(MAP + "k_select", data, ang, sec, st, **dict(kw, k=v)) for v in kv]
            S.prove("the same labels again", len(kang.calls) == 1 and len(maps.calls) == 1)
            want = [x for x in each if x is not None]
            S.prove("the wave numbers that have pixels", isinstance(r, tuple) and len(r) == len(want))
            for x, y in zip(r, want):
                S.prove_eq("the mean modulus of that number", x[0], y[0])
                S.prove_shape("the data of that number", x[1], y[1].shape)
                ix = S.index(y[1].shape, "x")
                S.prove_eq("the mean data of that number", S.ex.read(x[1], ix), S.ex.read(y[1], ix))
        else:
            check(r, nearest(S, kv))
    return body


def dens(v):
    return list(dict.fromkeys(x.args[1] for y in ([v.re, v.im] if isinstance(v, CV) else [v]) for x in terms([y], ("inv",))))


def mean(S, name, got, total, cnt, first=None):
    """got is total / cnt, and cnt is not zero"""
    d = dens(got)
    if len(d) == 1:
        S.prove_eq("number of pixels (%s)" % name, d[0], cnt)
        if first is not None and len(dens(first)) == 1 and dens(first)[0] is not d[0]:
            # equal to the number of moduli, which the path knows not to be zero
            S.prove_eq("as many data as moduli", d[0], dens(first)[0])
            S.assume(eq(d[0], dens(first)[0]))
        S.prove("divided by their number (%s)" % name, not_(eq(d[0], R0)))
        cnt = d[0]
    S.prove_eq("mean %s" % name, n_mul(got, cnt), total)


def enumerated(S, points):
    """the elements at these points have a rank in the enumerations of the masks"""
    for key, (cnt, enum, rank, cond) in list(S.ex.masks.items()):
        shape = key[2]
        if len(shape) == 2:
            for p in points:
                S.assume(implies(and_(*[rng(a, b) for a, b in zip(p, shape)], cond(p)), rng(rank(p), cnt)))
                for key1, (cnt1, enum1, rank1, cond1) in list(S.ex.masks.items()):
                    if len(key1[2]) == 1:
                        t = rank(p)
                        S.assume(implies(and_(rng(t, key1[2][0]), cond1((t,))), rng(rank1((t,)), cnt1)))


def nearest(S, v):
    v = num(v)
    if v.sort == "I":
        return v
    r = num(S.ex.call(S.ex.builtins["round"], (v,), {}))
    n = fresh("nearest")
    S.assume(and_(lt(sub(toreal(n), v), const(Fraction(1, 2), "R")), lt(sub(v, toreal(n)), const(Fraction(1, 2), "R"))))
    for x in instances([r]):
        S.assume(x)
    S.prove_eq("the nearest integer", r, n)
    return r


def lemma(S):
    """conjugate wave vectors have the same modulus (for the maps proved in F03)"""
    rows, cols = S.dims("rows", "cols", lo=1)
    si, sj = var("si", "R"), var("sj", "R")
    p = S.index((rows, cols), "p")
    y, x = vector(False, rows, cols, si, sj, p)
    v, u = vector(False, rows, cols, si, sj, partner(p, rows, cols))
    S.prove("opposite or equal steps (rows)", or_(eq(y, v), eq(y, neg(v))))
    S.prove("opposite or equal steps (columns)", or_(eq(x, u), eq(x, neg(u))))


def place(axes, lead, i, j):
    """index of pixel (i, j)"""
    return (i, j) + lead if axes == (0, 1) else lead + (i, j)


def halves(fn, rank, dtype, axes=None):
    """the half-plane parts of full-plane data"""
    def body(S):
        H, W = S.dims("H", "W", lo=1)
        ld = tuple(S.dims(*("A", "B")[:rank - 2], lo=0)) if rank > 3 else ((S.dims("A", lo=0),) if rank == 3 else ())
        a = S.arr("a", place(axes, ld, H, W), dtype)
        rd = S.old(a)
        kept = S.ex.heap[a.store]
        w = add(floordiv(W, const(2)), I1)
        r = S.call(MAP + fn, a, **({"axes": axes} if axes else {}))
        S.prove("the data are not modified", S.ex.heap[a.store] is kept)
        S.prove_shape("half plane", r, place(axes, ld, H, w))
        x = S.index(ld + (H, w), "x")
        l, p = x[:-2], x[-2:]
        v = S.ex.read(r, place(axes, l, *p))
        q = partner(p, H, W)
        own, conj = rd(place(axes, l, *p)), rd(place(axes, l, *q))
        first = eq(p[1], I0)
        if fn == "as_rfft2_data":
            S.prove_eq("the computed half", v, own)
        elif fn == "as_rfft2_conj":
            if dtype == "B":
                S.prove("no partner in the first column", implies(first, not_(v)))
            S.assume(not_(first))
            if dtype == "B":
                S.prove("the other half", and_(implies(v, conj), implies(conj, v)))
            else:
                S.prove_eq("the other half", v, conj)
        else:
            both = or_(own, and_(conj, not_(first)))
            S.prove("either half", and_(implies(v, both), implies(both, v)))
    return body


def whole_plane(rank, dtype, frame, axes=None):
    """full-plane data from half-plane data"""
    def body(S):
        n, m = S.dims("kisize", "kjsize", lo=1)
        ld = (S.dims("A", lo=0),) if rank == 3 else ()
        k = {"axes": axes} if axes else {}
        cols = sub(scale(m, 2), I1)
        if frame:
            H, W = S.dims("H", "W", lo=1)
            k["shape"] = (H, W)
            cols = ite(eq(cols, add(W, I1)), W, cols)
            S.assume(le(cols, W))
            S.assume(le(n, H))
        a = S.arr("a", place(axes, ld, n, m), dtype)
        rd = S.old(a)
        if frame:
            # the Nyquist column of the transform of real data is its own partner
            x = tuple(fresh("l") for _ in ld) + (fresh("i"),)
            i = x[-1]
            u, v = rd(place(axes, x[:-1], i, sub(m, I1))), rd(place(axes, x[:-1], ite(eq(i, I0), I0, sub(n, i)), sub(m, I1)))
            same = and_(eq(u.re, v.re), eq(u.im, neg(v.im))) if dtype == "C" else eq(u, v)
            S.ex.add_axiom(forall(x, implies(and_(eq(cols, sub(scale(m, 2), const(2))), rng(i, n)), same)))
        r = S.call(MAP + "from_rfft2_data", a, **k)
        S.prove_shape("full plane", r, place(axes, ld, n, cols))
        x = S.index(ld + (n, cols), "x")
        l, p = x[:-2], x[-2:]
        v = S.ex.read(r, place(axes, l, *p))
        q = partner(p, n, cols)
        own = lt(p[1], m)
        if S.ex.branch(own):
            if S.ex.branch(eq(scale(p[1], 2), cols)):
                # instance of the symmetry at this row
                j = sub(m, I1)
                u, w = rd(place(axes, l, p[0], j)), rd(place(axes, l, q[0], j))
                S.assume(and_(eq(u.re, w.re), eq(u.im, neg(w.im))) if dtype == "C" else eq(u, w))
            S.prove_eq("the computed half", v, rd(place(axes, l, *p)))
        else:
            w = rd(place(axes, l, *q))
            S.prove_eq("the conjugate of the partner", v, n_conj(w) if dtype == "C" else w)
    return body


CASES = []
for mode in ("fft2", None, "rfft2"):
    for lead in (False, True):
        for mk in (None, "full", "masked"):
            for kk in (None, "number", "integer", "list"):
                for frame in (False, True):
                    if mode == "rfft2" and (lead or frame or kk in (None, "list")):
                        continue
                    if frame and (lead or kk in ("integer", "list")) or lead and kk == "integer":
                        continue
                    if kk == "list" and (lead or mk and mode is None or mk == "masked"):
                        continue
                    CASES.append(("%s%s mask=%s k=%s%s" % (mode or "default", " lead" if lead else "", mk, kk, " shape" if frame else ""),
                                  select(mode, lead, mk, kk, frame)))
CASES.append(("moduli of partners", lemma))
for rank, axes in ((2, None), (3, None), (3, (0, 1)), (4, (-2, -1))):
    for fn, dts in (("as_rfft2_data", "CB"), ("as_rfft2_conj", "CFB"), ("as_rfft2_mask", "B")):
        for dt in dts:
            CASES.append(("%s rank %d %s %s" % (fn, rank, axes, dt), halves(fn, rank, dt, axes)))
for rank, axes in ((2, None), (3, None), (3, (0, 1))):
    for dt in "CF":
        for frame in (False, True):
            CASES.append(("from_rfft2_data rank %d %s %s%s" % (rank, axes, dt, " shape" if frame else ""), whole_plane(rank, dt, frame, axes)))
EXTRA = []
