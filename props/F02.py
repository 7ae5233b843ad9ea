"""F02: half-plane and full-plane transform data convert without loss."""
from props.common import *
from pyvc.loops import comps

MAP = "cddm.map."


def neg_mod(p, n):
    """index of the opposite wave number"""
    return ite(eq(p, I0), I0, sub(n, p))


def half(n):
    return floordiv(n, const(2))


def data(S, rank, axes, h, w, dt):
    """an array with the two axes of the given lengths"""
    ax1, ax2 = sorted(a % rank for a in axes)
    names = iter(("K", "L"))
    sh = [None] * rank
    sh[ax1], sh[ax2] = h, w
    for k in range(rank):
        if sh[k] is None:
            sh[k] = S.dims(next(names), lo=0)
    return S.arr("a", tuple(sh), dt), ax1, ax2


def at(i, ax1, ax2, p, q):
    i = list(i)
    i[ax1], i[ax2] = p, q
    return tuple(i)


def conj(v, dt):
    return n_conj(v) if dt == "C" else v


def mode_args(S, H, W, given):
    return {} if given is None else {"shape": (H, W)}


def expand(rank, axes, dt, parity, given):
    """half-plane data of a frame with W = 2*(w-1) (even) or 2*w-1 (odd); without a shape the width is odd"""
    def body(S):
        H, w = S.dims("h", lo=1), S.dims("w", lo=1)
        if parity == "even":
            S.assume(ge(w, const(2)))
        W = sub(scale(w, 2), const(2 if parity == "even" else 1))
        a, ax1, ax2 = data(S, rank, axes, H, w, dt)
        rd, keep = S.old(a), S.ex.heap[a.store]
        kw = {"axes": axes} if axes != (-2, -1) else {}
        if given == "shape":
            kw["shape"] = (H, W)
        if given == "larger":                      # cropped: the frame is larger than the data
            H2, W2 = S.dims("H", "W", lo=1)
            S.assume(and_(ge(H2, H), ge(W2, W)))
            kw["shape"] = (H2, W2)
        if parity == "even":
            # the last column of a real image's transform is its own conjugate partner
            ps = tuple(fresh("p") for _ in a.shape)
            x, y = rd(at(ps, ax1, ax2, ps[ax1], sub(w, I1))), conj(rd(at(ps, ax1, ax2, neg_mod(ps[ax1], H), sub(w, I1))), dt)
            for u, v in zip(comps(x), comps(y)):
                S.ex.axioms.append(forall(ps, implies(rng(ps[ax1], H), eq(u, v))))
        r = S.call(MAP + "from_rfft2_data", a, **kw)
        sh = list(a.shape)
        sh[ax2] = W
        S.prove_shape("full-plane shape", r, tuple(sh))
        S.prove("type", r.dtype == dt)
        i = S.index(tuple(sh))
        p, q = i[ax1], i[ax2]
        got = S.ex.read(r, i)
        known = rd(i)
        other = conj(rd(at(i, ax1, ax2, neg_mod(p, H), sub(W, q))), dt)
        S.prove_eq("value at k or the conjugate of the value at -k", got, n_ite(lt(q, w), known, other))
        S.prove("the data are not modified", S.ex.heap[a.store] is keep)
        S.prove("a new array", r.store != a.store)
    return body


def whole_plane(axes, rank, parity):
    """data with the symmetry of a real image's transform: the full transform is reproduced"""
    def body(S):
        H, w = S.dims("h", lo=1), S.dims("w", lo=1)
        if parity == "even":
            S.assume(ge(w, const(2)))
        W = sub(scale(w, 2), const(2 if parity == "even" else 1))
        F, ax1, ax2 = data(S, rank, axes, H, W, "C")
        Fr = S.old(F)
        ps = tuple(fresh("p") for _ in F.shape)
        inr = and_(*[rng(p, num(n)) for p, n in zip(ps, F.shape)])
        opp = Fr(at(ps, ax1, ax2, neg_mod(ps[ax1], H), neg_mod(ps[ax2], W)))
        for x, y in zip(comps(cplx(Fr(ps))), comps(cplx(n_conj(opp)))):
            S.ex.axioms.append(forall(ps, implies(inr, eq(x, y))))
        a = S.call(MAP + "as_rfft2_data", F, **({"axes": axes} if axes != (-2, -1) else {}))
        sh = list(F.shape)
        sh[ax2] = w
        S.prove_shape("half plane", a, tuple(sh))
        kw = {"axes": axes} if axes != (-2, -1) else {}
        kw["shape"] = (H, W)
        r = S.call(MAP + "from_rfft2_data", a, **kw)
        S.prove_shape("full plane again", r, F.shape)
        i = S.index(F.shape)
        S.prove_eq("the full transform again", S.ex.read(r, i), Fr(i))
    return body


def halves(fn, rank, axes, dt, parity):
    def body(S):
        H, w = S.dims("h", lo=1), S.dims("w", lo=1)
        if parity == "even":
            S.assume(ge(w, const(2)))
        W = sub(scale(w, 2), const(2 if parity == "even" else 1))
        a, ax1, ax2 = data(S, rank, axes, H, W, dt)
        rd, keep = S.old(a), S.ex.heap[a.store]
        kw = {"axes": axes} if axes != (-2, -1) else {}
        r = S.call(MAP + fn, a, **kw)
        sh = list(a.shape)
        sh[ax2] = w
        S.prove_shape("half-plane shape", r, tuple(sh))
        S.prove("type", r.dtype == dt)
        i = S.index(tuple(sh))
        p, q = i[ax1], i[ax2]
        got = S.ex.read(r, i)
        S.prove("the data are not modified", S.ex.heap[a.store] is keep)
        if fn == "as_rfft2_data":
            S.prove_eq("value at k", got, rd(i))
        else:
            S.assume(ge(q, I1))
            S.prove_eq("value at -k", got, rd(at(i, ax1, ax2, neg_mod(p, H), sub(W, q))))
    return body


def mask(axes, rank, parity):
    def body(S):
        H, w = S.dims("h", lo=1), S.dims("w", lo=1)
        if parity == "even":
            S.assume(ge(w, const(2)))
        W = sub(scale(w, 2), const(2 if parity == "even" else 1))
        a, ax1, ax2 = data(S, rank, axes, H, W, "B")
        rd = S.old(a)
        r = S.call(MAP + "as_rfft2_mask", a, **({"axes": axes} if axes != (-2, -1) else {}))
        sh = list(a.shape)
        sh[ax2] = w
        S.prove_shape("half-plane shape", r, tuple(sh))
        i = S.index(tuple(sh))
        p, q = i[ax1], i[ax2]
        opp = rd(at(i, ax1, ax2, neg_mod(p, H), sub(W, q)))
        want = ite(eq(q, I0), rd(i), or_(rd(i), opp))
        S.prove("selected when k or -k is", iff(num(S.ex.read(r, i)), want))
    return body


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def reject(which):
    def body(S):
        H, w = S.dims("h", lo=1), S.dims("w", lo=1)
        a = S.arr("a", (H, w), "C")
        H2, W2 = S.dims("H", "W", lo=1)
        if which == "height":
            S.assume(lt(H2, H))
        else:
            S.assume(lt(add(W2, I1), sub(scale(w, 2), I1)))
        S.raises("data larger than the frame are rejected", MAP + "from_rfft2_data", a, shape=(H2, W2), only="ValueError")
    return body


AXES = [(2, (-2, -1)), (2, (0, 1)), (2, (1, 0)), (3, (-2, -1)), (3, (0, 1)), (3, (0, 2)), (3, (2, 0)), (3, (-3, -1)),
        (3, (-1, -3)), (3, (0, -1)), (3, (-1, 1)), (4, (-3, 3)), (4, (1, 2)), (4, (-3, -2)), (4, (0, 3))]
CASES = []
for rank, axes in AXES:
    tag = "rank %d axes %s" % (rank, axes)
    for dt in "CFIB":
        for parity in ("odd", "even"):
            for given in (None, "shape", "larger"):
                if given != "shape" and parity == "even":
                    continue
                CASES.append(("from_rfft2_data[%s %s %s shape %s]" % (tag, dt, parity, given), expand(rank, axes, dt, parity, given)))
            for fn in ("as_rfft2_data", "as_rfft2_conj"):
                CASES.append(("%s[%s %s %s]" % (fn, tag, dt, parity), halves(fn, rank, axes, dt, parity)))
    for parity in ("odd", "even"):
        CASES.append(("full transform[%s %s]" % (tag, parity), whole_plane(axes, rank, parity)))
        CASES.append(("as_rfft2_mask[%s %s]" % (tag, parity), mask(axes, rank, parity)))
for which in ("height", "width"):
    CASES.append(("from_rfft2_data rejects[%s]" % which, reject(which)))
EXTRA = []
