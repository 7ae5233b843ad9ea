"""C11: weighted normalization uses the variance-minimising weight."""
from props.norms import *
from pyvc.sym import Unsupported


def squared(S, e):
    """the radicand of a result that is a square root"""
    e = num(e)
    if e.op == "app" and e.args[0] == "sqrt":
        return e.args[1]
    raise Unsupported("not a square root: %s" % show(e)[:200])


def err_g(w, g, d):
    """documented error (squared) of the combination, without backgrounds"""
    g = cplx(g)
    c2 = absq(g)
    g2 = mul(g.re, g.re)
    d2 = mul(d, d)
    one = const(1, "R")
    q = add(add(c2, one), d2)
    r = sub(mul(mul(w, w), q), scale(mul(w, g.re), 4))
    r = add(add(add(r, scale(g2, 2)), scale(c2, -1)), sub(one, d2))
    return mul(HALF, r)


def err_p(w, g, d, b1, b2):
    g, b1, b2 = cplx(g), cplx(b1), cplx(b2)
    s1, s2, x = absq(b1), absq(b2), cmul(b1, b2)
    # conj(b1) b2 = r - i*s with r = Re, s = Im(b1 conj(b2))
    r, i = x.re, neg(x.im)
    a = add(add(s1, s2), mul(sub(s2, s1), d))
    b = add(scale(mul(r, g.re), 2), scale(mul(i, g.im), 2))
    e = err_g(w, g, d)
    t = sub(mul(mul(w, w), add(a, b)), scale(mul(w, add(r, mul(HALF, mul(add(s1, s2), g.re)))), 4))
    t = add(t, sub(add(s1, s2), mul(sub(s2, s1), d)))
    t = add(t, sub(scale(mul(r, g.re), 2), scale(mul(i, g.im), 2)))
    return add(e, mul(HALF, t))


def curvature(g, d, b1=None, b2=None):
    """half the second derivative of twice the squared error"""
    g = cplx(g)
    q = add(add(absq(g), const(1, "R")), mul(d, d))
    if b1 is not None:
        b1, b2 = cplx(b1), cplx(b2)
        s1, s2, x = absq(b1), absq(b2), cmul(b1, b2)
        q = add(q, add(add(s1, s2), mul(sub(s2, s1), d)))
        q = add(q, add(scale(mul(x.re, g.re), 2), scale(mul(neg(x.im), g.im), 2)))
    return q


def R(nm):
    return var(nm, "R")


def C(nm):
    return CV(R(nm + ".re"), R(nm + ".im"))


def optimum(form, cplx_):
    """for every other weight u:  error(u) - error(w) = curvature/2 * (u - w)^2 >= 0"""
    def body(S):
        g = C("g") if cplx_ else R("g")
        d, u = R("delta"), R("u")
        bs = [C("b1"), C("b2")] if form[0] == "p" else []
        fn = {"g": "weight_from_g", "d": "weight_from_d", "pg": "weight_prime_from_g", "pd": "weight_prime_from_d"}[form]
        x = g if form[-1] == "g" else n_mul(const(2), n_sub(const(1), g))       # difference value of the correlation value g
        q = curvature(g, d, *bs)
        if bs:
            S.assume(lt(R0, q))
        else:
            # without backgrounds the error is always convex
            S.prove("error is convex in the weight", lt(R0, q))
        w = S.call(NB + fn, x, d, *bs)
        err = err_p if bs else err_g
        ws = [("", cplx(w).re, g)]
        if cplx_ and not bs:
            ws.append((" (imaginary part)", cplx(w).im, n_mul(CV(R0, const(-1, "R")), g)))
        elif not cplx_:
            S.prove_eq("real weight", cplx(w).im, R0)
        for tag, v, gg in ws:
            v = toreal(num(v))
            S.prove_eq("the weight minimises the error" + tag, sub(err(u, gg, d, *bs), err(v, gg, d, *bs)), mul(mul(HALF, q), mul(sub(u, v), sub(u, v))))
            s = S.call(NB + ("sigma_prime_weighted" if bs else "sigma_weighted"), v, cplx(gg), d, *bs)
            S.prove_eq("the error function reports the minimum" + tag, squared(S, s), err(v, gg, d, *bs))
    return body


def error_function(prime, cplx_):
    def body(S):
        w, d = R("w"), R("delta")
        g = C("g") if cplx_ else R("g")
        bs = [C("b1"), C("b2")] if prime else []
        s = S.call(NB + ("sigma_prime_weighted" if prime else "sigma_weighted"), w, g, d, *bs)
        S.prove_eq("documented error", squared(S, s), (err_p if prime else err_g)(w, g, d, *bs))
    return body


def combination(dt):
    def body(S):
        K, n = S.dims("K", "n", lo=0)
        a, b, w = (S.arr(nm, (K, n), dt) for nm in "abw")
        o = S.arr("o", (K, n), dt)
        ra, rb, rw = map(S.old, (a, b, w))
        for out in (None, o):
            r = S.call(NB + "weighted_sum", a, b, w, **({} if out is None else {"out": out}))
            S.prove_shape("shape", r, (K, n))
            i = S.index((K, n))
            S.prove_eq("weights sum to one", S.ex.read(r, i), mix(rw(i), ra(i), rb(i)))
            if out is not None:
                S.prove("written to the given array", r.store == o.store)
    return body


def mix(w, a, b):
    """w*a + (1-w)*b, part by part"""
    if isinstance(w, CV) or isinstance(a, CV):
        w, a, b = cplx(w), cplx(a), cplx(b)
        return CV(mix(w.re, a.re, b.re), mix(w.im, a.im, b.im))
    return add(mul(w, a), mul(sub(const(1, "R"), w), b))


def best(g, d):
    """the minimising weight at g"""
    q = curvature(g, d)
    return n_mul(const(2), div_(g, q))


def div_(a, q):
    return CV(rdiv(a.re, q), rdiv(a.im, q)) if isinstance(a, CV) else rdiv(a, q)


def from_data(mode, dt, filtered, bg=False):
    """weight_from_data: the minimising weight at the (filtered) data divided by the scale"""
    def body(S):
        K, n = S.dims("K", lo=1), S.dims("n", lo=3)
        x = S.arr("x", (K, n), dt)
        d, s = S.arr("delta", (K,), "F"), S.arr("scale", (K,), "F")
        bs = [S.arr("b1", (K,), "C"), S.arr("b2", (K,), "C")] if bg else []
        rx, rd, rs = map(S.old, (x, d, s))
        keep = S.ex.heap[x.store]
        h = Denoise(S)
        if bg:
            w = S.call(NORM + "weight_prime_from_data", x, bs[0], bs[1], delta=d, scale_factor=s, mode=mode, pre_filter=False)
        else:
            w = S.call(NORM + "weight_from_data", x, delta=d, scale_factor=s, mode=mode, pre_filter=filtered)
        S.prove("filtered once" if filtered else "not filtered", len(h.calls) == (1 if filtered else 0))
        S.prove_shape("shape", w, (K, n))
        i = S.index((K, n))
        S.assume(lt(R0, rs(i[:1])))
        v = rx(i)
        if filtered:
            S.prove_eq("the data are filtered", h.calls[0][3](i), rx(i))
            v = h.calls[0][4](i)
        g = div_(v, rs(i[:1]))
        if mode == "diff":
            g = n_sub(const(1), n_mul(HALF, g))
        if bg:
            b = [S.ex.read(y, i[:1]) for y in bs]
            q = curvature(g, rd(i[:1]), *b)
            S.assume(lt(R0, q))
            e = lambda w: err_p(w, g, rd(i[:1]), *b)
            u, w_ = R("u"), toreal(num(S.ex.read(w, i)))
            S.prove_eq("minimising weight", sub(e(u), e(w_)), mul(mul(HALF, q), mul(sub(u, w_), sub(u, w_))))
        else:
            S.prove_eq("minimising weight", S.ex.read(w, i), best(g, rd(i[:1])))
        S.prove("data are not modified", S.ex.heap[x.store] is keep)
    return body


def weighted(norm, layout, cplx_, auto, mask, var_, given, out):
    def body(S):
        D = Result(S, "corr", layout, cplx_, auto, mask=mask, var=var_, nlo=3)
        h = Denoise(S)
        kw = dict(background=D.background, variance=D.variance, mask=D.mask, norm=norm)
        w0 = None
        if given:
            w0 = kw["weight"] = S.arr("weight", D.out_shape(), "C" if cplx_ else "F")
        o = None
        if out:
            o = kw["out"] = S.arr("out", D.out_shape(), D.dt)
        if out == "plain":
            r = S.call(NORM + "normalize", D.data, **kw)
            w = None
        else:
            r, w = S.call(NORM + "normalize", D.data, ret_weight=True, **kw)
            S.prove_shape("weight:shape", w, D.out_shape())
        if o is not None:
            S.prove("result is written to the given array", r.store == o.store)
        if given:
            S.prove("nothing is filtered", not h.calls)
        at = D.view()
        S.prove_shape("combination:shape", r, D.out_shape())
        idx = S.index(D.out_shape())
        v = at(idx)
        S.assume(and_(ge(v["c"], I1), lt(R0, variance_of(v))))
        structured, standard = expected("corr", norm & 12 | 2, v, D.dt), expected("corr", norm & 12 | 1, v, D.dt)
        V = variance_of(v)
        delta = rdiv(sub(v["v2"], v["v1"]), add(v["v1"], v["v2"]))
        cur = None
        if given:
            cur = S.ex.read(w0, idx)
        else:
            S.prove("the data are filtered", len(h.calls) > 0)
            for k, (q, sh, dt, old, new, _) in enumerate(h.calls):
                S.prove_eq("estimate before filtering", old(idx), standard if k == 0 else mix(cur, structured, standard))
                cur = best(div_(new(idx), V), delta)
        if w is not None:
            S.prove_eq("minimising weight at the filtered estimate", S.ex.read(w, idx), cur)
        S.prove_eq("weighted combination", S.ex.read(r, idx), mix(cur, structured, standard))
        D.unchanged()
    return body


def tools(mask):
    def body(S):
        K = S.dims("K", lo=0)
        S.assume(not_(eq(K, const(2))))
        v1, v2 = S.arr("v1", (K,), "F"), S.arr("v2", (K,), "F")
        m = S.arr("m", (K,), "B") if mask else None
        pick = (lambda a: S.ex.reader(S.ex.getitem(a, m))) if mask else S.ex.reader
        r1, r2 = pick(v1), pick(v2)
        from pyvc.npmodel import mask_info
        sh = (mask_info(S.ex, m)[0],) if mask else (K,)
        for pair in (True, False):
            arg = (v1, v2) if pair else v1
            y2 = r2 if pair else r1
            s = S.call(NORM + "scale_factor", arg, m)
            d = S.call(NORM + "noise_delta", arg, m)
            S.prove_shape("shape", s, sh)
            S.prove_shape("shape", d, sh)
            n0 = len(S.ex.pc)
            i = S.index(sh)
            S.assume(lt(R0, add(r1(i), y2(i))))
            S.prove_eq("mean variance", S.ex.read(s, i), mul(HALF, add(r1(i), y2(i))))
            S.prove_eq("relative noise asymmetry", S.ex.read(d, i), rdiv(sub(y2(i), r1(i)), add(r1(i), y2(i))))
            del S.ex.pc[n0:]
    return body


CASES = []
for form in ("g", "d", "pg", "pd"):
    for cplx_ in (False, True):
        CASES.append(("optimal weight[%s %s]" % ({"g": "from correlation", "d": "from difference", "pg": "with backgrounds", "pd": "with backgrounds from difference"}[form],
                                                 "complex" if cplx_ else "real"), optimum(form, cplx_)))
for p in (False, True):
    for cplx_ in (False, True):
        CASES.append(("error function[%s%s]" % ("complex" if cplx_ else "real", " with backgrounds" if p else ""), error_function(p, cplx_)))
for dt in "FC":
    CASES.append(("weighted_sum[%s]" % dt, combination(dt)))
    for mode in ("corr", "diff"):
        for f in (False, True):
            CASES.append(("weight_from_data[%s %s%s]" % (mode, dt, " filtered" if f else ""), from_data(mode, dt, f)))
        CASES.append(("weight_prime_from_data[%s %s]" % (mode, dt), from_data(mode, dt, False, True)))
for m in (False, True):
    CASES.append(("noise asymmetry and scale[%s]" % ("mask" if m else "all"), tools(m)))
for norm in (3, 7, 11, 15):
    for cplx_ in (False, True):
        for layout, mask, v in (("k", False, "pair"), ("kl", True, "pair"), ("multi", False, "single"), ("flat", False, "pair"), ("kl", False, "pair"), ("multi", True, "pair")):
            for given in (False, True):
                for out in ("", "plain", "out"):
                    if out == "plain" and layout != "k":
                        continue
                    if out == "out" and layout not in ("k", "multi"):
                        continue
                    CASES.append(("weighted[norm=%d %s %s%s variance %s%s%s]" % (norm, layout, "complex" if cplx_ else "real", " mask" if mask else "", v,
                                                                              " given weight" if given else "", " " + out if out else ""),
                                  weighted(norm, layout, cplx_, norm == 7 and layout == "kl" and not mask, mask, v, given, out)))
EXTRA = []
