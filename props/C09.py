"""C09: correlation and difference representations and scaling are interchangeable."""
from props.norms import *


def plain(kind, norm, layout, cplx_, auto, mask, var, mode, scale, form=""):
    def body(S):
        R = Result(S, kind, layout, cplx_, auto, mask=mask, var=var)
        Denoise(S)
        kw = dict(background=R.background, variance=R.variance, mask=R.mask, norm=norm, mode=mode, scale=scale)
        if form == "out":
            kw["out"] = S.arr("out", R.out_shape(), R.dt)
        r = S.call(NORM + "normalize", R.data, **kw)
        at = R.view()
        S.prove_shape("representation:shape", r, R.out_shape())
        idx = S.index(R.out_shape())
        v = at(idx)
        S.assume(and_(ge(v["c"], I1), lt(R0, variance_of(v))))
        S.prove_eq("representation", S.ex.read(r, idx), convert(kind, mode, scale, variance_of(v), expected(kind, norm, v, R.dt)))
        if form == "out":
            S.prove("result is written to the given array", r.store == kw["out"].store)
        R.unchanged()
    return body


def weighted(norm, layout, cplx_, auto, mask, var, mode, scale):
    def body(S):
        R = Result(S, "corr", layout, cplx_, auto, mask=mask, var=var, nlo=3)
        first = Denoise(S)
        kw = dict(background=R.background, variance=R.variance, mask=R.mask, norm=norm, ret_weight=True)
        r1, w1 = S.call(NORM + "normalize", R.data, mode="corr", scale=False, **kw)
        at = R.view()
        V = lambda i: variance_of(at(i))
        s = (lambda i: V(i)) if scale else (lambda i: const(1, "R"))
        if mode == "diff":
            a, b = (lambda i: rdiv(const(-2, "R"), s(i))), (lambda i: rdiv(scale2(V(i)), s(i)))
        else:
            a, b = (lambda i: rdiv(const(1, "R"), s(i))), (lambda i: R0)
        h = DenoiseSame(S, first, a, b)
        h.assume = lambda i: S.assume(and_(ge(at(i)["c"], I1), lt(R0, V(i))))
        r2, w2 = S.call(NORM + "normalize", R.data, mode=mode, scale=scale, **kw)
        S.prove("as many filter passes", len(h.calls) == len(first.calls))
        S.prove_shape("representation:shape", r2, R.out_shape())
        S.prove_shape("weight:shape", w2, R.out_shape())
        idx = S.index(R.out_shape())
        v = at(idx)
        S.assume(and_(ge(v["c"], I1), lt(R0, variance_of(v))))
        S.prove_eq("same weight", S.ex.read(w2, idx), S.ex.read(w1, idx))
        S.prove_eq("representation", S.ex.read(r2, idx), convert("corr", mode, scale, variance_of(v), S.ex.read(r1, idx)))
        R.unchanged()
    return body


def same_data(norm, auto):
    """structured values of difference data and of correlation data of the same frames"""
    def body(S):
        c = S.dims("c", lo=1)
        f1 = lambda p: CV(app("f1.re", (p,), "R"), app("f1.im", (p,), "R"))
        f2 = lambda p: CV(app("f2.re", (p,), "R"), app("f2.im", (p,), "R"))
        bb = lambda nm: CV(var(nm + ".re", "R"), var(nm + ".im", "R"))

        def tot(g):
            p = fresh("p")
            return S_((p,), rng(p, c), g(f1(p), f2(p)))
        b1 = bb("b1")
        v = {"c": c, "b1": b1, "b2": b1 if auto else bb("b2"), "v1": var("v1", "R"), "v2": var("v2", "R")}
        v["sq"] = tot(lambda x, y: n_add(absq(x), absq(y)))
        v["m1"] = tot(lambda x, y: x)
        v["m2"] = tot(lambda x, y: y)
        d = dict(v, corr=tot(lambda x, y: absq(n_sub(y, x))))
        v["corr"] = tot(lambda x, y: cmul(x, y).re)
        S.prove_eq("the two kinds of data agree", convert("corr", "diff", False, variance_of(v), expected("corr", norm, v, "F")), expected("diff", norm, d, "F"))
    return body


def affine(dt, func):
    """filtering a*x + b with a, b fixed along the last axis gives a*filtered + b"""
    def body(S):
        K, n = S.dims("K", lo=0), S.dims("n", lo=3)
        x = S.arr("x", (K, n), dt)
        a = sym_reader("a", "F")
        b = sym_reader("b", dt)
        old = S.old(x)
        y = S.ex.alloc((K, n), dt, Fn(lambda i: n_add(n_mul(a((i[0],)), old(i)), b((i[0],)))))
        r1, r2 = S.call(func, x), S.call(func, y)
        S.prove_shape("shape", r2, (K, n))
        i = S.index((K, n))
        S.prove_eq("filters are affine", S.ex.read(r2, i), n_add(n_mul(a((i[0],)), S.ex.read(r1, i)), b((i[0],))))
    return body


FILTERS = ("cddm._core_nb.median", "cddm._core_nb.convolve")


def denoise_is(dt):
    """denoise combines the filters, so it is affine as they are"""
    def body(S):
        K, n = S.dims("K", lo=0), S.dims("n", lo=3)
        x = S.arr("x", (K, n), dt)
        ra, rb = sym_reader("a", "F"), sym_reader("b", dt)
        a, b = (lambda i: ra((i[0],))), (lambda i: rb((i[0],)))
        old = S.old(x)
        y = S.ex.alloc((K, n), dt, Fn(lambda i: n_add(n_mul(a(i), old(i)), b(i))))
        keep = S.ex.heap[x.store]
        h1 = Denoise(S, FILTERS)
        r1 = S.call("cddm.avg.denoise", x)
        h2 = DenoiseSame(S, h1, a, b, FILTERS)
        r2 = S.call("cddm.avg.denoise", y)
        S.prove("as many passes", len(h1.calls) == len(h2.calls))
        S.prove_shape("shape", r1, (K, n))
        S.prove_shape("shape", r2, (K, n))
        i = S.index((K, n))
        S.prove_eq("denoise is affine", S.ex.read(r2, i), n_add(n_mul(a(i), S.ex.read(r1, i)), b(i)))
        S.prove("input is not modified", S.ex.heap[x.store] is keep)
    return body


CASES = []


def add_plain(*a):
    nm = "normalize[%s norm=%d %s %s%s%s variance %s mode %s%s%s]" % (
        a[0], a[1], a[2], "complex" if a[3] else "real", " auto" if a[4] else "", " mask" if a[5] else "", a[6], a[7], " scaled" if a[8] else "",
        " " + a[9] if len(a) > 9 else "")
    CASES.append((nm, plain(*a)))


for mode in ("corr", "diff"):
    for scale in (False, True):
        for norm in (1, 2, 5, 6, 9, 10, 13, 14):
            for cplx_ in (False, True):
                for layout in LAYOUTS:
                    for mask in (False, True):
                        if layout == "flat" and mask:
                            continue
                        add_plain("corr", norm, layout, cplx_, False, mask, "pair", mode, scale)
                add_plain("corr", norm, "k", cplx_, True, False, "single", mode, scale)
                add_plain("corr", norm, "k", cplx_, False, False, "pair", mode, scale, "out")
        for norm in (2, 6):
            for layout in LAYOUTS:
                for mask in (False, True):
                    if not (layout == "flat" and mask):
                        add_plain("diff", norm, layout, False, False, mask, "pair", mode, scale)
            add_plain("diff", norm, "k", False, False, False, "single", mode, scale)
            add_plain("diff", norm, "k", False, False, False, "pair", mode, scale, "out")
        if (mode, scale) != ("corr", False):
            for norm in (3, 7, 11, 15):
                for cplx_ in (False, True):
                    for layout, mask, v in (("k", False, "pair"), ("kl", True, "pair"), ("multi", False, "single"), ("flat", False, "pair")):
                        CASES.append(("weighted[norm=%d %s %s%s variance %s mode %s%s]" % (
                            norm, layout, "complex" if cplx_ else "real", " mask" if mask else "", v, mode, " scaled" if scale else ""),
                            weighted(norm, layout, cplx_, norm == 7 and layout == "kl", mask, v, mode, scale)))
for norm in (2, 6):
    CASES.append(("difference and correlation data[norm=%d]" % norm, same_data(norm, False)))
CASES.append(("difference and correlation data[norm=2 auto]", same_data(2, True)))
for dt in ("F", "C"):
    CASES.append(("filters are affine[median %s]" % dt, affine(dt, "cddm._core_nb.median")))
    CASES.append(("filters are affine[convolve %s]" % dt, affine(dt, "cddm._core_nb.convolve")))
    CASES.append(("denoise is affine[%s]" % dt, denoise_is(dt)))
EXTRA = []
