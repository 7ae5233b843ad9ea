"""C08: normalised data is the pair-average of background-corrected products."""
from props.norms import *


def value(kind, norm, layout, cplx_, auto, mask, var, bg, form, multi=False):
    def body(S):
        R = Result(S, kind, layout, cplx_, auto, mask=mask, var=var, bg=bg)
        Denoise(S)
        kw = dict(background=R.background, variance=R.variance, mask=R.mask,
                  norm="|".join(x for b, x in ((1, "standard"), (2, "structured"), (4, "subtracted"), (8, "compensated")) if norm & b) if form == "text" else norm)
        if kind == "diff":
            kw["mode"] = "diff"
        o = None
        if form == "out":
            o = S.arr("out", R.out_shape(), R.dt)
            kw["out"] = o
        if multi:
            two = S.call("cddm.multitau.normalize_multi", (R.data, R.data), **kw)
            S.prove("two parts", isinstance(two, tuple) and len(two) == 2)
            rs = two
        else:
            r = S.call(NORM + "normalize", R.data, **kw)
            rs = (r,)
        at = R.view()
        for r in rs:
            check_values(S, R, r, lambda idx: expected(kind, norm, at(idx), R.dt))
        if o is not None:
            S.prove("result is written to the given array", rs[0].store == o.store)
        R.unchanged()
    return body


def check_values(S, R, r, want, name="documented value"):
    S.prove_shape(name + ":shape", r, R.out_shape())
    n0 = len(S.ex.pc)
    idx = S.index(R.out_shape())
    nl = len(R.lead)
    S.assume(ge(S.ex.reader(R.count)(tuple(idx[:nl]) + (idx[-1],)), I1))
    S.prove_eq(name, S.ex.read(r, idx), want(idx))
    del S.ex.pc[n0:]


def lemma(norm, kind, dt, auto):
    """the documented value is the average over the pairs it stands for"""
    def body(S):
        c = S.dims("c", lo=1)
        f1 = lambda p: CV(app("f1.re", (p,), "R"), app("f1.im", (p,), "R"))
        f2 = lambda p: CV(app("f2.re", (p,), "R"), app("f2.im", (p,), "R"))
        b = lambda nm: CV(var(nm + ".re", "R"), var(nm + ".im", "R"))
        b1, b2 = b("b1"), b("b2")
        if auto:
            b2 = b1

        def tot(g):
            p = fresh("p")
            return S_((p,), rng(p, c), g(f1(p), f2(p)))
        v = {"c": c, "b1": b1, "b2": b2, "v1": var("v1", "R"), "v2": var("v2", "R")}
        if kind == "diff":
            v["corr"] = tot(lambda x, y: absq(n_sub(y, x)))
        else:
            v["corr"] = tot(lambda x, y: part(cmul(x, y), dt))
        v["sq"] = tot(lambda x, y: n_add(absq(x), absq(y)))
        v["m1"] = tot(lambda x, y: x)
        v["m2"] = tot(lambda x, y: y)
        if auto:
            v["m1"] = v["m2"] = n_mul(HALF, tot(lambda x, y: n_add(x, y)))
        got = expected(kind, norm, v, dt)
        a1, a2 = b1, b2
        if norm & COMPENSATED and not norm & SUBTRACTED:
            a1, a2 = div(v["m1"], c), div(v["m2"], c)
        V = twice(variance_of(v), dt)
        if kind == "diff":
            want = div(tot(lambda x, y: absq(n_sub(n_sub(y, a2), n_sub(x, a1)))), c)
        elif norm & WEIGHTED == STANDARD:
            want = div(tot(lambda x, y: part(cmul(n_sub(x, a1), n_sub(y, a2)), dt)), c)
        else:
            want = n_sub(V, n_mul(HALF, div(tot(lambda x, y: square(n_sub(x, a1), n_sub(y, a2), dt)), c)))
        S.prove_eq("is the average over the pairs", got, want)
    return body


CASES, EXTRA = [], []


def add_case(*a):
    kind, norm, layout, cplx_, auto, mask, var, bg, form = a[:9]
    nm = "%s[%s norm=%d %s %s%s%s variance %s background %s%s]" % (
        "normalize_multi" if len(a) > 9 else "normalize", kind, norm, layout, "complex" if cplx_ else "real", " auto" if auto else "",
        " mask" if mask else "", var, bg, " " + form if form else "")
    CASES.append((nm, value(*a)))


for norm in (1, 2, 5, 6, 9, 10, 13, 14):
    for cplx_ in (False, True):
        for auto in (False, True):
            if auto and not norm & 12:
                continue
            for layout in ("k", "kl", "multi", "flat"):
                for mask in (False, True):
                    if layout == "flat" and mask:
                        continue
                    add_case("corr", norm, layout, cplx_, auto, mask, "pair", "pair", "")
        add_case("corr", norm, "k", cplx_, False, False, "single", "single", "")
        add_case("corr", norm, "k", cplx_, False, False, "pair", "pair", "text")
        add_case("corr", norm, "kl", cplx_, False, False, "pair", "pair", "out")
        add_case("corr", norm, "k", cplx_, False, False, "pair", "pair", "", True)
for norm in (2, 6):
    for layout in ("k", "kl", "multi", "flat"):
        for mask in (False, True):
            if not (layout == "flat" and mask):
                add_case("diff", norm, layout, False, False, mask, "pair", "pair", "")
    add_case("diff", norm, "k", False, False, False, "single", "single", "")
    add_case("diff", norm, "k", False, False, False, "pair", "pair", "out")
for norm in (5, 6, 9, 10):
    for dt in ("F", "C"):
        for auto in (False, True):
            if auto and dt == "C":      # auto data keep one mean for both frames: only the real part is corrected exactly
                continue
            CASES.append(("pair average[corr norm=%d %s%s]" % (norm, dt, " auto" if auto else ""), lemma(norm, "corr", dt, auto)))
CASES.append(("pair average[diff norm=6]", lemma(6, "diff", "F", False)))
