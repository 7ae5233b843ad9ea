"""Two dimensional discrete Fourier transforms by their definition, with the exponential left
uninterpreted: x[m, n] -> sum over m, n of x[m, n] * e(k, m, H) * e(l, n, W)  (trusted)."""
from .expr import *
from .sym import *


def factor(k, m, n, inverse):
    nm = "idft" if inverse else "dft"
    return CV(app(nm + ".re", (k, m, n), "R"), app(nm + ".im", (k, m, n), "R"))


def value(rd, H, W, lead, k, l, inverse=False):
    m, n = fresh("m"), fresh("n")
    t = n_mul(n_mul(cplx(rd(tuple(lead) + (m, n))), factor(k, m, H, inverse)), factor(l, n, W, inverse))
    g = and_(ge(m, I0), lt(m, H), ge(n, I0), lt(n, W))
    return CV(sum_((m, n), g, t.re), sum_((m, n), g, t.im))


def model(ex, nm):
    def f(a, overwrite_x=False, **k):
        from . import npmodel
        a = npmodel.np_asarray(ex, a)
        if k:
            raise Unsupported("extra arguments of " + nm)
        if a.ndim < 2:
            raise PyExc("ValueError", nm)
        if nm == "rfft2" and a.dtype == "C":
            raise PyExc("TypeError", nm)
        rd = ex.reader(a)
        H, W = num(a.shape[-2]), num(a.shape[-1])
        sh = list(a.shape[:-1]) + [simp(add(floordiv(W, const(2)), I1)) if nm == "rfft2" else a.shape[-1]]
        return ex.fn_array(sh, "C", lambda idx: value(rd, H, W, idx[:-2], idx[-2], idx[-1], nm == "ifft2"))
    return f
