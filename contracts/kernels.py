"""Contracts of the numerical kernels (cddm._core_nb)."""
from pyvc.expr import *
from pyvc.obl import rng, S_
from pyvc.kernel import Contract

N = "cddm._core_nb."
CONTRACTS = {}


def contract(name, outs, alias=None, args=None, requires=None):
    def deco(fn):
        c = Contract(N + name, outs, fn, requires, args)
        c.alias = alias or {}
        CONTRACTS[N + name] = c
        return fn
    return deco


# ---------------------------------------------------------------- definitions shared with the properties

def re_(v):
    return v.re if isinstance(v, CV) else v


def prod_conj(a, b):
    """conj(a) b"""
    return n_mul(n_conj(a), b)


def absq(d):
    d = cplx(d)
    return add(mul(d.re, d.re), mul(d.im, d.im))


def wrap(k, L):
    """delay stored at index k of an array of length L = 2n-1: 0..n-1, then -(n-1)..-1"""
    half = floordiv(add(L, I1), const(2))
    return half, ite(lt(k, half), k, sub(k, L))


def pairs(Nx, Ny, cond, body):
    """sum over i < Nx, j < Ny of body(i, j) where cond(i, j)"""
    i, j = fresh("i"), fresh("j")
    return S_((i, j), and_(rng(i, Nx), rng(j, Ny), cond(i, j)), body(i, j))


def apairs(Nx, cond, body):
    """sum over i <= j < Nx"""
    i, j = fresh("i"), fresh("j")
    return S_((i, j), and_(ge(i, I0), le(i, j), lt(j, Nx), cond(i, j)), body(i, j))


def lag(T1, T2, k):
    """|t2 - t1| = k"""
    return lambda i, j: eq(eabs(sub(T2(j), T1(i))), k)


def slag(T1, T2, k):
    """t2 - t1 = k"""
    return lambda i, j: eq(sub(T2(j), T1(i)), k)


ID = lambda i: i


# ---------------------------------------------------------------- cross correlation

@contract("_cross_corr", [5], {5: (4,)})
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    return "add", pairs(x.shape[0], y.shape[0], lag(t1, t2, ix[0]), lambda i, j: re_(prod_conj(x(i), y(j))))


@contract("_cross_corr_vec", [5], {5: (4,)})
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    c = ix[1]
    return "add", pairs(x.shape[0], y.shape[0], lag(t1, t2, ix[0]), lambda i, j: re_(prod_conj(x(i, c), y(j, c))))


@contract("_cross_corr_regular", [3], {3: (2,)})
def _(o, A, ix):
    x, y = A[:2]
    return "add", pairs(x.shape[0], y.shape[0], lag(ID, ID, ix[0]), lambda i, j: re_(prod_conj(x(i), y(j))))


def odd(A):
    L = A.shape[0]
    return [("output has an odd length", eq(mod(L, const(2)), I1))]


@contract("_cross_corr_complex", [5], {5: (4,)}, requires=lambda A: odd(A[5]))
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], y.shape[0], slag(t1, t2, d), lambda i, j: prod_conj(x(i), y(j)))


@contract("_cross_corr_complex_vec", [5], {5: (4,)}, requires=lambda A: odd(A[5]))
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    c = ix[1]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], y.shape[0], slag(t1, t2, d), lambda i, j: prod_conj(x(i, c), y(j, c)))


@contract("_cross_corr_complex_regular", [3], {3: (2,)}, requires=lambda A: odd(A[3]))
def _(o, A, ix):
    x, y = A[:2]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], y.shape[0], slag(ID, ID, d), lambda i, j: prod_conj(x(i), y(j)))


# ---------------------------------------------------------------- auto correlation

@contract("_auto_corr", [3], {3: (2,)})
def _(o, A, ix):
    x, t = A[:2]
    return "add", apairs(x.shape[0], lag(t, t, ix[0]), lambda i, j: re_(prod_conj(x(i), x(j))))


@contract("_auto_corr_vec", [3], {3: (2,)})
def _(o, A, ix):
    x, t = A[:2]
    c = ix[1]
    return "add", apairs(x.shape[0], lag(t, t, ix[0]), lambda i, j: re_(prod_conj(x(i, c), x(j, c))))


@contract("_auto_corr_regular", [2], {2: (1,)})
def _(o, A, ix):
    x = A[0]
    return "add", apairs(x.shape[0], lag(ID, ID, ix[0]), lambda i, j: re_(prod_conj(x(i), x(j))))


def auto_c(x, t, k):
    """every pair once, the earlier frame conjugated"""
    n = x.shape[0]
    fwd = apairs(n, lambda i, j: eq(sub(t(j), t(i)), k), lambda i, j: prod_conj(x(i), x(j)))
    bwd = apairs(n, lambda i, j: and_(lt(sub(t(j), t(i)), I0), eq(sub(t(i), t(j)), k)), lambda i, j: prod_conj(x(j), x(i)))
    return n_add(fwd, bwd)


@contract("_auto_corr_complex", [3], {3: (2,)})
def _(o, A, ix):
    return "add", auto_c(A[0], A[1], ix[0])


class Col(object):
    def __init__(self, A, c):
        self.shape, self.f, self.c = A.shape, A, c

    def __call__(self, i):
        return self.f(i, self.c)


@contract("_auto_corr_complex_vec", [3], {3: (2,)})
def _(o, A, ix):
    return "add", auto_c(Col(A[0], ix[1]), A[1], ix[0])


@contract("_auto_corr_complex_regular", [2], {2: (1,)})
def _(o, A, ix):
    return "add", apairs(A[0].shape[0], slag(ID, ID, ix[0]), lambda i, j: prod_conj(A[0](i), A[0](j)))


# ---------------------------------------------------------------- differences

@contract("_cross_diff", [5], {5: (4,)})
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    return "add", pairs(x.shape[0], y.shape[0], lag(t1, t2, ix[0]), lambda i, j: absq(n_sub(y(j), x(i))))


@contract("_cross_diff_vec", [5], {5: (4,)})
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    c = ix[1]
    return "add", pairs(x.shape[0], y.shape[0], lag(t1, t2, ix[0]), lambda i, j: absq(n_sub(y(j, c), x(i, c))))


@contract("_cross_diff_regular", [3], {3: (2,)})
def _(o, A, ix):
    x, y = A[:2]
    return "add", pairs(x.shape[0], y.shape[0], lag(ID, ID, ix[0]), lambda i, j: absq(n_sub(y(j), x(i))))


@contract("_auto_diff", [3], {3: (2,)})
def _(o, A, ix):
    x, t = A[:2]
    return "add", apairs(x.shape[0], lag(t, t, ix[0]), lambda i, j: absq(n_sub(x(j), x(i))))


@contract("_auto_diff_vec", [3], {3: (2,)})
def _(o, A, ix):
    x, t = A[:2]
    c = ix[1]
    return "add", apairs(x.shape[0], lag(t, t, ix[0]), lambda i, j: absq(n_sub(x(j, c), x(i, c))))


@contract("_auto_diff_regular", [2], {2: (1,)})
def _(o, A, ix):
    x = A[0]
    return "add", apairs(x.shape[0], lag(ID, ID, ix[0]), lambda i, j: absq(n_sub(x(j), x(i))))


# ---------------------------------------------------------------- delay dependent sums

@contract("_cross_sum", [4], {4: (3,)})
def _(o, A, ix):
    x, t1, t2 = A[:3]
    return "add", pairs(x.shape[0], t2.shape[0], lag(t1, t2, ix[0]), lambda i, j: x(i))


@contract("_cross_sum_vec", [4], {4: (3,)})
def _(o, A, ix):
    x, t1, t2 = A[:3]
    return "add", pairs(x.shape[0], t2.shape[0], lag(t1, t2, ix[0]), lambda i, j: x(i, ix[1]))


@contract("_cross_sum_complex", [4], {4: (3,)}, requires=lambda A: odd(A[4]))
def _(o, A, ix):
    x, t1, t2 = A[:3]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], t2.shape[0], slag(t1, t2, d), lambda i, j: x(i))


@contract("_cross_sum_complex_vec", [4], {4: (3,)}, requires=lambda A: odd(A[4]))
def _(o, A, ix):
    x, t1, t2 = A[:3]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], t2.shape[0], slag(t1, t2, d), lambda i, j: x(i, ix[1]))


@contract("_cross_sum_regular", [2], {2: (1,)})
def _(o, A, ix):
    x = A[0]
    return "add", pairs(x.shape[0], x.shape[0], lag(ID, ID, ix[0]), lambda i, j: x(i))


@contract("_cross_sum_complex_regular", [2], {2: (1,)}, requires=lambda A: odd(A[2]))
def _(o, A, ix):
    x = A[0]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], x.shape[0], slag(ID, ID, d), lambda i, j: x(i))


@contract("_cross_sum_complex_regular_inverted", [2], {2: (1,)}, requires=lambda A: odd(A[2]))
def _(o, A, ix):
    x = A[0]
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(x.shape[0], x.shape[0], slag(ID, ID, d), lambda i, j: x(j))


# ---------------------------------------------------------------- transform based variants

def nonneg(t, length, what):
    q = fresh("q")
    return (what + " lies in the padded range", forall((q,), implies(rng(q, t.shape[0]), and_(ge(t(q), I0), lt(t(q), length)))))


def within(t, length, what):
    q = fresh("q")
    return (what + " lies in the padded array", forall((q,), implies(rng(q, t.shape[0]), and_(ge(t(q), I0), lt(t(q), scale(length, 2))))))


def fft_req(tpos, lpos, opos, cplx_out=None):
    def req(A):
        L = A[lpos]()
        n = A[opos].shape[0]
        out = [("padded length is positive", ge(L, I1))]
        if cplx_out is True or (cplx_out is None and A[opos].dtype == "C"):
            out += odd(A[opos])
            n = floordiv(add(n, I1), const(2))
        out.append(("output has at least one delay", ge(n, I1)))
        out.append(("padded length covers the output", le(n, L)))
        for p in tpos:
            out.append(within(A[p], L, "time"))
        a, b = A[tpos[0]], A[tpos[-1]]
        i, j = fresh("q"), fresh("q")
        out.append(("no delay wraps around", forall((i, j), implies(and_(rng(i, a.shape[0]), rng(j, b.shape[0])), lt(eabs(sub(b(j), a(i))), L)))))
        return out
    return req


@contract("_cross_corr_fft_regular", [3], {3: (2,)}, requires=lambda A: (odd(A[3]) if A[3].dtype == "C" else []) + [("output has at least one delay", ge(A[3].shape[0], I1))])
def _(o, A, ix):
    x, y = A[:2]
    n = x.shape[0]
    if A[o].dtype == "C":
        _, d = wrap(ix[0], A[o].shape[0])
        return "add", pairs(n, n, slag(ID, ID, d), lambda i, j: prod_conj(x(i), y(j)))
    return "add", pairs(n, n, lag(ID, ID, ix[0]), lambda i, j: re_(prod_conj(x(i), y(j))))


@contract("_auto_corr_fft_regular", [2], {2: (1,)})
def _(o, A, ix):
    x = A[0]
    n = x.shape[0]
    v = pairs(n, n, slag(ID, ID, ix[0]), lambda i, j: prod_conj(x(i), x(j)))
    return "add", v if A[o].dtype == "C" else re_(v)


@contract("_cross_corr_fft", [6], {6: (5,)}, requires=fft_req((2, 3), 4, 6))
def _(o, A, ix):
    x, y, t1, t2 = A[:4]
    if A[o].dtype == "C":
        _, d = wrap(ix[0], A[o].shape[0])
        return "add", pairs(x.shape[0], y.shape[0], slag(t1, t2, d), lambda i, j: prod_conj(x(i), y(j)))
    return "add", pairs(x.shape[0], y.shape[0], lag(t1, t2, ix[0]), lambda i, j: re_(prod_conj(x(i), y(j))))


@contract("_auto_corr_fft", [4], {4: (3,)}, requires=lambda A: fft_req((1,), 2, 4, False)(A))
def _(o, A, ix):
    x, t = A[:2]
    v = pairs(x.shape[0], x.shape[0], slag(t, t, ix[0]), lambda i, j: prod_conj(x(i), x(j)))
    return "add", v if A[o].dtype == "C" else re_(v)


# ---------------------------------------------------------------- pair counts

@contract("_add_count_cross", [2], args=[[(("a",), "I"), (("b",), "I"), (("n",), "I")]])
def _(o, A, ix):
    return "add", pairs(A[0].shape[0], A[1].shape[0], lag(A[0], A[1], ix[0]), lambda i, j: I1)


@contract("_add_count_cross_complex", [2], args=[[(("a",), "I"), (("b",), "I"), (("n",), "I")]], requires=lambda A: odd(A[2]))
def _(o, A, ix):
    _, d = wrap(ix[0], A[o].shape[0])
    return "add", pairs(A[0].shape[0], A[1].shape[0], slag(A[0], A[1], d), lambda i, j: I1)


@contract("_add_count_auto", [1], args=[[(("a",), "I"), (("n",), "I")]])
def _(o, A, ix):
    return "add", apairs(A[0].shape[0], lag(A[0], A[0], ix[0]), lambda i, j: I1)
