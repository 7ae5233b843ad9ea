"""Contracts of the data filters and interpolation kernels (cddm._core_nb)."""
from pyvc.expr import *
from pyvc.kernel import Contract

N = "cddm._core_nb."
CONTRACTS = {}


def contract(name, outs, alias=None, args=None, requires=None):
    def deco(fn):
        c = Contract(N + name, outs, fn, requires, args)
        c.alias = alias or {}
        CONTRACTS[N + name] = c
        return fn
    return deco


def mid(a, b, c):
    """the middle one of three numbers"""
    lo, hi = ite(lt(a, b), a, b), ite(lt(a, b), b, a)
    return ite(lt(c, lo), lo, ite(lt(hi, c), hi, c))


def edge(f, x, k):
    n = x.shape[0]
    return n_ite(or_(eq(k, I0), eq(k, sub(n, I1))), x(k), f(k))


def three(A):
    return [("at least three points", ge(A[0].shape[0], const(3)))]


@contract("convolve", [1], requires=three)
def _(o, A, ix):
    x, k = A[0], ix[0]
    q = const(Fraction(1, 4))
    return "set", edge(lambda k: n_mul(q, n_add(n_add(x(sub(k, I1)), n_mul(const(2), x(k))), x(add(k, I1)))), x, k)


@contract("_median", [1], requires=three)
def _(o, A, ix):
    x, k = A[0], ix[0]
    return "set", edge(lambda k: mid(x(sub(k, I1)), x(k), x(add(k, I1))), x, k)
