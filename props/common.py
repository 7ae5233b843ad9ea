"""Shared vocabulary of the public contracts."""
import itertools
from pyvc.expr import *
from pyvc.obl import S_, rng
from pyvc.sym import Arr, Fn, sym_reader
from contracts.kernels import prod_conj, absq, re_, wrap

CORE = "cddm.core."
NB = "cddm._core_nb."


def axes_of(rank, neg=True):
    out = list(range(rank))
    return out + ([a - rank for a in range(rank)] if neg else [])


class Data(object):
    """a symbolic sequence of frames: rank, time axis, values before the call"""
    def __init__(self, S, name, rank, axis, N, rest, dtype="C"):
        self.axis = axis % rank
        sh = list(rest)
        sh.insert(self.axis, N)
        self.N, self.rest = N, tuple(rest)
        self.arr = S.arr(name, tuple(sh), dtype)
        self.read = S.old(self.arr)
        self.content = S.ex.heap[self.arr.store]
        self.S, self.name = S, name

    def at(self, i, rest):
        ix = list(rest)
        ix.insert(self.axis, i)
        return self.read(tuple(ix))

    def unchanged(self):
        self.S.prove("%s is not modified" % self.name, self.S.ex.heap[self.arr.store] is self.content)


def rest_dims(S, rank):
    return tuple(S.dims(n, lo=0) for n in ("K", "L", "M")[:rank - 1])


def times(S, name, N):
    a = S.arr(name, (N,), "I")
    r = S.old(a)
    return a, (lambda i: r((i,)))


def sum_pairs(N1, N2, cond, val):
    i, j = fresh("i"), fresh("j")
    return S_((i, j), and_(rng(i, N1), rng(j, N2), cond(i, j)), val(i, j))


def sum_apairs(N, cond, val):
    i, j = fresh("i"), fresh("j")
    return S_((i, j), and_(ge(i, I0), le(i, j), lt(j, N), cond(i, j)), val(i, j))


def full(n):
    return sub(scale(n, 2), I1)


def old_out(S, name, shape, dtype):
    a = S.arr(name, shape, dtype)
    return a, S.old(a)


def covers(S, name, n, N1, N2, d):
    """every delay that occurs is smaller than n"""
    i, j = fresh("i"), fresh("j")
    ex = S.ex
    k = len(ex.pc)
    ex.assume(and_(rng(i, N1), rng(j, N2)))
    S.prove(name, lt(eabs(d(i, j)), n))
    del ex.pc[k:]


class Denoise(object):
    """cddm.avg.denoise by its contract: an array of the same shape and type that depends on the
    values of its argument only; its value is left open (A01 states and proves it)"""
    NAMES = ("cddm.avg.denoise",)

    def __init__(self, S, names=None):
        self.S, self.calls = S, []
        self.install(names)

    def install(self, names):
        for q in names or self.NAMES:
            self.S.ex.contracts[q] = self

    def opaque(self, q):
        return "%s_%d" % (q.rsplit(".", 1)[-1], len(self.calls))

    def __call__(self, ex, f, args, kw):
        x = args[0]
        q = "%s.%s" % (f.module.name, f.name)
        ex.oblige("requires of denoise: at least three points", ge(num(x.shape[-1]), const(3)))
        nm = self.opaque(q)
        old = ex.reader(x)
        dt = "C" if x.dtype == "C" else "F"
        r = ex.alloc(x.shape, dt, Fn(sym_reader(nm, dt)))
        self.calls.append((q, tuple(num(s) for s in x.shape), dt, old, sym_reader(nm, dt), r))
        ex.used_contracts.add(q)
        return r
