"""Python lists and sets of symbolic length.

A SymList is a mutable sequence: get(k) for start <= k < end. set(x) of a symbolic sequence of integers is
a SymSet; sorted() of it is the strictly increasing sequence of its members, given by its defining facts."""
import ast
from .expr import *
from .sym import Stream, Unsupported, PyExc, SliceVal, simp, num


class SymList(Stream):
    def __init__(self, get, start, end, base=None):
        self.get, self.start, self.end = get, start, end
        self.base = base or self            # the list of which this is a slice or copy

    @property
    def length(self):
        return sub(self.end, self.start)

    def elem(self, k):
        return self.get(add(self.start, num(k)))

    def copy(self):
        return SymList(self.get, self.start, self.end, self.base)


class SymSet(object):
    """set of the values of a symbolic sequence of integers"""
    def __init__(self, ex, at, n):
        self.at, self.n, self.sorted = at, n, None
        self.ex = ex

    def __deepcopy__(self, memo):
        return self

    def members(self):
        """(name of the increasing enumeration, its length)"""
        if self.sorted is None:
            ex = self.ex
            s, w, u = (fresh(x).args[0] for x in ("sorted", "origin", "place"))
            L = fresh("members")
            k, m, q = fresh("k"), fresh("m"), fresh("q")
            ex.assume(and_(ge(L, I0), le(L, emax(self.n, I0)), implies(gt(self.n, I0), gt(L, I0))))
            S = lambda i: app(s, (i,), "I")
            ex.add_axiom(forall((k, m), implies(and_(ge(k, I0), lt(k, m), lt(m, L)), lt(S(k), S(m)))))
            W = app(w, (k,), "I")
            ex.add_axiom(forall((k,), implies(and_(ge(k, I0), lt(k, L)), and_(ge(W, I0), lt(W, self.n), eq(num(self.at(W)), S(k))))))
            U = app(u, (q,), "I")
            ex.add_axiom(forall((q,), implies(and_(ge(q, I0), lt(q, self.n)), and_(ge(U, I0), lt(U, L), eq(S(U), num(self.at(q)))))))
            self.sorted = (S, L, lambda k: app(w, (k,), "I"), lambda q: app(u, (q,), "I"))
        return self.sorted


def make_set(ex, x):
    at, n = sequence(ex, x)
    if num(at(fresh("k"))).sort != "I":
        raise Unsupported("a set of other values than integers")
    key = (num(at(var("set#k"))), num(n))      # the same set again
    if key not in ex.sets:
        ex.sets[key] = SymSet(ex, at, n)
    return ex.sets[key]


def sequence(ex, x):
    """(element function, length) of a symbolic sequence of numbers"""
    from .sym import Arr, Filtered
    if isinstance(x, Arr) and x.ndim == 1:
        return (lambda k: ex.read(x, (num(k),))), num(x.shape[0])
    if isinstance(x, Stream) and not isinstance(x, Filtered):
        return x.elem, num(x.length)
    raise Unsupported("materialising a symbolic sequence")


def make_list(ex, x):
    if isinstance(x, SymSet):
        raise Unsupported("the order of a set")
    if isinstance(x, SymList):
        return x.copy()
    from .sym import Arr
    at, n = sequence(ex, x)
    if isinstance(x, Arr):
        c = ex.heap[x.store]
        rd = ex.reader(x)
        at = lambda k: rd((num(k),))
    return SymList(lambda k: at(k), I0, n)


def make_sorted(ex, x, reverse=False):
    if not isinstance(x, SymSet):
        raise Unsupported("sorted symbolic sequence")
    S, L, _, _ = x.members()
    r = SymList(S, I0, L)
    return make_reversed(ex, r) if reverse else r


def make_reversed(ex, x):
    at, n = sequence(ex, x)
    get = lambda k: at(sub(sub(n, I1), k))
    return SymList(get, I0, n)


def repeat(ex, v, n):
    n = emax(num(n), I0)
    return SymList(lambda k: v, I0, n)


def attribute(ex, x, name):
    if name == "pop":
        def pop(i=-1):
            i = simp(num(i))
            if i not in (0, -1):
                raise Unsupported("pop in the middle")
            if not ex.branch(lt(x.start, x.end)):
                raise PyExc("IndexError", "pop from empty list")
            x.base = x
            if i == 0:
                x.start = add(x.start, I1)
                return x.get(sub(x.start, I1))
            x.end = sub(x.end, I1)
            return x.get(x.end)
        return pop
    if name == "popleft":
        return lambda: attribute(ex, x, "pop")(0)
    if name == "copy":
        return lambda: x.copy()
    if name == "reverse":
        def rev():
            g, a, b = x.get, x.start, x.end
            x.get = lambda k: g(sub(sub(add(a, b), I1), k))
            x.base = x
        return rev
    raise Unsupported("list.%s of a list of symbolic length" % name)


def getitem(ex, x, idx):
    if isinstance(idx, SliceVal):
        a, b, c = (None if v is None else simp(num(v)) for v in (idx.a, idx.b, idx.c))
        if c == -1 and a is None and b is None:
            return make_reversed(ex, x)
        if c not in (None, 1) or not isinstance(a, (int, type(None))) or not isinstance(b, (int, type(None))):
            raise Unsupported("slice of a list of symbolic length")

        def bound(v, d):
            if v is None:
                return d
            return emin(add(x.start, const(v)), x.end) if v >= 0 else emax(add(x.end, const(v)), x.start)
        s, e = bound(a, x.start), bound(b, x.end)
        return SymList(x.get, s, emax(s, e) if a is not None else e)
    i = num(idx)
    n = x.length
    if ex.decide(lt(i, I0)) is not False:
        if ex.branch(lt(i, I0)):
            i = add(i, n)
    if not ex.branch(and_(ge(i, I0), lt(i, n))):
        raise PyExc("IndexError", "list index out of range")
    return x.elem(i)


def contains(ex, v, x):
    if isinstance(x, SymSet):
        S, L, w, u = x.members()
        k = fresh("found")
        # x in the set: a ghost position witnesses it; otherwise no element is equal
        if ex.branch(app(fresh("in").args[0], (num(v),), "B")):
            ex.assume(and_(ge(k, I0), lt(k, L), eq(S(k), num(v))))
            return True
        m = fresh("m")
        ex.add_axiom(forall((m,), implies(and_(ge(m, I0), lt(m, L)), ne(S(m), num(v)))))
        return False
    # a slice of at most one element
    n = x.length
    if not ex.branch(gt(n, I0)):
        return False
    if ex.valid(eq(n, I1)):
        return simp(eq(num(x.elem(I0)), num(v)))
    raise Unsupported("membership in a list of symbolic length")


def truth(ex, x):
    return ex.branch(gt(x.n if isinstance(x, SymSet) else x.length, I0))
