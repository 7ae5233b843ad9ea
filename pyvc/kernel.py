"""Function contracts.

A Contract states, for one function of /repo that works on arrays (a numba gufunc or jit kernel),
what it requires and, for every index of its output, the value it leaves there; nothing else
is written (the frame).  `prove` discharges the contract against the current body for every
signature the decorator declares; `apply` uses it at a call site, where the requirements are
obligations of the caller."""
import time
from .expr import *
from .sym import Exec, Unsupported, PyExc, Arr, simp
from . import obl, sums


class View(object):
    """an argument as the specification sees it: its shape and its value before the call"""
    def __init__(self, ex, a):
        self.a, self.ex = a, ex
        if isinstance(a, Arr):
            self.shape = tuple(num(s) for s in a.shape)
            self.dtype = a.dtype
            self._r = ex.reader(a)
        else:
            self.shape, self.dtype, self.value = (), None, num(a)
            self._r = lambda idx: self.value

    def __call__(self, *idx):
        if self._r and self.shape == () and isinstance(self.a, Arr):
            return self._r(())
        return self._r(tuple(idx))


class Contract(object):
    def __init__(self, q, outs, ensures, requires=None, args=None, case=None):
        """q: qualified name; outs: positions of the arguments that are written;
        ensures(out position, A, idx) -> (mode, value) with mode 'add' or 'set';
        requires(A) -> list of (name, condition); args: for functions without a signature,
        [(rank, dtype, shape letters)]; case(A): preconditions on shapes as conditions"""
        self.q, self.outs, self.ensures, self.requires, self.args = q, outs, ensures, requires, args


def variants(ex, f, c):
    """[(list of (core letters, dtype))] one per declared signature"""
    if f.kind == "guvectorize":
        sigs, (lin, lout), forceobj = f.info
        L = list(lin) + list(lout)
        return [[(tuple(l), t[0]) for l, t in zip(L, s[0])] for s in sigs], forceobj
    if c.args is None:
        raise Unsupported("no argument types for %s" % c.q)
    return [list(v) for v in c.args], False


def prove(c, repo=None, timeout_ms=8000, lookup=None):
    """returns the Session holding the obligations of this contract"""
    S = obl.Session(repo, timeout_ms)
    if lookup:
        S.lookup = lookup
    m, n = c.q.rsplit(".", 1)
    ex = Exec(repo, timeout_ms)
    f = ex.module(m).get(n)
    vs, forceobj = variants(ex, f, c)
    for vi, var_ in enumerate(vs):
        def body(S, var_=var_):
            ex = S.ex
            f = ex.module(m).get(n)
            dims = {}
            args = []
            npar = len(f.node.args.args)
            for k, (letters, dt) in enumerate(var_[:npar]):
                sh = []
                for l in letters:
                    if l not in dims:
                        dims[l] = var("n_" + str(l))
                        ex.assume(ge(dims[l], I0))
                    sh.append(dims[l])
                if f.kind == "guvectorize" and not letters:
                    args.append(var("a%d" % k) if forceobj else ex.sym_array("a%d" % k, (1,), dt))
                else:
                    args.append(ex.sym_array("a%d" % k, tuple(sh), dt))
            # a 'dummy' argument only carries the shape of the output and aliases it
            if f.kind == "guvectorize":
                for o in c.outs:
                    for k in range(len(args)):
                        if k != o and k in getattr(c, "alias", {}).get(o, ()):
                            args[k] = args[o]
            A = [View(ex, a) for a in args]
            for nm, cond in (c.requires(A) if c.requires else []):
                ex.assume(cond)
            frames = {a.store: (k, ex.heap[a.store]) for k, a in enumerate(args) if isinstance(a, Arr)}
            forceobj or setattr(ex, "jit_depth", getattr(ex, "jit_depth", 0) + 1)
            try:
                ex.run_body(f, args, {})
            finally:
                forceobj or setattr(ex, "jit_depth", ex.jit_depth - 1)
            outstores = set(args[o].store for o in c.outs)
            for st, (k, content) in frames.items():
                if st not in outstores:
                    S.prove("argument %d unchanged" % k, ex.heap[st] is content)
            for o in c.outs:
                out = args[o]
                n0 = len(ex.pc)
                idx = S.index(out.shape)
                mode, val = c.ensures(o, A, idx)
                res = ex.read(out, idx)
                sp = n_add(A[o](*idx), val) if mode == "add" else val
                S.prove_eq("ensures out[...]", res, sp)
                del ex.pc[n0:]
        S.run("contract %s%s" % (c.q, "" if len(vs) == 1 else "[signature %d]" % vi), body)
    return S


class Registry(object):
    """contracts proved on demand against the current source; one that is not proved is
    dropped (callers then use the body itself)"""
    def __init__(self, contracts, repo=None, timeout_ms=8000):
        self.contracts, self.repo, self.timeout_ms = contracts, repo, timeout_ms
        self.sessions, self.ok, self.wall = {}, {}, 0.0

    def get(self, q):
        if q not in self.contracts:
            return None
        if q not in self.ok:
            self.ok[q] = False          # a contract is never used in its own proof
            t0 = time.time()
            try:
                S = prove(self.contracts[q], self.repo, self.timeout_ms)
                self.sessions[q] = S
                self.ok[q] = bool(S.order) and all(S.goals[g].status == obl.PROVED for g in S.order)
            except (Unsupported, PyExc, KeyError, AttributeError, IndexError, RecursionError) as e:
                self.sessions[q] = e
            self.wall += time.time() - t0
        return self.contracts[q] if self.ok[q] else None


def lookup(reg, q):
    return reg.get(q)


def applicable(c, core):
    """the aliasing of the arguments is the one the contract was proved under"""
    if len(core) <= max(c.outs):
        return False
    for o in c.outs:
        if not isinstance(core[o], Arr):
            return False
        al = c.alias.get(o, ())
        for k, a in enumerate(core):
            if k == o or not isinstance(a, Arr):
                continue
            if (k in al) != (a.store == core[o].store):
                return False
            if k in al and (a.maps != core[o].maps or a.shape != core[o].shape):
                return False
    return True


def apply(ex, c, core):
    A = [View(ex, a) for a in core]
    for nm, cond in (c.requires(A) if c.requires else []):
        ex.oblige("requires of %s: %s" % (c.q.split(".")[-1], nm), cond)
    writes = []
    for o in c.outs:
        v = A[o]

        def val(idx, o=o, v=v):
            mode, x = c.ensures(o, A, tuple(idx))
            return n_add(v(*idx), x) if mode == "add" else x
        writes.append((core[o], val))
    for a, val in writes:
        ex.write_view(a, val)
    ex.used_contracts.add(c.q)
