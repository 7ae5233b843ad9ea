"""Obligations: named proof goals generated by running the current source symbolically.

A *case* is a function body(S): it declares symbolic inputs (with their preconditions), calls
a function of /repo through S.call and states postconditions with S.prove / S.prove_array.
The case is run on every path; a goal is discharged when it is proved on every path."""
import time
import traceback
from .expr import *
from .expr import isconst, cval
from .sym import Exec, Unsupported, PyExc, Infeasible, Arr, simp
from . import sums, solve

PROVED, FAILED, UNKNOWN, UNSUPPORTED = "proved", "failed", "unknown", "unsupported"
RANK = {PROVED: 0, UNKNOWN: 1, UNSUPPORTED: 2, FAILED: 3}


class Goal(object):
    def __init__(self, name):
        self.name, self.status, self.detail, self.paths, self.time = name, PROVED, "", 0, 0.0
        self.backend = set()

    def add(self, status, detail, dt):
        self.paths += 1
        self.time += dt
        if RANK[status] > RANK[self.status]:
            self.status, self.detail = status, detail

    def row(self):
        return {"name": self.name, "status": self.status, "detail": self.detail, "paths": self.paths,
                "time": round(self.time, 3)}


class Stop(Exception):
    pass


class Session(object):
    def __init__(self, repo=None, timeout_ms=8000, contracts=None):
        self.repo, self.timeout_ms = repo, timeout_ms
        self.goals = {}
        self.order = []
        self.ex = None
        self.executed, self.used = set(), set()
        self.paths = 0
        self.cases = []
        self.contracts = contracts or (lambda ex: None)
        self.stats = {}
        self.trusted = set()
        self.lookup = None

    # -- goals
    def goal(self, name):
        n = "%s/%s" % (self.case_name, name)
        g = self.goals.get(n)
        if g is None:
            g = self.goals[n] = Goal(n)
            self.order.append(n)
        return g

    def run(self, name, body, max_paths=400):
        self.case_name = name
        self.cases.append(name)
        ex = self.ex = Exec(self.repo, self.timeout_ms)
        self.contracts(ex)
        ex.registry = self.lookup
        t0 = time.time()

        def one():
            try:
                body(self)
            except PyExc as e:
                self.goal("no-exception").add(FAILED, "raises %s on a valid input; path condition: %s" % (e, self.pcs()), 0)
                return "exc", None
            except (Stop,):
                return "stop", None
            except Unsupported as e:
                if not self.feasible():
                    raise Infeasible()
                self.goal("executable").add(UNSUPPORTED, "%s (path: %s)" % (str(e)[:600], self.pcs()), 0)
                return "uns", None
            self.goal("no-exception").add(PROVED, "", 0)
            if not self.live:
                self.live = solve.plausible(ex.hyps())
            return "ok", None
        n = 0
        self.live = False
        try:
            n = len(ex.explore(one, max_paths))
        except Unsupported as e:
            self.goal("executable").add(UNSUPPORTED, str(e)[:600], 0)
        except RecursionError as e:
            self.goal("executable").add(UNSUPPORTED, "recursion limit", 0)
        except sums.Blowup:
            self.goal("executable").add(UNSUPPORTED, "term blow-up", 0)
        mine = [g for k, g in self.goals.items() if k.startswith(name + "/")]
        if not mine:
            self.goal("non-vacuous").add(FAILED, "no feasible path", 0)
        elif n and not self.live and all(g.status == PROVED for g in mine) and "no-exception" in "".join(g.name for g in mine):
            self.goal("non-vacuous").add(FAILED, "the hypotheses contradict each other", 0)
        for k, v in ex.safety.items():
            g = self.goal("safety:" + k)
            g.add(PROVED if v[0] == "proved" else (FAILED if v[0] == "sat" else UNKNOWN), v[1], 0)
        self.paths += n
        self.executed |= ex.executed
        self.used |= ex.used_contracts
        self.stats[name] = (n, time.time() - t0)
        return n

    def feasible(self):
        try:
            return solve.check(self.ex.hyps(), 2000) != "unsat"
        except Exception:
            return True

    def pcs(self):
        return ", ".join(show(c) for c in self.ex.pc)[:600]

    # -- declaring inputs
    def dims(self, *names, lo=0):
        out = []
        for n in names:
            v = var(n)
            self.ex.assume(ge(v, const(lo)))
            out.append(v)
        return out if len(out) > 1 else out[0]

    def arr(self, name, shape, dtype):
        return self.ex.sym_array(name, tuple(num(s) for s in shape), dtype)

    def assume(self, c):
        self.ex.assume(c)

    def f(self, q):
        m, n = q.rsplit(".", 1)
        return self.ex.module(m).get(n)

    def call(self, q, *a, **k):
        return self.ex.call(self.f(q), list(a), k)

    def raises(self, name, q, *a, only=None, **k):
        """the call must end in an exception (no result), of the given type"""
        try:
            self.call(q, *a, **k)
        except PyExc as e:
            if only is None or e.kind == only:
                self.goal(name).add(PROVED, "", 0)
            else:
                self.goal(name).add(FAILED, "raises %s instead of %s" % (e, only), 0)
            return
        self.goal(name).add(FAILED, "returned instead of raising; path: " + self.pcs(), 0)

    def old(self, a):
        return self.ex.reader(a)

    # -- goals
    def prove(self, name, c):
        t0 = time.time()
        c = c if isE(c) else const(bool(c))
        if c.op == "const":
            st, det = (PROVED, "") if cval(c) else (FAILED, "reduces to false; path: " + self.pcs())
        elif self.ex.valid(c):
            st, det = PROVED, ""
        else:
            r, m = solve.check(self.ex.hyps() + [not_(c)], self.timeout_ms, want_model=True)
            if r == "unsat":
                st, det = PROVED, ""
            else:
                st = FAILED if r == "sat" else UNKNOWN
                det = "%s: goal %s%s" % (r, show(c)[:400], (" | model: " + str(m).replace("\n", " ")[:600]) if m is not None else "")
        self.goal(name).add(st, det, time.time() - t0)
        return st == PROVED

    def prove_eq(self, name, a, b):
        t0 = time.time()
        ok = True
        for part, x, y in parts(a, b):
            x, y = num(x), num(y)
            if x is y:
                st, det = PROVED, ""
            else:
                try:
                    r = sums.prove_eq(x, y, self.ex.pc, self.ex.axioms)
                    st = PROVED if r.ok else (FAILED if r.status in ("refuted", "sat", "differ") else UNKNOWN)
                    det = "" if r.ok else "%s: %s" % (r.status, r.detail[:1200])
                except sums.Blowup:
                    st, det = UNKNOWN, "term blow-up"
            if st != PROVED:
                ok = False
                det = "%s%s | path: %s" % (part, det, self.pcs()[:300])
            self.goal(name).add(st, det, time.time() - t0)
        return ok

    def index(self, shape, tag="k"):
        idx = []
        for s in shape:
            v = fresh(tag)
            self.ex.assume(ge(v, I0))
            self.ex.assume(lt(v, num(s)))
            idx.append(v)
        return tuple(idx)

    def prove_shape(self, name, a, shape):
        if not isinstance(a, Arr):
            self.goal(name).add(FAILED, "result is %r, expected an array" % (a,), 0)
            raise Stop()
        if a.ndim != len(shape):
            self.goal(name).add(FAILED, "rank %d, expected %d" % (a.ndim, len(shape)), 0)
            raise Stop()
        for i, (x, y) in enumerate(zip(a.shape, shape)):
            if not self.prove(name, eq(num(x), num(y))):
                raise Stop()
        return True

    def prove_array(self, name, a, shape, spec):
        """a has the given shape and at every index the value spec(index)"""
        self.prove_shape(name + ":shape", a, shape)
        n0 = len(self.ex.pc)
        idx = self.index(shape)
        st = self.ex.snapshot()
        v = self.ex.read(a, idx)
        self.prove_eq(name, v, spec(*idx))
        self.ex.restore(st)
        del self.ex.pc[n0:]

    def prove_none(self, name, v):
        self.goal(name).add(PROVED if v is None else FAILED, "" if v is None else "expected None, got %r" % (v,), 0)


def parts(a, b):
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = cplx(a), cplx(b)
        return [("re: ", a.re, b.re), ("im: ", a.im, b.im)]
    return [("", a, b)]


def rng(v, n):
    return and_(ge(v, I0), lt(v, n))


def in_(v, lo, hi):
    return and_(ge(v, lo), lt(v, hi))


def S_(bvs, guard, body):
    """sum over integer variables"""
    if isinstance(body, CV):
        return CV(sum_(bvs, guard, body.re), sum_(bvs, guard, body.im))
    return sum_(bvs, guard, body)
