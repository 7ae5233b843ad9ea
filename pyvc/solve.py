"""z3 / cvc5 back ends."""
import time
import z3
from .expr import *
from .expr import isconst, cval

STATS = {"z3_calls": 0, "z3_time": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "cvc5_calls": 0,
         "cvc5_time": 0.0, "cvc5_unsat": 0}

SORT = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
_funcs = {}
_cache = {}


def _func(name, argsorts, sort):
    k = (name, argsorts, sort)
    f = _funcs.get(k)
    if f is None:
        f = z3.Function("%s/%s%s" % (name, "".join(argsorts), sort), *([SORT[a] for a in argsorts] + [SORT[sort]]))
        _funcs[k] = f
    return f


def to_z3(e):
    r = _cache.get(e)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        if x in _cache:
            continue
        if not done:
            stack.append((x, True))
            if x.op == "sum":
                continue
            for y in children(x):
                if y not in _cache:
                    stack.append((y, False))
        else:
            _cache[x] = _conv(x)
    return _cache[e]


def _num(v, sort):
    if sort == "I":
        return z3.IntVal(int(v))
    return z3.RealVal("%d/%d" % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(int(v))


def _conv(e):
    op = e.op
    c = _cache
    if op == "const":
        if e.sort == "B":
            return z3.BoolVal(e.args[0])
        return _num(e.args[0], e.sort)
    if op == "var":
        return z3.Const(e.args[0], SORT[e.sort])
    if op == "add":
        parts = []
        for t, k in e.args[1]:
            parts.append(c[t] if k == 1 else _num(k, e.sort) * c[t])
        if e.args[0] != 0:
            parts.append(_num(e.args[0], e.sort))
        return z3.Sum(parts) if len(parts) > 1 else parts[0]
    if op == "mul":
        r = c[e.args[0]]
        for f in e.args[1:]:
            r = r * c[f]
        return r
    if op == "app":
        args = e.args[1:]
        if e.args[0] == "inv":
            return z3.RealVal(1) / c[args[0]]
        if not args:
            return z3.Const(e.args[0] + "/" + e.sort, SORT[e.sort])
        f = _func(e.args[0], "".join(a.sort for a in args), e.sort)
        return f(*[c[a] for a in args])
    if op == "ite":
        return z3.If(*[c[a] for a in e.args])
    if op == "and":
        return z3.And(*[c[a] for a in e.args])
    if op == "or":
        return z3.Or(*[c[a] for a in e.args])
    if op == "not":
        return z3.Not(c[e.args[0]])
    if op == "le":
        return c[e.args[0]] <= 0
    if op == "lt":
        return c[e.args[0]] < 0
    if op == "eq":
        return c[e.args[0]] == 0
    if op == "toreal":
        return z3.ToReal(c[e.args[0]])
    if op == "fdiv":
        # python floor division (z3's div is Euclidean: equal for a positive divisor)
        a, b = c[e.args[0]], c[e.args[1]]
        if isconst(e.args[1]):
            return a / b if cval(e.args[1]) > 0 else -((-a) / b) if False else (-a) / (-b)
        return z3.If(b > 0, a / b, (-a) / (-b))
    if op == "mod":
        a, b = c[e.args[0]], c[e.args[1]]
        if isconst(e.args[1]) and cval(e.args[1]) > 0:
            return a % b
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    if op == "sum":
        e = alpha(e)
        fv = sorted(e.fv, key=lambda x: x.id)
        if not fv:
            return z3.Const("sum#%d" % e.id, SORT[e.sort])
        f = _func("sum#%d" % e.id, "".join(v.sort for v in fv), e.sort)
        return f(*[to_z3(v) for v in fv])
    if op == "forall":
        vs = [to_z3(b) for b in e.args[0]]
        return z3.ForAll(vs, c[e.args[1]])
    raise NotImplementedError(op)


_ALPHA = {}
_HAS = {}


def _has_sum(e):
    r = _HAS.get(e)
    if r is None:
        r = e.op == "sum" or any(_has_sum(y) for y in children(e))
        _HAS[e] = r
    return r


def alpha(e):
    """the same term with bound variables named by their position: equal for sums that differ only
    in the names of their variables"""
    def go(x):
        if not _has_sum(x):
            return x, 0
        r = _ALPHA.get(x)
        if r is not None:
            return r
        h = [0]

        def sub_(y):
            z, k = go(y)
            h[0] = max(h[0], k)
            return z
        if x.op == "sum":
            g, b = sub_(x.args[1]), sub_(x.args[2])
            m = {v: var("$b%d_%d" % (h[0], k), v.sort) for k, v in enumerate(x.args[0])}
            r = (sum_([m[v] for v in x.args[0]], subst(g, m), subst(b, m)), h[0] + 1)
        else:
            r = (rebuild(x, sub_), h[0])
        _ALPHA[x] = r
        return r
    return go(e)[0]


class Budget(object):
    deadline = None          # absolute time; after it every query returns 'unknown'

    @classmethod
    def left(cls):
        return None if cls.deadline is None else cls.deadline - time.time()


SLACK = 1        # factor on every time limit


def check(assertions, timeout_ms=10000, rlimit=None, want_model=False, use_cvc5=False):
    """satisfiability of the conjunction: 'sat' | 'unsat' | 'unknown' (and a model)"""
    timeout_ms = int(timeout_ms * SLACK)
    left = Budget.left()
    if left is not None:
        if left <= 0:
            return ("unknown", None) if want_model else "unknown"
        timeout_ms = int(min(timeout_ms, left * 1000))
    for a in assertions:
        if a is FALSE:
            return ("unsat", None) if want_model else "unsat"
    g = _instances(assertions)
    if g is not None:
        # ground instances of the quantified hypotheses first: unsat of those is unsat of all
        s = z3.Solver()
        s.set("timeout", max(1, min(timeout_ms, int(4000 * SLACK))))
        s.set("random_seed", 1)
        for a in g:
            s.add(to_z3(a))
        t0 = time.time()
        r = str(s.check())
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        if r == "unsat":
            STATS["unsat"] += 1
            return ("unsat", None) if want_model else "unsat"
        timeout_ms = min(timeout_ms, int(1000 * SLACK))
    s = z3.Solver()
    s.set("timeout", max(1, timeout_ms))
    s.set("random_seed", 1)
    for a in assertions:
        if a is not TRUE:
            s.add(to_z3(a))
    t0 = time.time()
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    STATS[r] = STATS.get(r, 0) + 1
    m = None
    if r == "sat" and want_model:
        m = s.model()
    if r == "unknown" and use_cvc5:
        t0 = time.time()
        r2 = _cvc5(s.to_smt2(), min(timeout_ms, 20000))
        STATS["cvc5_calls"] += 1
        STATS["cvc5_time"] += time.time() - t0
        if r2 == "unsat":
            STATS["cvc5_unsat"] += 1
            r = "unsat"
    return (r, m) if want_model else r


def _flat(e, out):
    if e.op == "and":
        for a in e.args:
            _flat(a, out)
    else:
        out.append(e)


def _quant(e):
    return any(x.op == "forall" for x in walk(e))


_trig = {}


def _triggers(q):
    """for every bound variable: the (function, position, offset) it is used at"""
    r = _trig.get(q)
    if r is None:
        r = {b: set() for b in q.args[0]}
        for x in walk(q.args[1]):
            if x.op == "app":
                for p, a in enumerate(x.args[1:]):
                    if a in r:
                        r[a].add((x.args[0], p))
        _trig[q] = r
    return r


def _instances(assertions, cap=300):
    """the assertions with top-level universal hypotheses replaced by ground instances; None if
    there are none"""
    flat = []
    for a in assertions:
        if a is not TRUE:
            _flat(a, flat)
    qs = [a for a in flat if a.op == "forall" and not _quant(a.args[1])]
    if not qs:
        return None
    ground = [a for a in flat if not _quant(a)]
    done = set()
    for rnd in range(2):
        at = {}
        for a in ground:
            for x in walk(a):
                if x.op == "app":
                    for p, t in enumerate(x.args[1:]):
                        at.setdefault((x.args[0], p), {})[t] = 1
        new = []
        for q in qs:
            tr = _triggers(q)
            cand = []
            for b in q.args[0]:
                c = {}
                for k in tr[b]:
                    c.update(at.get(k, {}))
                cand.append([t for t in c if t.sort == b.sort])
            import itertools
            for n, combo in enumerate(itertools.product(*cand)):
                if n >= cap:
                    break
                key = (q, combo)
                if key in done:
                    continue
                done.add(key)
                new.append(subst(q.args[1], dict(zip(q.args[0], combo))))
        if not new:
            break
        ground += new
    return ground


def _cvc5(smt2, timeout_ms):
    import subprocess, tempfile, os
    body = "(set-logic ALL)\n" + smt2
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout_ms, "--nl-ext-tplanes", "-"], input=body.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout_ms / 1000.0 + 5)
        out = p.stdout.decode().split()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"


def plausible(assertions):
    """False when the assertions are contradictory already in their ground part"""
    g = _instances(assertions)
    s = z3.Solver()
    s.set("timeout", 2000)
    for a in (assertions if g is None else g):
        if a is not TRUE and not _quant(a):
            s.add(to_z3(a))
    return str(s.check()) != "unsat"


class Decider(object):
    """decides conditions under a growing/shrinking list of hypotheses, with a cache"""

    def __init__(self, axioms=()):
        self.axioms = list(axioms)
        self.cache = {}

    def valid(self, hyps, c, timeout_ms=5000):
        if c is TRUE:
            return True
        if c is FALSE:
            # still valid if hyps are inconsistent, but callers do not rely on that
            return False
        k = (frozenset(hyps), len(self.axioms), c)
        r = self.cache.get(k)
        if r is None:
            if any(h is c for h in hyps):
                r = True
            else:
                r = check(list(self.axioms) + list(hyps) + [not_(c)], timeout_ms) == "unsat"
            self.cache[k] = r
        return r

    def decide(self, hyps, c):
        """True / False / None"""
        if c.op == "const":
            return bool(cval(c))
        if self.valid(hyps, c):
            return True
        if self.valid(hyps, not_(c)):
            return False
        return None

    def feasible(self, hyps):
        k = (frozenset(hyps), len(self.axioms), "feas")
        r = self.cache.get(k)
        if r is None:
            r = check(list(self.axioms) + list(hyps), 5000) != "unsat"
            self.cache[k] = r
        return r


def reset_stats():
    for k in STATS:
        STATS[k] = 0 if isinstance(STATS[k], int) else 0.0
