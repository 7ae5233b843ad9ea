"""Equality of expressions with unbounded sums.

Both sides are expanded into  sum_{bvs} [guard] coef * prod(factors), the bound variables
are re-parametrised canonically by the index arguments of the factors (one-point rule on
unimodular linear equations, which is exact for sums over Z), and the guarded coefficients
of equal factor products are compared pointwise by the SMT solver."""
from fractions import Fraction
import itertools
from .expr import *
from .expr import _le0, _lt0, _eq0, isconst, cval
from . import solve


class Term(object):
    __slots__ = ("coef", "bvs", "guard", "factors")

    def __init__(self, coef, bvs, guard, factors):
        self.coef, self.bvs, self.guard, self.factors = coef, tuple(bvs), guard, tuple(factors)

    def __repr__(self):
        return "%s * SUM{%s|%s} %s" % (self.coef, ",".join(map(show, self.bvs)), show(self.guard),
                                       " * ".join(map(show, self.factors)))


class Blowup(Exception):
    pass


MAXTERMS = 20000


def replace(e, m):
    """replace whole sub-expressions (dict E -> E)"""
    cache = {}

    def go(x):
        if x in m:
            return m[x]
        if x.op in ("var", "const"):
            return x
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            cache[x] = r
        return r
    return go(e)


def find_ite(e, into_sum=False):
    """an innermost-condition ite occurring in e (not under a sum)"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            return x
        if x.op in ("sum", "forall"):
            continue
        stack.extend(children(x))
    return None


def expand(e, cache=None):
    if cache is None:
        cache = {}
    r = cache.get(e)
    if r is not None:
        return r
    op = e.op
    if op == "const":
        v = cval(e)
        r = [] if v == 0 else [Term(v, (), TRUE, ())]
    elif op == "add":
        r = [Term(e.args[0], (), TRUE, ())] if e.args[0] != 0 else []
        for t, k in e.args[1]:
            for u in expand(t, cache):
                r.append(Term(u.coef * k, u.bvs, u.guard, u.factors))
    elif op == "mul":
        r = [Term(Fraction(1), (), TRUE, ())]
        used = set()
        for f in e.args:
            ts = expand(f, cache)
            if f in used:
                ts = [fresh_term(t) for t in ts]
            used.add(f)
            new = []
            for a in r:
                for b in ts:
                    if set(a.bvs) & set(b.bvs):
                        b = fresh_term(b)
                    g = and_(a.guard, b.guard)
                    if g is FALSE:
                        continue
                    new.append(Term(a.coef * b.coef, a.bvs + b.bvs, g, a.factors + b.factors))
            r = new
            if len(r) > MAXTERMS:
                raise Blowup()
    elif op == "ite":
        c, a, b = e.args
        r = [Term(t.coef, t.bvs, and_(t.guard, c), t.factors) for t in expand(a, cache)]
        nc = not_(c)
        r += [Term(t.coef, t.bvs, and_(t.guard, nc), t.factors) for t in expand(b, cache)]
        r = [t for t in r if t.guard is not FALSE]
    elif op == "sum":
        bvs, g, b = e.args
        r = []
        for t in expand(b, cache):
            gg = and_(t.guard, g)
            if gg is not FALSE:
                r.append(Term(t.coef, tuple(bvs) + t.bvs, gg, t.factors))
    else:
        # atom; lift if-then-else out of its arguments
        it = find_ite(e)
        if it is not None:
            a = replace(e, {it: it.args[1]})
            b = replace(e, {it: it.args[2]})
            r = expand(ite(it.args[0], a, b), cache)
        else:
            r = [Term(Fraction(1), (), TRUE, (e,))]
    if len(r) > MAXTERMS:
        raise Blowup()
    cache[e] = r
    return r


def fresh_term(t):
    if not t.bvs:
        return t
    m = {b: fresh("b", b.sort) for b in t.bvs}
    return Term(t.coef, tuple(m[b] for b in t.bvs), subst(t.guard, m), tuple(subst(f, m) for f in t.factors))


def conj(g):
    return list(g.args) if g.op == "and" else ([] if g is TRUE else [g])


def split_guard(t):
    """split a term on if-then-else inside its guard and on disjunctions that hide
    equalities about bound variables"""
    out = []
    work = [t]
    while work:
        t = work.pop()
        bset = set(t.bvs)
        again = None
        for c in conj(t.guard):
            if not (c.fv & bset) :
                continue
            it = find_ite(c)
            if it is not None:
                again = ("ite", it)
                break
            if c.op == "or" and any(hidden_eq(x, bset) for x in c.args):
                again = ("or", c)
                break
        if again is None:
            out.append(t)
            continue
        if again[0] == "ite":
            it = again[1]
            g1 = and_(replace(t.guard, {it: it.args[1]}), it.args[0])
            g2 = and_(replace(t.guard, {it: it.args[2]}), not_(it.args[0]))
            for g in (g1, g2):
                if g is not FALSE:
                    work.append(Term(t.coef, t.bvs, g, t.factors))
        else:
            c = again[1]
            rest = [x for x in conj(t.guard) if x is not c]
            prev = []
            for x in c.args:
                g = and_(*(rest + [x] + [not_(y) for y in prev]))
                prev.append(x)
                if g is not FALSE:
                    work.append(Term(t.coef, t.bvs, g, t.factors))
        if len(out) + len(work) > MAXTERMS:
            raise Blowup()
    return out


def hidden_eq(x, bset):
    if x.op == "eq":
        return bool(x.fv & bset)
    if x.op in ("and", "or"):
        return any(hidden_eq(y, bset) for y in x.args)
    if x.op == "not" and x.args[0].op != "eq":
        return hidden_eq(x.args[0], bset)
    return False


def int_args(e, out, bset, canon_all):
    """collect, in a deterministic order, the integer-sorted index arguments of e's apps"""
    # returns e with placeholders substituted
    if e.op == "app":
        args = []
        for a in e.args[1:]:
            if a.sort == "I" and (canon_all or (a.fv & bset)):
                v = var("%%%d" % len(out))
                out.append(a)
                args.append(v)
            else:
                args.append(int_args(a, out, bset, canon_all))
        if e.args[0] == "inv":
            return inv(args[0])
        return app(e.args[0], args, e.sort)
    if e.op == "toreal":
        a = e.args[0]
        if canon_all and a.op == "var" and a not in bset:
            return e
        if a.fv & bset:
            if a.op == "app":
                return toreal(int_args(a, out, bset, canon_all))
            v = var("%%%d" % len(out))
            out.append(a)
            return toreal(v)
        return e
    if e.op in ("var", "const"):
        return e
    if not (e.fv & bset) and not canon_all:
        return e
    if e.op == "add":
        r = const(e.args[0], e.sort)
        for t, k in e.args[1]:
            r = add(r, scale(int_args(t, out, bset, canon_all), k))
        return r
    if e.op == "mul":
        r = None
        for f in e.args:
            x = int_args(f, out, bset, canon_all)
            r = x if r is None else mul(r, x)
        return r
    return e


def skeleton_name(f):
    names = []
    for x in _ordered(f):
        if x.op == "app":
            names.append(str(x.args[0]))
        elif x.op == "var" and not x.args[0].startswith("%"):
            names.append(x.args[0])
    return (f.op, tuple(names))


def _ordered(e):
    yield e
    ch = children(e)
    for c in ch:
        for y in _ordered(c):
            yield y


def solve_eqs(bvs, guard, factors_args):
    """one-point elimination of bound variables using unit-coefficient equalities"""
    bvs = list(bvs)
    changed = True
    while changed and bvs:
        changed = False
        bset = set(bvs)
        for c in conj(guard):
            if c.op != "eq":
                continue
            e = c.args[0]
            if e.sort != "I":
                continue
            k0, d = lin(e)
            cand = [t for t in d if t in bset and abs(d[t]) == 1]
            for b in cand:
                rest = mklin(k0, {t: k for t, k in d.items() if t is not b}, "I")
                if b in rest.fv:
                    continue
                val = neg(rest) if d[b] == 1 else rest
                m = {b: val}
                guard = subst(guard, m)
                factors_args = [subst(x, m) for x in factors_args]
                bvs.remove(b)
                changed = True
                break
            if changed:
                break
        if guard is FALSE:
            break
    return bvs, guard, factors_args


class CTerm(object):
    """canonical term: coefficient, key, canonical index vars, leftover vars, guard"""
    __slots__ = ("coef", "key", "slots", "left", "guard", "perm", "lastterm")


def canonical(t, canon_all):
    """Term -> list of CTerm"""
    res = []
    # phase 1: eliminate bvs by explicit equalities
    for t in split_guard(t):
        bvs, guard, factors = solve_eqs(t.bvs, t.guard, list(t.factors))
        if guard is FALSE:
            continue
        bset = set(bvs)
        # after substitution the factors may have become reducible
        need = [f for f in factors if f.op in ("const", "add", "mul", "ite", "sum")]
        if need or find_ite(guard) is not None and any(find_ite(c) is not None and (c.fv & bset) for c in conj(guard)):
            prod = const(t.coef, "R")
            for f in factors:
                prod = mul(prod, toreal(f))
            for u in expand(ite(guard, prod, R0)):
                u2 = Term(u.coef, tuple(bvs) + u.bvs, u.guard, u.factors)
                res.extend(canonical(u2, canon_all))
            continue
        res.append(_canon1(t.coef, bvs, guard, factors, canon_all))
    return [r for r in res if r is not None]


def _canon1(coef, bvs, guard, factors, canon_all):
    bset = frozenset(bvs)
    outs = []
    sk = []
    # a variable that no factor mentions is named by the integer functions of the guard that do:
    # the term is multiplied by an arbitrary function of their arguments (1 is one of them)
    un = [b for b in bvs if UNITS[0] and not any(b in f.fv for f in factors)]
    if un:
        units = {}
        for c in conj(guard):
            for x in (walk(c) if c.op in ("eq", "le", "lt", "app") else ()):
                if x.op == "app" and x.sort in ("I", "B") and len(x.args) > 1 and any(b in x.fv for b in un) \
                        and all(a.sort == "I" for a in x.args[1:]):
                    units[app("unit!" + str(x.args[0]), x.args[1:], "R")] = 1
        factors = list(factors) + list(units)
    for f in factors:
        o = []
        s = int_args(f, o, bset, canon_all)
        sk.append((skeleton_name(s), s.id, s, o))
    sk.sort(key=lambda x: (repr(x[0]), x[1]))
    slots = []
    key = []
    for _, _, s, o in sk:
        key.append(s)
        slots.append(o)
    # canonical slot variables  $0, $1, ...
    m = 0
    args = []
    svars = []
    for o in slots:
        vs = []
        for a in o:
            v = var("$%d" % m)
            m += 1
            vs.append(v)
            args.append((v, a))
        svars.append(vs)
    g = and_(guard, *[eq(v, a) for v, a in args])
    if g is FALSE:
        return None
    bvs2, g, _ = solve_eqs(bvs, g, [])
    if g is FALSE:
        return None
    # leftover variables: name them through the arrays that use them in the guard
    left = list(bvs2)
    lefts = []
    if left:
        order = []
        lset = set(left)
        for v in left:
            names = sorted(set((x.args[0], i) for c in conj(g) for x in walk(c) if x.op == "app"
                               for i, a in enumerate(x.args[1:]) if v in a.fv))
            order.append((repr(names), v.id, v, tuple(names)))
        order.sort(key=lambda x: (x[0], x[1]))
        mm = {}
        for i, (_, _, v, names) in enumerate(order):
            w = var("@%d" % i)
            mm[v] = w
            lefts.append((w, names))
        g = subst(g, mm)
    ct = CTerm()
    ct.coef = coef
    ct.key = (tuple(s.id for s in key), tuple(n for _, n in lefts))
    ct.slots = svars
    ct.left = [w for w, _ in lefts]
    ct.guard = g
    ct.perm = tuple(s.id for s in key)
    ct.lastterm = key
    return ct


def _perms(ct):
    """variable permutations that leave the canonical key invariant"""
    groups = []
    ids = ct.perm
    i = 0
    while i < len(ids):
        j = i
        while j < len(ids) and ids[j] == ids[i]:
            j += 1
        if j - i > 1 and ct.slots[i]:
            groups.append([ct.slots[k] for k in range(i, j)])
        i = j
    lg = []
    names = ct.key[1]
    i = 0
    while i < len(names):
        j = i
        while j < len(names) and names[j] == names[i]:
            j += 1
        if j - i > 1:
            groups.append([[ct.left[k]] for k in range(i, j)])
        i = j
    maps = [{}]
    for g in groups:
        new = []
        for p in itertools.permutations(range(len(g))):
            for mp in maps:
                m2 = dict(mp)
                for a, b in zip(range(len(g)), p):
                    for va, vb in zip(g[a], g[b]):
                        m2[va] = vb
                new.append(m2)
        maps = new
        if len(maps) > 24:
            break
    return maps


class Result(object):
    def __init__(self, ok, status, detail="", model=None):
        self.ok, self.status, self.detail, self.model = ok, status, detail, model

    def __bool__(self):
        return self.ok


def _clear_denominators(e, cache=None):
    """multiply a real expression known to be compared with 0 by the denominators it
    contains; returns (numerator, list of denominators assumed non-zero)"""
    dens = []
    for _ in range(12):
        # maximal power of an inv-atom over the expanded terms
        ts = expand(e)
        pw = {}
        for t in ts:
            cnt = {}
            for f in t.factors:
                if f.op == "app" and f.args[0] == "inv":
                    cnt[f] = cnt.get(f, 0) + 1
            for f, c in cnt.items():
                if not (f.fv & set(t.bvs)):
                    pw[f] = max(pw.get(f, 0), c)
        if not pw:
            return e, dens
        f = max(pw, key=lambda x: x.id)
        p = pw[f]
        d = f.args[1]
        dens.append(d)
        total = R0
        for t in ts:
            fac = list(t.factors)
            c = 0
            while f in fac:
                fac.remove(f)
                c += 1
            x = const(t.coef, "R")
            for y in fac:
                x = mul(x, toreal(y))
            for _i in range(p - c):
                x = mul(x, d)
            total = add(total, sum_(t.bvs, t.guard, x) if t.bvs else ite(t.guard, x, R0))
        e = total
    return e, dens


def _bounds(guard, b):
    """(rest, lowers, uppers) when b occurs in guard only in linear bounds with unit coefficient"""
    rest, lo, hi = [], [], []
    for c in conj(guard):
        if b not in c.fv:
            rest.append(c)
            continue
        if c.op not in ("le", "lt") or c.args[0].sort != "I":
            return None
        k0, d = lin(c.args[0])
        k = d.get(b, 0)
        if abs(k) != 1:
            return None
        r = mklin(k0, {t: x for t, x in d.items() if t is not b}, "I")
        if b in r.fv:
            return None
        if c.op == "lt":
            r = add(r, I1)
        if k == 1:
            hi.append(neg(r))          # b + r <= 0
        else:
            lo.append(r)               # -b + r <= 0
    return rest, lo, hi


def _strict(d, hyps):
    """d is, as a polynomial, plus or minus the left side of a hypothesis  x < 0"""
    for h in hyps:
        for c in conj(h):
            if c.op == "lt" and c.args[0].sort == "R":
                x = c.args[0]
                if d.fv == x.fv and any(isconst(z) and cval(z) == 0 or _poly_zero(z) for z in (add(d, x), sub(d, x))):
                    return True
    return False


def _poly_zero(e):
    if has_sum(e) or find_ite(e) is not None:
        return False
    acc = {}
    for t in expand(e):
        if t.guard is not TRUE:
            return False
        k = tuple(sorted(f.id for f in t.factors))
        acc[k] = acc.get(k, 0) + t.coef
    return all(v == 0 for v in acc.values())


def count_rule(e, hyps, axioms=(), timeout_ms=2000):
    """sum over b in [lo, hi] of a term that does not mention b is (hi - lo + 1) times the term,
    where hi >= lo - 1; None when the rule applies nowhere"""
    used = False
    total = R0
    for t in expand(e):
        bvs, guard, factors = solve_eqs(t.bvs, t.guard, list(t.factors))
        extra = R1
        go = True
        while go:
            go = False
            for b in list(bvs):
                if any(b in f.fv for f in factors) or b in extra.fv:
                    continue
                r = _bounds(guard, b)
                if r is None:
                    continue
                rest, lo, hi = r
                base = list(axioms) + list(hyps) + rest

                def best(xs, upper):
                    xs = list(dict.fromkeys(xs))
                    for x in xs:
                        if all(x is y or solve.check(base + [_lt0(sub(y, x)) if upper else _lt0(sub(x, y))], timeout_ms) == "unsat"
                               for y in xs):
                            return x
                    return None
                l, h = best(lo, False), best(hi, True)
                if l is None or h is None:
                    continue
                n = add(sub(h, l), I1)
                if solve.check(base + [_lt0(n)], timeout_ms) != "unsat":
                    continue
                extra = mul(extra, toreal(n))
                guard = and_(*rest)
                bvs = [x for x in bvs if x is not b]
                go = used = True
                break
        x = mul(const(t.coef, "R"), extra)
        for f in factors:
            x = mul(x, toreal(f))
        total = add(total, sum_(bvs, guard, x) if bvs else ite(guard, x, R0))
    return total if used else None


UNITS = [False]     # counting terms are named by the functions in their guards
ENUM = {}          # number of an enumerated mask -> (free variables, shape, condition)


def _menum(x):
    """(mask, argument) of an enumeration term"""
    if x.op == "app" and isinstance(x.args[0], str) and x.args[0].startswith("menum"):
        return int(x.args[0][5:].split("_")[0])
    return None


def _mcount(x):
    if x.op == "app" and isinstance(x.args[0], str) and x.args[0].startswith("mcount"):
        return int(x.args[0][6:])
    return None


def has_enum(e):
    return any(_menum(x) is not None or _mcount(x) is not None for x in walk_deep(e))


def walk_deep(e):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def enum_rule(e, hyps, axioms=(), timeout_ms=4000):
    """sum over 0 <= t < count(mask) of f(t-th true element) is the sum over the elements p of the
    mask of f(p); count(mask) is that sum for f = 1"""
    done = []
    todo = list(expand(e))
    while todo:
        t = todo.pop()
        r = None
        for t1 in split_guard(t):
            r = _enum_step(t1, hyps, axioms, timeout_ms)
            if r is None:
                done.append(t1)
            else:
                todo.extend(r)
        if len(done) + len(todo) > MAXTERMS:
            raise Blowup()
    total = R0
    for t in done:
        x = const(t.coef, "R")
        for f in t.factors:
            x = mul(x, toreal(f))
        total = add(total, sum_(t.bvs, t.guard, x) if t.bvs else ite(t.guard, x, R0))
    return total


def _enum_step(t, hyps, axioms, timeout_ms):
    for i, f in enumerate(t.factors):
        g = f.args[0] if f.op == "toreal" else f
        k = _mcount(g)
        if k is not None and k in ENUM:
            nf, shape, cond = ENUM[k]
            ps = tuple(fresh("p") for _ in shape)
            c = and_(*[and_(ge(p, I0), lt(p, num_(s))) for p, s in zip(ps, shape)], cond(ps))
            return [Term(t.coef, t.bvs + ps, and_(t.guard, c), t.factors[:i] + t.factors[i + 1:])]
    bset = set(t.bvs)
    bvs, guard, factors = solve_eqs(t.bvs, t.guard, list(t.factors))
    bset = set(bvs)
    for x in _deep(list(factors) + conj(guard)):
        k = _menum(x)
        if k is None or k not in ENUM:
            continue
        a = x.args[-1]
        k0, d = lin(a)
        for b in [v for v in d if v in bset and abs(d[v]) == 1]:
            rest = mklin(k0, {v: c for v, c in d.items() if v is not b}, "I")
            if b in rest.fv or any(b in y.fv for y in x.args[1:-1]):
                continue
            tt = fresh("t")
            val = sub(tt, rest) if d[b] == 1 else sub(rest, tt)
            g2 = subst(guard, {b: val})
            fs = [subst(f, {b: val}) for f in factors]
            nf, shape, cond = ENUM[k]
            cnt = app("mcount%d" % k, x.args[1:1 + nf], "I")
            ps = tuple(fresh("p") for _ in shape)
            m = {app("menum%d_%d" % (k, n), x.args[1:1 + nf] + (tt,), "I"): p for n, p in enumerate(ps)}
            fs = [replace(f, m) for f in fs]
            cs = [replace(c, m) for c in conj(g2)]
            if any(tt in f.fv for f in fs):
                continue
            bound = [c for c in cs if tt in c.fv]
            keep = [c for c in cs if tt not in c.fv]
            inr = and_(ge(tt, I0), lt(tt, cnt))
            base = list(axioms) + list(hyps) + [c for c in keep if not (c.fv & set(ps))]
            if solve.check(base + bound + [not_(inr)], timeout_ms) != "unsat":
                continue
            if solve.check(base + [inr, not_(and_(*bound))], timeout_ms) != "unsat":
                continue
            c = and_(*[and_(ge(p, I0), lt(p, num_(s))) for p, s in zip(ps, shape)], cond(ps), *keep)
            return [Term(t.coef, tuple(v for v in bvs if v is not b) + ps, c, tuple(fs))]
    return None


def _deep(es):
    seen, out = set(), []
    for e in es:
        for x in walk_deep(e):
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out


def num_(s):
    return s if isinstance(s, E) else const(s)


def prove_zero(e, hyps, axioms=(), timeout_ms=10000, clear=True):
    """prove e == 0 for all values of the free variables satisfying hyps"""
    r = _prove_zero0(e, hyps, axioms, timeout_ms, clear)
    if not r.ok and has_sum(e):
        try:
            e2 = count_rule(e, hyps, axioms)
            if e2 is not None:
                r2 = _prove_zero0(e2, hyps, axioms, timeout_ms, clear)
                if r2.ok:
                    return r2
        except (Blowup, RecursionError):
            pass
    return r


def _prove_zero0(e, hyps, axioms=(), timeout_ms=10000, clear=True):
    if isconst(e):
        return Result(cval(e) == 0, "const", show(e))
    # facts  v == expr  among the hypotheses are substituted
    try:
        if clear and has_app(e, ("inv",)):
            e, dens = _clear_denominators(e)
            for d in dens:
                if _strict(d, list(axioms) + list(hyps)):
                    continue
                if solve.check(list(axioms) + list(hyps) + [eq(d, R0)], timeout_ms) != "unsat":
                    return Result(False, "unknown", "denominator %s may be 0" % show(d))
        if ENUM and has_enum(e):
            e = enum_rule(e, hyps, axioms)
            try:
                UNITS[0] = True
                for canon_all in (False, True):
                    r = _prove_zero(e, hyps, axioms, timeout_ms, canon_all)
                    if r.ok:
                        return r
            finally:
                UNITS[0] = False
        last = None
        for canon_all in (False, True):
            r = _prove_zero(e, hyps, axioms, timeout_ms, canon_all)
            if r.ok:
                return r
            if last is None or r.status == "sat":
                last = r
            if r.status == "blowup":
                break
        return last
    except Blowup:
        return Result(False, "unknown", "too many terms")
    except RecursionError:
        return Result(False, "unknown", "expression too deep")


def _prove_zero(e, hyps, axioms, timeout_ms, canon_all):
    groups = {}
    for t in expand(e):
        for ct in canonical(t, canon_all):
            groups.setdefault(ct.key, []).append(ct)
    bad = []
    failed = []
    for key, cts in groups.items():
        r, acc = _group_zero(cts, hyps, axioms, timeout_ms)
        if r is None:
            continue
        failed.append((key, cts, r, acc))
    # groups over the same factors that differ in the number of summation variables
    fk = {}
    for x in failed:
        fk.setdefault(x[0][0], []).append(x)
    for k, xs in fk.items():
        if len(xs) > 1 and _lifted(xs, hyps, axioms, timeout_ms):
            continue
        key, cts, r, acc = xs[0]
        sk = " * ".join(show(s) for s in cts[0].lastterm) or "1"
        bad.append((r, sk, acc))
        break
    if not bad:
        return Result(True, "unsat")
    r, sk, acc = bad[0]
    det = "coefficient of [%s] does not vanish: %s" % (
        sk, " + ".join("%s*[%s]" % (c, show(g)) for g, c in list(acc.items())[:6]))
    if r[1] is not None:
        det += " | model: " + str(r[1]).replace("\n", " ")[:1500]
    return Result(False, r[0], det, r[1])


def _group_zero(cts, hyps, axioms, timeout_ms):
    # syntactic cancellation first
    acc = {}
    for ct in cts:
        acc[ct.guard] = acc.get(ct.guard, 0) + ct.coef
    acc = {g: c for g, c in acc.items() if c != 0}
    if not acc:
        return None, acc
    r = _pointwise(acc, hyps, axioms, timeout_ms)
    if r[0] == "unsat":
        return None, acc
    perms = _perms(cts[0])
    if len(perms) > 1:
        acc2 = {}
        for g, c in acc.items():
            for m in perms:
                g2 = subst(g, m)
                acc2[g2] = acc2.get(g2, 0) + c
        acc2 = {g: c for g, c in acc2.items() if c != 0}
        if not acc2:
            return None, acc
        r = _pointwise(acc2, hyps, axioms, timeout_ms)
        if r[0] == "unsat":
            return None, acc
    return r, acc


def _lifted(xs, hyps, axioms, timeout_ms):
    """terms with fewer summation variables are rewritten with one more,  t = sum_w [w == e] t,
    choosing e among the index terms at which the term uses the same arrays"""
    xs = sorted(xs, key=lambda x: -len(x[0][1]))
    top = xs[0]
    names = top[0][1]
    choices = [[list(top[1])]]
    ncomb = 1
    classes = {}
    for key, cts, _, _ in xs[1:]:
        if len(key[1]) == len(names):
            if key[1] != names:
                return False
            choices.append([list(cts)])
            continue
        # positions of the lower term's variables in the larger one
        pos, used = [], set()
        for nm in key[1]:
            p = next((i for i, x in enumerate(names) if x == nm and i not in used), None)
            if p is None:
                return False
            used.add(p)
            pos.append(p)
        missing = [i for i in range(len(names)) if i not in used]
        for ct in cts:
            m = {var("@%d" % j): var("@%d" % p) for j, p in enumerate(pos)}
            g = subst(ct.guard, m)
            opts = [g]
            cl = []
            for i in missing:
                cands = _cands(g, names[i], top[1], i)
                # an index that is not one of the factors' own is the natural choice
                free = [e for e in cands if not _is_slot(e, g, ct)]
                cands = free or cands
                cl.append(tuple(_slot_of(e, g, ct) for e in cands))
                opts = [and_(o, eq(var("@%d" % i), e)) for o in opts for e in cands]
            alts = []
            for o in opts[:12]:
                c2 = CTerm()
                c2.coef, c2.key, c2.slots, c2.left, c2.guard = ct.coef, top[0], ct.slots, top[1][0].left, o
                c2.perm, c2.lastterm = ct.perm, ct.lastterm
                alts.append(c2)
            if not alts:
                return False
            # terms of the same form make the same choice
            k2 = (key, tuple(cl), len(alts)) if len(alts) > 1 else (key, "one")
            if k2 in classes:
                for l, a in zip(classes[k2], alts):
                    l.append(a)
            else:
                classes[k2] = [[a] for a in alts]
    for k2, alts in classes.items():
        choices.append(alts)
        ncomb *= len(alts)
        if ncomb > 64:
            return False
    for comb in itertools.product(*choices):
        cts = [c for l in comb for c in l]
        # the slot variables of the factors keep their meaning: the factor part is the same
        r, _ = _group_zero(cts, hyps, axioms, timeout_ms)
        if r is None:
            return True
    return False


def _slots(g, ct):
    out = {}
    for vs in ct.slots:
        for v in vs:
            out.setdefault(v, v)
            for c in conj(g):
                if c.op == "eq" and v in c.args[0].fv and c.args[0].sort == "I":
                    k0, d = lin(c.args[0])
                    if abs(d.get(v, 0)) == 1:
                        rest = mklin(k0, {t: k for t, k in d.items() if t is not v}, "I")
                        out.setdefault(neg(rest) if d[v] == 1 else rest, v)
    return out


def _is_slot(e, g, ct):
    return e in _slots(g, ct)


def _slot_of(e, g, ct):
    v = _slots(g, ct).get(e)
    return v.args[0] if v is not None else "-"


def _cands(g, names, tops, i):
    out = []
    if names:
        for x in walk(g):
            if x.op == "app":
                for j, a in enumerate(x.args[1:]):
                    if (x.args[0], j) in names and a not in out:
                        out.append(a)
    else:
        w = var("@%d" % i)
        for ct in tops:
            for c in conj(ct.guard):
                if c.op in ("le", "lt") and w in c.fv:
                    k0, d = lin(c.args[0])
                    if abs(d.get(w, 0)) == 1:
                        rest = mklin(k0, {t: k for t, k in d.items() if t is not w}, "I")
                        v = neg(rest) if d[w] == 1 else rest
                        for e in (v, sub(v, I1), add(v, I1)):
                            if w not in e.fv and e not in out:
                                out.append(e)
    return out


def _pointwise(acc, hyps, axioms, timeout_ms):
    # sum of coef*[guard] != 0 ?
    if all(c > 0 for c in acc.values()) or all(c < 0 for c in acc.values()):
        q = [or_(*acc.keys())]
    else:
        s = const(0, "R")
        for g, c in acc.items():
            s = add(s, ite(g, const(c, "R"), R0))
        q = [ne(s, R0)]
    r, m = solve.check(list(axioms) + list(hyps) + q, timeout_ms, want_model=True)
    return r, m


def prove_eq(a, b, hyps, axioms=(), timeout_ms=10000):
    if a is b:
        return Result(True, "syntactic")
    if a.sort == "B" or b.sort == "B":
        if has_sum(a) or has_sum(b):
            return Result(False, "unknown", "boolean with sums")
        r, m = solve.check(list(axioms) + list(hyps) + [not_(eq(a, b))], timeout_ms, want_model=True, use_cvc5=True)
        return Result(r == "unsat", r, "%s  !=  %s" % (show(a)[:300], show(b)[:300]), m)
    d = sub(toreal(a), toreal(b)) if not (a.sort == "I" and b.sort == "I") else sub(a, b)
    if not has_sum(d):
        # plain SMT first for sum-free goals
        r = prove_zero(d, hyps, axioms, timeout_ms)
        if r.ok:
            return r
        r2, m = solve.check(list(axioms) + list(hyps) + [ne(d, const(0, d.sort))], timeout_ms, want_model=True, use_cvc5=True)
        if r2 == "unsat":
            return Result(True, "unsat")
        if r2 == "sat":
            return Result(False, "sat", "%s  !=  %s | model: %s" % (show(a)[:500], show(b)[:500], str(m).replace("\n", " ")[:1500]), m)
        return Result(False, r.status, r.detail, r.model)
    return prove_zero(d, hyps, axioms, timeout_ms)


def has_sum(e):
    for x in walk(e):
        if x.op == "sum":
            return True
    return False
