"""Hash-consed expression language of the verifier.

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans).  Complex numbers are
pairs of reals (class CV).  Linear combinations are kept in normal form, so two equal
linear expressions are the same object."""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class E(object):
    __slots__ = ("op", "args", "sort", "id", "fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic expression used as a Python bool: %s" % show(self)[:200])

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(op, args, sort, fv):
    key = (op, args, sort)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.sort, e.fv = op, args, sort, fv
        e.id = next(_ids)
        _table[key] = e
    return e


_EMPTY = frozenset()


def isE(x):
    return isinstance(x, E)


def const(v, sort=None):
    if sort is None:
        if isinstance(v, bool):
            sort = "B"
        elif isinstance(v, int):
            sort = "I"
        else:
            sort = "R"
    if sort == "B":
        return _mk("const", (bool(v), "b"), "B", _EMPTY)
    if sort == "I":
        return _mk("const", (Fraction(int(v)), "i"), "I", _EMPTY)
    return _mk("const", (Fraction(v), "r"), "R", _EMPTY)


TRUE = const(True)
FALSE = const(False)
I0 = const(0)
I1 = const(1)
R0 = const(0, "R")
R1 = const(1, "R")

_fresh = itertools.count()


def var(name, sort="I"):
    e = _mk("var", (name,), sort, _EMPTY)
    if not e.fv:
        e.fv = frozenset((e,))
    return e


def fresh(name, sort="I"):
    return var("%s!%d" % (name, next(_fresh)), sort)


def _fv(args):
    r = _EMPTY
    for a in args:
        if a.fv:
            r = r | a.fv
    return r


def app(fname, args, sort="R"):
    args = tuple(args)
    return _mk("app", (fname,) + args, sort, _fv(args))


def isconst(e):
    return e.op == "const"


def cval(e):
    return e.args[0]


# ---------------------------------------------------------------- linear arithmetic

def lin(e):
    """(constant, {term: coefficient})"""
    if e.op == "const":
        return e.args[0], {}
    if e.op == "add":
        return e.args[0], dict(e.args[1])
    return Fraction(0), {e: Fraction(1)}


def mklin(c, d, sort):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c, sort)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda tk: tk[0].id)
    items = tuple(items)
    return _mk("add", (Fraction(c), items), sort, _fv([t for t, _ in items]))


def _coerce2(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == "R":
        return a, toreal(b)
    if b.sort == "R":
        return toreal(a), b
    if a.sort == "B":
        return _coerce2(b2i(a), b)
    if b.sort == "B":
        return _coerce2(a, b2i(b))
    return a, b


def b2i(b):
    if b.sort == "B":
        return ite(b, I1, I0)
    return b


def add(a, b):
    a, b = _coerce2(a, b)
    if a.sort == "B":
        a, b = b2i(a), b2i(b)
    ca, da = lin(a)
    cb, db = lin(b)
    if len(da) < len(db):
        ca, da, cb, db = cb, db, ca, da
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return mklin(ca + cb, da, a.sort)


def scale(a, k):
    k = Fraction(k)
    if k == 1:
        return a
    if a.sort == "I" and k.denominator != 1:
        a = toreal(a)
    ca, da = lin(a)
    return mklin(ca * k, {t: c * k for t, c in da.items()}, a.sort)


def neg(a):
    return scale(b2i(a), -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = _coerce2(a, b)
    if a.sort == "B":
        a, b = b2i(a), b2i(b)
    if a.op == "const":
        return scale(b, cval(a))
    if b.op == "const":
        return scale(a, cval(b))
    # pull a common scalar out of single-term linear forms
    fa, ka = _factors(a)
    fb, kb = _factors(b)
    fs = sorted(fa + fb, key=lambda e: e.id)
    fs = _cancel_inv(fs)
    if len(fs) == 0:
        return const(ka * kb, a.sort)
    if len(fs) == 1:
        return scale(fs[0], ka * kb)
    m = _mk("mul", tuple(fs), a.sort, _fv(fs))
    return scale(m, ka * kb)


def _cancel_inv(fs):
    return fs


def _factors(e):
    if e.op == "mul":
        return list(e.args), Fraction(1)
    if e.op == "add" and e.args[0] == 0 and len(e.args[1]) == 1:
        t, k = e.args[1][0]
        f, k2 = _factors(t)
        return f, k * k2
    return [e], Fraction(1)


def inv(a):
    """1/a; meaning unspecified at 0"""
    a = toreal(a)
    if a.op == "const":
        if cval(a) == 0:
            return app("DIV0", (), "R")
        return const(1 / cval(a), "R")
    if a.op == "app" and a.args[0] == "inv":
        return a.args[1]
    fs, k = _factors(a)
    if len(fs) == 1:
        return scale(app("inv", (fs[0],), "R"), 1 / k)
    r = const(1 / k, "R")
    for f in fs:
        r = mul(r, inv(f))
    return r


def div(a, b):
    return mul(toreal(a), inv(b))


def toreal(a):
    if a.sort == "R":
        return a
    if a.sort == "B":
        a = b2i(a)
    if a.op == "const":
        return const(cval(a), "R")
    if a.op == "add":
        return mklin(a.args[0], {toreal(t): k for t, k in a.args[1]}, "R")
    if a.op == "mul":
        r = R1
        for f in a.args:
            r = mul(r, toreal(f))
        return r
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    if a.op == "sum":
        return sum_(a.args[0], a.args[1], toreal(a.args[2]))
    return _mk("toreal", (a,), "R", a.fv)


def ite(c, a, b):
    if a.sort != b.sort:
        a, b = _coerce2(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return _mk("ite", (c, a, b), a.sort, c.fv | a.fv | b.fv)


# ---------------------------------------------------------------- booleans

def and_(*xs):
    out = []
    seen = set()
    stack = list(xs)
    i = 0
    flat = []
    for x in xs:
        if x.op == "and":
            flat.extend(x.args)
        else:
            flat.append(x)
    for x in flat:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x in seen:
            continue
        if not_(x) in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.id)
    out = tuple(out)
    return _mk("and", out, "B", _fv(out))


def or_(*xs):
    flat = []
    for x in xs:
        if x.op == "or":
            flat.extend(x.args)
        else:
            flat.append(x)
    out = []
    seen = set()
    for x in flat:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x in seen:
            continue
        if not_(x) in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.id)
    out = tuple(out)
    return _mk("or", out, "B", _fv(out))


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == "le" and x.args[0].sort == "I":
        # not (e <= 0)  <=>  -e + 1 <= 0
        return _le0(add(neg(x.args[0]), I1))
    if x.op == "le":
        return _lt0(neg(x.args[0]))
    if x.op == "lt":
        return _le0(neg(x.args[0]))
    return _mk("not", (x,), "B", x.fv)


def implies(a, b):
    return or_(not_(a), b)


def _primitive(e):
    """divide an integer linear form by the gcd of its coefficients (keeps sign)"""
    c, d = lin(e)
    from math import gcd
    g = 0
    den = 1
    for k in d.values():
        den = den * k.denominator // gcd(den, k.denominator)
    for k in d.values():
        g = gcd(g, int(abs(k * den)))
    return c, d, den, g


def _le0(e):
    if e.op == "const":
        return const(cval(e) <= 0)
    if e.sort == "I":
        c, d, den, g = _primitive(e)
        if g > 1 and den == 1:
            import math
            c = -((-c) // g) if True else c
            # sum(k_i t_i) <= -c   =>  sum(k_i/g t_i) <= floor(-c0/g)
            c0 = lin(e)[0]
            c = -((-c0) // g)
            e = mklin(c, {t: k / g for t, k in d.items()}, "I")
    return _mk("le", (e,), "B", e.fv)


def _lt0(e):
    if e.op == "const":
        return const(cval(e) < 0)
    if e.sort == "I":
        return _le0(add(e, I1))
    return _mk("lt", (e,), "B", e.fv)


def _eq0(e):
    if e.op == "const":
        return const(cval(e) == 0)
    c, d = lin(e)
    first = min(d, key=lambda t: t.id)
    if e.sort == "I":
        c, d, den, g = _primitive(e)
        if g > 1:
            if c % g != 0:
                return FALSE
            e = mklin(c / g, {t: k / g for t, k in d.items()}, "I")
            c, d = lin(e)
        if d[first] < 0:
            e = neg(e)
    else:
        e = scale(e, 1 / d[first])
    return _mk("eq", (e,), "B", e.fv)


def le(a, b):
    a, b = _coerce2(b2i(a), b2i(b))
    return _le0(sub(a, b))


def lt(a, b):
    a, b = _coerce2(b2i(a), b2i(b))
    return _lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _coerce2(b2i(a), b2i(b))
    return _eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def eabs(a):
    if a.op == "const":
        return const(abs(cval(a)), a.sort)
    return ite(_le0(neg(a)), a, neg(a))


def emin(a, b):
    a, b = _coerce2(a, b)
    return ite(le(a, b), a, b)


def emax(a, b):
    a, b = _coerce2(a, b)
    return ite(ge(a, b), a, b)


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        if isconst(a) and isconst(b) and cval(b) != 0:
            return const(int(cval(a) // cval(b)), "I")
        if b is I1:
            return a
        if isconst(b) and cval(b) > 0:
            m = cval(b)
            c, d = lin(a)
            q = {t: k / m for t, k in d.items() if (k / m).denominator == 1}
            r = {t: k for t, k in d.items() if t not in q}
            qc = c // m
            c = c - qc * m
            outer = mklin(qc, q, "I")
            inner = mklin(c, r, "I")
            if isconst(inner):
                return outer
            return add(outer, _mk("fdiv", (inner, b), "I", inner.fv | b.fv))
        return _mk("fdiv", (a, b), "I", a.fv | b.fv)
    return app("rfloordiv", (toreal(a), toreal(b)), "R")


def mod(a, b):
    if a.sort == "I" and b.sort == "I":
        if isconst(a) and isconst(b) and cval(b) != 0:
            return const(int(cval(a) % cval(b)), "I")
        if isconst(b) and cval(b) > 0:
            return sub(a, scale(floordiv(a, b), cval(b)))
        return _mk("mod", (a, b), "I", a.fv | b.fv)
    return app("rmod", (toreal(a), toreal(b)), "R")


def sum_(bvs, guard, body):
    bvs = tuple(bvs)
    if guard is FALSE:
        return const(0, body.sort)
    if isconst(body) and cval(body) == 0:
        return body
    if not bvs:
        return ite(guard, body, const(0, body.sort))
    if body.op == "sum" :
        return sum_(bvs + body.args[0], and_(guard, body.args[1]), body.args[2])
    return _mk("sum", (bvs, guard, body), body.sort, (guard.fv | body.fv) - frozenset(bvs))


# ---------------------------------------------------------------- substitution

def subst(e, m, _cache=None):
    """simultaneous substitution of variables (dict var E -> E).  Bound variables are
    globally fresh, so capture cannot happen as long as they are not in the range."""
    if not m:
        return e
    if _cache is None:
        _cache = {}
    keys = frozenset(m)

    def go(e):
        if not (e.fv & keys):
            return e
        r = _cache.get(e)
        if r is not None:
            return r
        r = rebuild(e, go)
        _cache[e] = r
        return r
    return go(e)


def rebuild(e, go):
    op = e.op
    if op == "var" or op == "const":
        return _SUBVAR(e, go)
    if op == "add":
        r = const(e.args[0], e.sort)
        for t, k in e.args[1]:
            r = add(r, scale(go(t), k))
        return r
    if op == "mul":
        r = None
        for f in e.args:
            g = go(f)
            r = g if r is None else mul(r, g)
        return r
    if op == "app":
        a = [go(x) for x in e.args[1:]]
        if e.args[0] == "inv":
            return inv(a[0])
        if e.args[0] in REBUILD:
            return REBUILD[e.args[0]](*a)
        return app(e.args[0], a, e.sort)
    if op == "ite":
        return ite(go(e.args[0]), go(e.args[1]), go(e.args[2]))
    if op == "and":
        return and_(*[go(x) for x in e.args])
    if op == "or":
        return or_(*[go(x) for x in e.args])
    if op == "not":
        return not_(go(e.args[0]))
    if op == "le":
        return _le0(go(e.args[0]))
    if op == "lt":
        return _lt0(go(e.args[0]))
    if op == "eq":
        return _eq0(go(e.args[0]))
    if op == "toreal":
        return toreal(go(e.args[0]))
    if op == "fdiv":
        return floordiv(go(e.args[0]), go(e.args[1]))
    if op == "mod":
        return mod(go(e.args[0]), go(e.args[1]))
    if op == "sum":
        return sum_(e.args[0], go(e.args[1]), go(e.args[2]))
    if op == "forall":
        return forall(e.args[0], go(e.args[1]))
    raise NotImplementedError(op)


REBUILD = {}


class _Done(Exception):
    pass


def _SUBVAR(e, go):
    return e


def subst_vars(e, m):
    """substitution where m maps variables"""
    cache = {}
    keys = frozenset(m)

    def go(e):
        if not (e.fv & keys):
            return e
        r = cache.get(e)
        if r is not None:
            return r
        if e.op == "var":
            r = m.get(e, e)
        elif e.op == "sum" and (keys & frozenset(e.args[0])):
            m2 = {k: v for k, v in m.items() if k not in e.args[0]}
            r = sum_(e.args[0], subst_vars(e.args[1], m2), subst_vars(e.args[2], m2))
        else:
            r = rebuild(e, go)
        cache[e] = r
        return r
    return go(e)


subst = subst_vars


def rename_bound(e):
    """fresh names for the bound variables of a top-level sum"""
    if e.op != "sum":
        return e
    m = {b: fresh("b", b.sort) for b in e.args[0]}
    return sum_([m[b] for b in e.args[0]], subst(e.args[1], m), subst(e.args[2], m))


def forall(bvs, body):
    if body.op == "const":
        return body
    return _mk("forall", (tuple(bvs), body), "B", body.fv - frozenset(bvs))


def map_apps(e, f):
    """rewrite every app node bottom-up: f(fname, args, sort) -> E or None"""
    cache = {}

    def go(e):
        r = cache.get(e)
        if r is not None:
            return r
        if e.op in ("var", "const"):
            r = e
        elif e.op == "app":
            args = [go(x) for x in e.args[1:]]
            r = f(e.args[0], args, e.sort)
            if r is None:
                if e.args[0] == "inv":
                    r = inv(args[0])
                elif e.args[0] in REBUILD:
                    r = REBUILD[e.args[0]](*args)
                else:
                    r = app(e.args[0], args, e.sort)
        else:
            r = rebuild(e, go)
        cache[e] = r
        return r
    return go(e)


def walk(e, seen=None):
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in children(x):
            stack.append(y)


def children(e):
    op = e.op
    if op in ("var", "const"):
        return ()
    if op == "add":
        return [t for t, _ in e.args[1]]
    if op == "app":
        return e.args[1:]
    if op == "sum":
        return (e.args[1], e.args[2])
    if op == "forall":
        return (e.args[1],)
    return e.args


def has_app(e, names):
    for x in walk(e):
        if x.op == "app" and x.args[0] in names:
            return True
    return False


def app_names(e):
    return set(x.args[0] for x in walk(e) if x.op == "app")


# ---------------------------------------------------------------- printing

def show(e, depth=0):
    if depth > 40:
        return "..."
    s = lambda x: show(x, depth + 1)
    op = e.op
    if op == "const":
        return str(e.args[0])
    if op == "var":
        return e.args[0]
    if op == "add":
        parts = []
        for t, k in e.args[1]:
            parts.append(("%s" % s(t)) if k == 1 else ("-%s" % s(t) if k == -1 else "%s*%s" % (k, s(t))))
        if e.args[0] != 0:
            parts.append(str(e.args[0]))
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        return "*".join(s(x) for x in e.args)
    if op == "app":
        return "%s(%s)" % (e.args[0], ", ".join(s(x) for x in e.args[1:]))
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(s(x) for x in e.args)
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(x) for x in e.args) + ")"
    if op == "not":
        return "!" + s(e.args[0])
    if op in ("le", "lt", "eq"):
        return "%s %s 0" % (s(e.args[0]), {"le": "<=", "lt": "<", "eq": "=="}[op])
    if op == "toreal":
        return s(e.args[0])
    if op == "sum":
        return "SUM{%s | %s}(%s)" % (",".join(b.args[0] for b in e.args[0]), s(e.args[1]), s(e.args[2]))
    if op == "forall":
        return "FORALL{%s}(%s)" % (",".join(b.args[0] for b in e.args[0]), s(e.args[1]))
    return "%s(%s)" % (op, ", ".join(s(x) for x in e.args))


# ---------------------------------------------------------------- complex pairs

class CV(object):
    """complex value: a pair of real expressions"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = toreal(re), toreal(im)

    def __repr__(self):
        return "(%s) + i(%s)" % (self.re, self.im)

    def __deepcopy__(self, memo):
        return self


def num(v):
    """python number / E / CV -> E or CV"""
    if isinstance(v, (E, CV)):
        return v
    if isinstance(v, bool):
        return const(v)
    if isinstance(v, int):
        return const(v)
    if isinstance(v, Fraction):
        return const(v, "R")
    if isinstance(v, float):
        if v != v:
            return app("NAN", (), "R")
        if v in (float("inf"), float("-inf")):
            r = app("INF", (), "R")
            return r if v > 0 else neg(r)
        return const(Fraction(repr(v)), "R")
    if isinstance(v, complex):
        return CV(num(v.real), num(v.imag))
    raise TypeError("not a number: %r" % (v,))


def cplx(v):
    v = num(v)
    return v if isinstance(v, CV) else CV(toreal(v), R0)


def n_add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = cplx(a), cplx(b)
        return CV(add(a.re, b.re), add(a.im, b.im))
    return add(a, b)


def n_neg(a):
    a = num(a)
    if isinstance(a, CV):
        return CV(neg(a.re), neg(a.im))
    return neg(a)


def n_sub(a, b):
    return n_add(a, n_neg(b))


def n_mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, CV) or isinstance(b, CV):
        if not isinstance(a, CV):
            return CV(mul(a, b.re), mul(a, b.im))
        if not isinstance(b, CV):
            return CV(mul(a.re, b), mul(a.im, b))
        return CV(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    return mul(a, b)


def n_div(a, b):
    a, b = num(a), num(b)
    if isinstance(b, CV):
        d = inv(add(mul(b.re, b.re), mul(b.im, b.im)))
        a = cplx(a)
        c = n_mul(a, CV(b.re, neg(b.im)))
        return CV(mul(c.re, d), mul(c.im, d))
    if isinstance(a, CV):
        i = inv(b)
        return CV(mul(a.re, i), mul(a.im, i))
    return div(a, b)


def n_conj(a):
    a = num(a)
    if isinstance(a, CV):
        return CV(a.re, neg(a.im))
    return a


def n_real(a):
    a = num(a)
    return a.re if isinstance(a, CV) else a


def n_imag(a):
    a = num(a)
    return a.im if isinstance(a, CV) else const(0, "R")


def n_ite(c, a, b):
    a, b = num(a), num(b)
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = cplx(a), cplx(b)
        return CV(ite(c, a.re, b.re), ite(c, a.im, b.im))
    return ite(c, a, b)


def n_subst(v, m):
    if isinstance(v, CV):
        return CV(subst(v.re, m), subst(v.im, m))
    return subst(v, m)


def n_map(v, f):
    if isinstance(v, CV):
        return CV(f(v.re), f(v.im))
    return f(v)
