"""True facts about elementary functions, instantiated for the terms that occur (trusted mathematics)."""
from fractions import Fraction
from .expr import *
from .expr import isconst, cval


def terms(es, names):
    out = []
    for e in es:
        for x in walk(e):
            if x.op == "app" and x.args[0] in names and x not in out:
                out.append(x)
    return out


def double(x, y):
    """x is syntactically 2*y"""
    return sub(x, scale(y, 2)) is R0


def instances(es):
    """facts on the cos, exp and sqrt terms of the expressions es"""
    pi = app("pi", (), "R")
    ax = []
    if any(has_app(e, ("pi",)) for e in es):
        ax += [gt(pi, const(Fraction(314159, 100000), "R")), lt(pi, const(Fraction(314160, 100000), "R"))]
    cs = [(x, x.args[1]) for x in terms(es, ("cos",))]
    for x, a in cs:
        ax += [le(x, R1), ge(x, const(-1, "R"))]
        ax.append(implies(eq(a, R0), eq(x, R1)))
        ax.append(implies(or_(eq(a, pi), eq(a, neg(pi))), eq(x, const(-1, "R"))))
        for y, b in cs:
            if x is not y:
                if double(a, b):
                    ax.append(eq(x, sub(scale(mul(y, y), 2), R1)))
                if not double(a, b) and not double(b, a):
                    # even, decreasing on [0, pi]
                    for u in (a, neg(a)):
                        for v in (b, neg(b)):
                            ax.append(implies(and_(ge(u, R0), le(u, v), le(v, pi)), ge(x, y)))
                    # a half turn changes the sign
                    ax.append(implies(or_(eq(sub(a, b), pi), eq(sub(b, a), pi)), eq(x, neg(y))))
    for x in terms(es, ("trunc",)):
        v, t = x.args[1], toreal(x)
        ax.append(and_(implies(ge(v, R0), and_(le(t, v), lt(v, add(t, R1)))), implies(le(v, R0), and_(ge(t, v), gt(add(v, R1), t)))))
    for nm, lo in (("exp", None), ("sqrt", R0)):
        ts = [(x, x.args[1]) for x in terms(es, (nm,))]
        for x, a in ts:
            if nm == "exp":
                ax += [gt(x, R0), implies(le(a, R0), le(x, R1)), implies(eq(a, R0), eq(x, R1))]
            else:
                ax.append(implies(ge(a, R0), and_(ge(x, R0), eq(mul(x, x), a))))
            for y, b in ts:
                if x is not y:
                    c = le(a, b) if lo is None else and_(le(lo, a), le(a, b))
                    ax.append(implies(c, le(x, y)))
    return ax
