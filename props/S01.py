"""S01: simulated particles never leave the box and move by the stated law."""
import ast
from props.common import *
from props.carry import WhileLoop, Window, Stream
from pyvc.npmodel import elementwise, Builtin
from pyvc.mathax import terms

SIM = "cddm.sim."
MIRROR = "cddm._sim_nb.mirror"


# ------------------------------------------------------------------ the boundary rule
def mirror_head(x0, x1):
    L = sub(x1, x0)

    def head(v):
        k = fresh("boxes")
        x = add(v, mul(toreal(k), L))
        return x, [implies(and_(ge(v, x0), lt(v, x1)), eq(k, I0)),
                   implies(lt(v, x0), lt(x, x1)), implies(ge(v, x1), ge(x, x0))]

    def step(v, w):
        out = or_(lt(v, x0), ge(v, x1))
        inside = and_(ge(w, x0), lt(w, x1))
        return [("the loop ends inside the box", out),
                ("one iteration moves by one box length towards the box", or_(and_(lt(v, x0), eq(w, add(v, L)), lt(w, x1)), and_(ge(v, x1), eq(w, sub(v, L)), ge(w, x0)))),
                ("every iteration comes nearer by a box length (it ends)", or_(inside, and_(lt(v, x0), lt(w, x0), ge(w, add(v, L))), and_(ge(v, x1), ge(w, x1), le(w, sub(v, L)))))]
    return head, step


def lemma(S):
    """the loop states are closed under the step: k becomes k+1 below the box and k-1 above it"""
    x0, x1, v, k = var("x0", "R"), var("x1", "R"), var("v", "R"), var("k")
    S.assume(lt(x0, x1))
    L = sub(x1, x0)

    def inv(x, k):
        return and_(eq(x, add(v, mul(toreal(k), L))), implies(and_(ge(v, x0), lt(v, x1)), eq(k, I0)),
                    implies(lt(v, x0), lt(x, x1)), implies(ge(v, x1), ge(x, x0)))
    x = var("x", "R")
    S.assume(inv(x, k))
    S.prove("entry", inv(v, I0))
    for nm, c, d in (("below", lt(x, x0), 1), ("above", ge(x, x1), -1)):
        n = len(S.ex.pc)
        S.assume(c)
        y, m = add(x, scale(L, d)), add(k, const(d))
        S.prove("moves by whole boxes (%s)" % nm, eq(y, add(v, mul(toreal(m), L))))
        S.prove("stays on its side (%s)" % nm, and_(implies(lt(v, x0), lt(y, x1)), implies(ge(v, x1), ge(y, x0))))
        S.prove("untouched inside (%s)" % nm, not_(and_(ge(v, x0), lt(v, x1))))
        del S.ex.pc[n:]


def mirror(S):
    x, x0, x1 = var("x", "R"), var("x0", "R"), var("x1", "R")
    S.assume(lt(x0, x1))
    w = WhileLoop(S, *mirror_head(x0, x1))
    r = num(S.ex.run_body(S.f(MIRROR), [x, x0, x1], {}))
    for c in modulo([r]):
        S.assume(c)
    S.prove("inside the half-open box", and_(ge(r, x0), lt(r, x1)))
    S.prove("a coordinate inside is untouched", implies(and_(ge(x, x0), lt(x, x1)), eq(r, x)))
    ks = [v for v in walk(r) if v.op == "var" and v.args[0].startswith("boxes")] + [app("rmodk", a.args[1:], "I") for a in terms([r], ("rmod",))] + [I0]
    S.prove("moved by a whole number of box lengths", or_(*[eq(sub(r, x), scale(mul(toreal(k), sub(x1, x0)), s)) for k in ks for s in (1, -1)]))


def modulo(es):
    """facts on the real remainder: a = k b + r with 0 <= r < b"""
    out = []
    for t in terms(es, ("rmod",)):
        a, b = t.args[1], t.args[2]
        k = app("rmodk", (a, b), "I")
        out.append(implies(gt(b, R0), and_(eq(a, add(mul(toreal(k), b), t)), ge(t, R0), lt(t, b))))
        out.append(implies(and_(gt(b, R0), ge(a, R0), lt(a, b)), eq(k, I0)))
    return out


class Box(object):
    """mirror by its contract: box(x, x0, x1), element by element"""
    def __init__(self, S):
        self.S = S
        S.ex.contracts[MIRROR] = self

    def __call__(self, ex, f, args, kw):
        if len(args) != 3 or kw:
            return NotImplemented
        ex.used_contracts.add(MIRROR)
        args = [ex.builtins["asarray"](a) if isinstance(a, (list, tuple)) else a for a in args]
        return elementwise(ex, lambda x, a, b: app("box", (toreal(x), toreal(a), toreal(b)), "R"), args, "F")


def boxed(x, a, b):
    return app("box", (x, a, b), "R")


def facts(es):
    """the contract of mirror for the box terms of es"""
    out = []
    for t in terms(es, ("box",)):
        x, a, b = t.args[1:]
        out.append(implies(lt(a, b), and_(ge(t, a), lt(t, b))))
        out.append(implies(and_(ge(x, a), lt(x, b)), eq(t, x)))
    return out


def know(S, *es):
    for c in facts(es):
        S.assume(c)


# ------------------------------------------------------------------ the walk
class Setup(object):
    """the arguments of a walk of P particles in a box h x w"""
    def __init__(self, S, vel, delta, dt):
        self.S = S
        ex = S.ex
        self.P = S.dims("P", lo=0)
        self.h, self.w = S.dims("h", "w", lo=1)
        self.count = S.dims("count", lo=0)
        self.k = {"shape": (self.h, self.w), "count": self.count}
        self.dt = R1
        if dt:
            self.dt = self.k["dt"] = var("dt", "R")
            S.assume(ge(self.dt, R0))
        self.vel, self.delta = vel, delta
        if vel == "vector":
            self.k["velocity"] = (var("vi", "R"), var("vj", "R"))
        elif vel == "array":
            a = S.arr("velocity", (self.P, const(2)), "F")
            self.vread = S.old(a)
            self.k["velocity"] = a
        elif vel == "callable":
            self.k["velocity"] = Builtin("velocity", lambda x: self.field("velocity", x, 2))
        elif vel == "number":
            self.k["velocity"] = var("v", "R")
        if delta == "number":
            self.k["delta"] = var("delta", "R")
        elif delta:
            self.k["delta"] = Builtin("delta", lambda x: self.field("delta", x, 1 if delta == "callable" else 2))

    def field(self, nm, x, rank):
        """a function of the coordinates: an unknown value per particle (and axis), one per call"""
        ex = self.S.ex
        rd = ex.reader(x)
        sh = (x.shape[0],) if rank == 1 else (x.shape[0], const(2))
        self.S.prove_shape("callables are given the coordinates", x, (self.P, const(2)))
        return ex.fn_array(sh, "F", lambda idx: app(nm, (rd((idx[0], I0)), rd((idx[0], I1))) + tuple(idx), "R"))

    def side(self, a):
        return toreal(ite(eq(a, I0), self.h, self.w))

    def velocity(self, read, p, a):
        if self.vel is None:
            return R0
        v = self.k["velocity"]
        if self.vel == "number":
            return v
        if self.vel == "vector":
            return ite(eq(a, I0), v[0], v[1])
        if self.vel == "array":
            return self.vread((p, a))
        return app("velocity", (read((p, I0)), read((p, I1)), p, a), "R")

    def step(self, read, p, a):
        if self.delta is None:
            return R1
        if self.delta == "number":
            return self.k["delta"]
        return app("delta", (read((p, I0)), read((p, I1)), p) + (() if self.delta == "callable" else (a,)), "R")

    def inbox(self, name, read, idx):
        if len(idx) != 2:
            return []
        v = num(read(idx))
        know(self.S, v)
        return [implies(lt(idx[1], const(2)), and_(ge(v, R0), lt(v, self.side(idx[1]))))]


def frames(S, u, r, win, init):
    """the postcondition of a walk: r is the sequence returned"""
    ex = S.ex
    if isinstance(r, list):
        S.prove("the requested number of frames", eq(u.count, I0) if r == [] else FALSE)
        return
    if not isinstance(r, Stream):
        S.prove("a sequence of frames", False)
        return
    S.prove("the requested number of frames", eq(num(r.length), u.count))
    if r.elem is None:
        return
    xs = [r.elem(k) for k in win.at()]
    for x in xs:
        S.prove_shape("one coordinate pair per particle", x, (u.P, const(2)))
    p = S.index((u.P,), "p")[0]
    a = S.index((const(2),), "a")[0]
    rd = [ex.reader(x) for x in xs]
    v = num(rd[-1]((p, a)))
    know(S, v)
    S.prove("every coordinate lies in the box", and_(ge(v, R0), lt(v, u.side(a))))
    if win.first:
        S.prove_eq("the first frame is the initial coordinates, boxed", v, boxed(init(p, a), R0, u.side(a)))
        return
    draws = [(kind, nm) for kind, nm, n in ex.draws if has_app(v, (nm,))]
    S.prove("one normal increment per coordinate and step", len(draws) == 1 and draws[0][0] == "normal")
    if len(draws) != 1:
        return
    z = app(draws[0][1], (p, a), "R")
    x = num(rd[0]((p, a)))
    root = app("sqrt", (u.dt,), "R")
    if u.dt is R1:
        S.assume(eq(root, R1))
        root = R1
    want = add(add(x, mul(u.velocity(rd[0], p, a), u.dt)), mul(z, mul(u.step(rd[0], p, a), root)))
    b = v.args if v.op == "app" and v.args[0] == "box" else None
    S.prove("brought back into the box", b is not None)
    if b is None:
        return
    S.prove_eq("the previous frame plus velocity*dt plus delta*sqrt(dt) times the increment", b[1], want)
    S.prove("into the simulation box", and_(eq(b[2], R0), eq(b[3], u.side(a))))


def walk_(fn, vel, delta, dt, x0, first):
    def body(S):
        u = Setup(S, vel, delta, dt)
        Box(S)
        win = Window(S, first, u.inbox)
        k = dict(u.k)
        k.pop("P", None)
        if fn == "brownian_walk":
            a = S.arr("x0", (u.P, const(2)), "F")
            rd = S.old(a)
            r = S.call(SIM + fn, a, **k)
        else:
            k["num_particles"] = u.P
            if x0:
                a = k["x0"] = S.arr("x0", (u.P, const(2)), "F")
                rd = S.old(a)
            else:
                rd = None
            r = S.call(SIM + fn, **k)
        if rd is None:
            def init(p, i):
                ds = [nm for kind, nm, sh in S.ex.draws if kind == "uniform"]
                S.prove("initial coordinates are drawn uniformly in the box", len(ds) == 1)
                return mul(app(ds[0], (p, i), "R"), u.side(i))
        else:
            init = lambda p, i: num(rd((p, i)))
        frames(S, u, r, win, init)
    return body


def rejects(kind):
    def body(S):
        P = S.dims("P", lo=0)
        Box(S)
        Window(S, True, lambda *a: [])
        if kind == "1-d coordinates":
            S.raises("rejected", SIM + "brownian_walk", S.arr("x0", (P,), "F"), only="ValueError")
        elif kind == "shape":
            S.raises("rejected", SIM + "brownian_walk", S.arr("x0", (P, const(2)), "F"), shape=(S.dims("h", lo=1),), only="ValueError")
        else:
            n = S.dims("n", lo=0)
            S.assume(ne(n, P))
            S.raises("rejected", SIM + "brownian_particles", x0=S.arr("x0", (P, const(2)), "F"), num_particles=n, only="ValueError")
    return body


CASES = [("mirror", mirror), ("mirror's loop", lemma)]
VARS = [(None, None, False), ("vector", "number", True), ("array", "number", True), ("callable", "number", True),
        ("vector", "callable", True), ("callable", "callable per axis", True), ("array", None, False), (None, "callable", False)]
for v in VARS:
    for first in (True, False):
        CASES.append(("walk[velocity %s, delta %s, dt %s] %s" % (v + ("start" if first else "step",)), walk_("brownian_walk", v[0], v[1], v[2], True, first)))
for v in [(None, None, False), ("number", "number", True), ("vector", "number", True), ("array", "callable", True), ("callable", None, True)]:
    for x0 in (True, False):
        for first in (True, False):
            CASES.append(("particles[velocity %s, delta %s, dt %s, x0 %s] %s" % (v + (x0, "start" if first else "step")), walk_("brownian_particles", v[0], v[1], v[2], x0, first)))
for k in ("1-d coordinates", "shape", "number of particles"):
    CASES.append(("rejects " + k, rejects(k)))
EXTRA = []
