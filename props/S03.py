"""S03: triggered simulation: one frame per trigger, in trigger order; selection of frames by index."""
import ast
from props.common import *
from props.S01 import Box, boxed, know
from props.streams import Video
from pyvc.sym import Carried, Unsupported, Infeasible, Stream, Iter, is_num, _Brk, _Cnt, _Ret
from pyvc.listmodel import SymList

SIM = "cddm.sim."
DRAW = "cddm._sim_nb.draw_"


class Triggers(object):
    """Contract of a generator's loop over a stream that reacts to increasing trigger numbers.

    Ghost: p, the number of trigger numbers completed before iteration i. In the states between trigger
    numbers, lists are consumed from one side by a fixed number of entries per trigger number, numbers
    are the p-th value of a known sequence, and everything else is as at entry; the shape is taken from
    the first trigger number and then proved to be kept from any p to p+1 and by iterations without a
    trigger. While a trigger number is incomplete (one of two cameras has been triggered) iterations
    without a trigger change nothing at all."""

    def __init__(self, S, K, T, numbers, yielded):
        self.S, self.K, self.T, self.numbers, self.yielded = S, K, T, numbers, yielded
        self.loops = 0
        S.ex.loop_hook = self

    def lo(self, p):
        r = self.T[0](p)
        for t in self.T[1:]:
            r = emin(r, t(p))
        return r

    def up(self, p):
        r = self.T[0](p)
        for t in self.T[1:]:
            r = emax(r, t(p))
        return r

    # -------------------------------------------------------------- states
    def look(self, fr):
        out = {}
        for n, v in fr.env.items():
            if isinstance(v, SymList):
                out[n] = (v, v.get, v.start, v.end)
            elif isinstance(v, Iter):
                out[n] = (v, None, v.pos, None)
            else:
                out[n] = (v, None, None, None)
        return out

    def set(self, fr, st):
        fr.env.clear()
        for n, (v, g, a, b) in st.items():
            if isinstance(v, SymList):
                v.get, v.start, v.end = g, a, b
            elif isinstance(v, Iter):
                v.pos = a
            fr.env[n] = v

    def at(self, entry, plan, p):
        st = dict(entry)
        for n, k in plan.items():
            v, g, a, b = entry[n]
            if k[0] == "list":
                st[n] = (v, g, add(a, scale(p, k[1])), add(b, scale(p, k[2])))
            elif k[0] == "iter":
                st[n] = (v, None, add(a, scale(p, k[1])), None)
            elif k[0] == "num":
                st[n] = (k[1](p), None, None, None)
            else:
                st[n] = (Carried(n), None, None, None)
        return st

    def same(self, x, y):
        ex = self.S.ex
        (v, g, a, b), (w, h, c, d) = x, y
        if isinstance(w, Carried):
            return True
        if isinstance(v, SymList) and isinstance(w, SymList):
            if g is not h:
                k = fresh("k")
                if not ex.valid(implies(and_(ge(k, a), lt(k, b)), eq(num(g(k)), num(h(k))))):
                    return False
            return ex.valid(and_(eq(a, c), eq(b, d)))
        if isinstance(v, Iter) and isinstance(w, Iter):
            return v is w and ex.valid(eq(a, c))
        if is_num(v) and is_num(w):
            return ex.valid(eq(num(v), num(w)))
        return v is w

    def check(self, what, st, want):
        for n in want:
            self.S.prove("%s: %s" % (what, n), n in st and self.same(st[n], want[n]))

    # -------------------------------------------------------------- the loop
    def __call__(self, ex, kind, st, fr, *rest):
        if kind != "gen":
            return NotImplemented
        lo, hi, body = rest
        S, K = self.S, self.K
        if lo is not I0 or fr.yields != [] or self.loops:
            raise Unsupported("one loop from 0")
        self.loops += 1
        self.N = hi
        names = set(n.id for b in st.body + [st.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
        entry = self.look(fr)
        for n in names:
            if n not in entry:
                entry[n] = (Carried(n), None, None, None)
        heap = dict(ex.heap)

        def step(i):
            n0, ended = len(fr.yields), False
            try:
                body(i, fr)
            except _Brk:
                ended = True
            except _Ret:
                ended = True
            got = fr.yields[n0:]
            del fr.yields[n0:]
            return got, ended

        def complete(p, st0):
            """the iterations that trigger number p; returns whether the loop ended"""
            self.set(fr, st0)
            times = []
            if len(self.T) == 1 or ex.branch(eq(self.T[0](p), self.T[1](p))):
                times = [self.T[0](p)]
            else:
                first = 0 if ex.branch(lt(self.T[0](p), self.T[1](p))) else 1
                times = [self.T[first](p), self.T[1 - first](p)]
            return times

        def guess():
            self.set(fr, entry)
            ex.assume(and_(gt(K, I0), lt(self.up(I0), hi)))
            for t in complete(I0, entry):
                got, ended = step(t)
            return "ok", (self.look(fr), ended, [k for k in heap if ex.heap.get(k) is not heap[k]])

        # the shape of the states between trigger numbers
        plan, ends = {}, False
        paths = ex.explore(guess)
        for q in paths:
            after, ended, changed = q["val"]
            if changed:
                raise Unsupported("the loop changes arrays in place")
            if ended:
                ends = True
                continue
            for n in entry:
                v, g, a, b = entry[n]
                w, h, c, d = after[n]
                if isinstance(v, Carried):
                    continue
                if isinstance(v, SymList) and isinstance(w, SymList):
                    e = []
                    for x, y in ((c, a), (d, b)):
                        z = [s for s in (0, 1, -1) if q_valid(ex, q, eq(x, add(y, const(s))))]
                        e.append(z[0] if z else 0)
                    if e != [0, 0]:
                        plan.setdefault(n, ("list",) + tuple(e))
                elif isinstance(v, Iter):
                    z = [s for s in (0, 1) if q_valid(ex, q, eq(c, add(a, const(s))))]
                    if z != [0]:
                        plan.setdefault(n, ("iter", z[0] if z else 0))
                elif is_num(v) and is_num(w) and num(v).sort == "I":
                    if num(v) is not num(w):
                        for f in self.numbers:
                            if q_valid(ex, q, and_(eq(num(v), f(I0)), eq(num(w), f(I1)))):
                                plan.setdefault(n, ("num", f))
                                break
                        else:
                            raise Unsupported("a number carried from trigger to trigger")
        # an arbitrary iteration
        ex.heap = dict(heap)
        p = fresh("done")
        ex.assume(and_(ge(p, I0), le(p, K)))
        i = fresh("it")
        A = self.at(entry, plan, p)
        S.prove("the state at entry", all(n in plan and plan[n][0] != "num" or self.same(self.at(entry, plan, I0)[n], entry[n]) for n in entry if not isinstance(entry[n][0], Carried)))
        self.done = True
        if ex.branch(eq(p, K)):
            p = K
            A = self.at(entry, plan, p)
            self.set(fr, A)
            if ends or ex.branch(app(fresh("exhausted").args[0], (I0,), "B")):
                return True          # after the last trigger number, or at the end of the stream
            ex.assume(and_(ge(i, I0), lt(i, hi), implies(gt(p, I0), gt(i, self.up(sub(p, I1))))))
            got, ended = step(i)
            S.prove("nothing after the last trigger", got == [])
            if not ended:
                self.check("kept by an iteration without a trigger", self.look(fr), A)
            raise Infeasible()
        ex.assume(implies(gt(p, I0), lt(self.up(sub(p, I1)), self.lo(p))))
        if not ex.branch(app(fresh("triggered").args[0], (I0,), "B")):
            # an iteration between two trigger numbers
            ex.assume(and_(ge(i, I0), lt(i, hi), lt(i, self.lo(p)), implies(gt(p, I0), gt(i, self.up(sub(p, I1))))))
            self.set(fr, A)
            got, ended = step(i)
            S.prove("nothing without a trigger", got == [])
            S.prove("the loop goes on while there are triggers", not ended)
            self.check("kept by an iteration without a trigger", self.look(fr), A)
            raise Infeasible()
        times = complete(p, A)
        for t in times:
            ex.assume(and_(ge(t, I0), lt(t, hi)))
        got, ended = step(times[0])
        if len(times) == 2:
            S.prove("nothing before both cameras are triggered", got == [])
            S.prove("the loop goes on while there are triggers", not ended)
            B = self.look(fr)
            h = dict(ex.heap)
            if ex.branch(app(fresh("waiting").args[0], (I0,), "B")):
                ex.assume(and_(gt(i, times[0]), lt(i, times[1])))
                for n in B:          # values left by this iteration for the next one only
                    if isinstance(A.get(n, (None,))[0], Carried):
                        pass
                got, ended = step(i)
                S.prove("nothing while waiting for the other camera", got == [])
                S.prove("the loop goes on while there are triggers", not ended)
                kept = {n: v for n, v in B.items() if not isinstance(A.get(n, (Carried(n),))[0], Carried)}
                self.check("kept while waiting for the other camera", self.look(fr), kept)
                S.prove("kept while waiting for the other camera: arrays", all(ex.heap.get(k) is h[k] for k in h))
                raise Infeasible()
            for n in list(fr.env):   # local values of an earlier iteration are not used
                if isinstance(A.get(n, (Carried(n),))[0], Carried):
                    fr.env[n] = Carried(n)
            got, ended = step(times[1])
        S.prove("one value per trigger number", len(got) == 1)
        if len(got) == 1:
            self.yielded(p, got[0])
        q = add(p, I1)
        if ended:
            S.prove("it ends after the last trigger number only", eq(q, K))
        else:
            if ends:
                S.prove("it ends after the last trigger number", lt(q, K))
            self.check("the next trigger number is awaited", self.look(fr), self.at(entry, plan, q))
        raise Infeasible()


def q_valid(ex, q, c):
    """validity at the end of an explored path"""
    st = ex.snapshot()
    try:
        ex.pc, ex.axioms = list(q["pc"]), list(q["axioms"])
        return ex.valid(c)
    finally:
        ex.restore(st)


# ------------------------------------------------------------------ selection by index
def trigger(kind, how):
    def body(S):
        ex = S.ex
        n = S.dims("n", lo=0)
        ind = S.arr("indices", (n,), "I")
        at = S.old(ind)
        if kind == "numbers":
            N = S.dims("N", lo=0)
            data = Stream(N, lambda k: app("value", (num(k),), "R"))
        else:
            x = Video(S, "x", 2, "I")
            N, data = x.N, x.stream
        if how == "generator":
            data = Iter(data)
        from pyvc import listmodel
        ex.sets.clear()
        indices = ind if how != "list" else SymList(lambda k: at((num(k),)), I0, n)
        # the distinct requested indices in increasing order, by their defining facts
        ref = listmodel.make_set(ex, indices)
        s, L, w, u = ref.members()

        def yielded(p, v):
            i = s(p)
            want = data.stream.elem(i) if isinstance(data, Iter) else data.elem(i)
            if is_num(want):
                S.prove_eq("the element at the requested index", num(v), want)
            else:
                S.prove("the element at the requested index", isinstance(v, tuple) and len(v) == len(want) and all(a is b for a, b in zip(v, want)))
            S.prove("it is a requested index", and_(ge(w(p), I0), lt(w(p), n), eq(num(at((w(p),))), i)))
        S.assume(implies(gt(L, I0), ge(s(I0), I0)))          # indices of a stream are not negative
        hook = Triggers(S, L, [s], [s, lambda p: p, lambda p: s(add(p, I1)), lambda p: s(sub(p, I1))], yielded)
        hook.done = False
        r = S.call(SIM + "data_trigger", data, indices)
        if hook.done:
            S.prove("nothing is handed on after the end", r == [])
        else:
            S.prove("an empty selection is empty", and_(eq(L, I0)) if r == [] else False)
        q = S.index((n,), "q")[0]
        S.prove("every requested index has its turn", and_(ge(u(q), I0), lt(u(q), L), eq(s(u(q)), num(at((q,))))))
    return body


# ------------------------------------------------------------------ frames
class Draw(object):
    """the drawing kernels by a contract that fixes what is drawn, not how: a new frame, a function of
    the background, coordinates, intensities and widths handed over"""
    def __init__(self, S, im=None):
        self.S, self.made = S, {}
        for n in ("points", "psf"):
            S.ex.contracts[DRAW + n] = self

    def __call__(self, ex, f, args, kw):
        names = ("im", "points", "intensity", "sigma") if f.name.endswith("psf") else ("im", "points", "intensity")
        got = dict(zip(names, args))
        got.update(kw)
        im, pts, inten = got["im"], got["points"], got["intensity"]
        if not (isinstance(im, Arr) and im.ndim == 2 and isinstance(pts, Arr) and pts.ndim == 2 and isinstance(inten, Arr) and inten.ndim == 1):
            raise Unsupported("arguments of the drawing kernel")
        ex.oblige("requires of the drawing kernel: two coordinates", eq(num(pts.shape[1]), const(2)))
        ex.oblige("requires of the drawing kernel: one intensity per particle", eq(num(pts.shape[0]), num(inten.shape[0])))
        rec = {"kind": f.name, "im": ex.reader(im), "shape": im.shape, "points": ex.reader(pts), "P": num(pts.shape[0]), "intensity": ex.reader(inten)}
        if "sigma" in got:
            ex.oblige("requires of the drawing kernel: one width per particle", eq(num(pts.shape[0]), num(got["sigma"].shape[0])))
            rec["sigma"] = ex.reader(got["sigma"])
        ex.used_contracts.add("%s.%s" % (f.module.name, f.name))
        # the kernel draws into im and returns it
        c = Fn(sym_reader(fresh("frame").args[0], "I"))
        rd = ex.reader
        ex.write_view(im, lambda idx, c=c: c.read(idx))
        rec["content"] = ex.heap[im.store]
        self.made[im.store] = rec
        return im


def video(cams, spread, offset, rotation, via):
    def body(S):
        ex = S.ex
        K, P = S.dims("K", lo=1), S.dims("P", lo=1)
        h, w = S.dims("h", "w", lo=1)
        N = S.dims("N", lo=0)
        Box(S)
        draw = Draw(S)
        T = []
        k, m = fresh("k"), fresh("m")
        args = {}
        for c in range(cams):
            a = S.arr("t%d" % (c + 1), (K,), "I")
            rd = S.old(a)
            T.append(lambda x, rd=rd: num(rd((num(x),))))
            args["t%d" % (c + 1)] = a if via != "list" else SymList(lambda x, rd=rd: rd((num(x),)), I0, K)
        up = lambda x: emax(T[0](x), T[-1](x)) if cams == 2 else T[0](x)
        low = lambda x: emin(T[0](x), T[-1](x)) if cams == 2 else T[0](x)
        ex.add_axiom(forall((k,), implies(and_(ge(k, I0), lt(add(k, I1), K)), lt(up(k), low(add(k, I1))))))
        S.assume(ge(low(I0), I0))
        coords = lambda i, p, c: app("coordinate", (i, p, c), "R")

        def frame(i):
            return ex.alloc((P, const(2)), "F", Fn(lambda idx, i=i: coords(num(i), idx[0], idx[1])))
        kw = dict(args)
        bg = I0
        if via == "defaults":
            val = const(10)
        else:
            val = var("intensity")
            S.assume(and_(ge(val, I0), le(val, const(255))))
            kw["intensity"] = val
            kw["background"] = bg = var("background")
            S.assume(and_(ge(bg, I0), le(bg, const(255))))
            kw["shape"] = (h, w)
        if spread == "number":
            kw["sigma"] = var("sigma", "R")
        elif spread == "array":
            kw["sigma"] = S.arr("sigma", (P,), "F")
        off = [R0, R0]
        if offset:
            off = [var("oi", "R"), var("oj", "R")]
            kw["offset"] = tuple(off)
        c_, s_ = R1, R0
        if rotation:
            a = var("rotation", "R")
            kw["rotation"] = a
            from pyvc.npmodel import ufunc1
            c_, s_ = num(ufunc1(ex, "cos")(a)), num(ufunc1(ex, "sin")(a))
        if via == "defaults":
            h, w = const(256), const(256)
        half = [mul(toreal(h), const("1/2", "R")), mul(toreal(w), const("1/2", "R"))]

        def turned(v):
            return [sub(mul(c_, v[0]), mul(s_, v[1])), add(mul(s_, v[0]), mul(c_, v[1]))]

        def yielded(p, v):
            S.prove("one frame per camera", isinstance(v, tuple) and len(v) == cams and all(isinstance(f, Arr) for f in v))
            for c, f in enumerate(v):
                rec = draw.made.get(f.store)
                S.prove("camera %d: a drawn frame" % (c + 1), rec is not None and f.ndim == 2)
                S.prove("camera %d: nothing changed after drawing" % (c + 1), ex.heap[f.store] is rec["content"])
                S.prove("camera %d: drawn as points or spread" % (c + 1), rec["kind"] == ("draw_psf" if spread else "draw_points"))
                S.prove_shape("camera %d: frame shape" % (c + 1), f, (h, w))
                q = S.index((h, w), "q")
                S.prove_eq("camera %d: drawn on the background" % (c + 1), rec["im"](q), bg)
                j = S.index((P,), "j")[0]
                S.prove("camera %d: every particle" % (c + 1), eq(rec["P"], P))
                S.prove_eq("camera %d: intensity" % (c + 1), num(rec["intensity"]((j,))), val)
                if spread:
                    S.prove_eq("camera %d: width" % (c + 1), num(rec["sigma"]((j,))), num(S.old(kw["sigma"])((j,))) if spread == "array" else kw["sigma"])
                t = T[c](p)
                x = [coords(t, j, const(d)) for d in (0, 1)]
                for d in (0, 1):
                    got = num(rec["points"]((j, const(d))))
                    if c == 1:
                        S.prove_eq("camera 2: the coordinates of its trigger time", got, x[d])
                    else:
                        mid = turned(half)
                        want = boxed(add(turned(x)[d], add(off[d], sub(half[d], mid[d]))), R0, toreal((h, w)[d]))
                        S.prove_eq("camera 1: the transformed coordinates of its trigger time", got, want)
        hook = Triggers(S, K, T, [lambda p: p], yielded)
        hook.done = False
        if via == "simple":
            made = []

            def particles(ex, f, args, k):
                got = dict(zip(("count", "shape", "num_particles", "delta", "dt", "velocity", "x0"), args))
                got.update(k)
                made.append(got)
                ex.used_contracts.add(SIM + "brownian_particles")
                return Iter(Stream(num(got["count"]), frame))
            ex.contracts[SIM + "brownian_particles"] = particles
            kw["num_particles"], kw["delta"] = P, var("delta", "R")
            if not spread:
                kw["sigma"] = None
            r = S.call(SIM + "simple_brownian_video", **kw)
            S.prove("one simulation", len(made) == 1)
            got = made[0]
            S.prove("the simulation has the shape and options given", all(eq(num(a), num(b)) is TRUE for a, b in zip(got["shape"], (h, w))) and got["num_particles"] is P and got["delta"] is kw["delta"])
            j = S.index((K,), "j")[0]
            for t in T:
                S.assume(ge(t(j), I0))
                S.prove("the simulation lasts until every trigger", lt(t(j), hook.N))
        else:
            r = S.call(SIM + "particles_video", Stream(N, frame), **kw)
            S.prove("the whole stream is looked at", eq(hook.N, N))
        S.prove("the loop over the particle coordinates", hook.done)
        S.prove("nothing after the last trigger number", r == [])
    return body


CASES = []
for kind in ("numbers", "frames"):
    for how in ("array", "list", "generator"):
        CASES.append(("data_trigger[%s %s]" % (kind, how), trigger(kind, how)))
for cams in (1, 2):
    CASES.append(("particles_video[%d defaults]" % cams, video(cams, None, False, False, "defaults")))
    for spread in (None, "number", "array"):
        for offset in (False, True):
            for rotation in (False, True):
                CASES.append(("particles_video[%d spread=%s%s%s]" % (cams, spread, " offset" if offset else "", " rotation" if rotation else ""),
                              video(cams, spread, offset, rotation, "array")))
    CASES.append(("particles_video[%d list]" % cams, video(cams, None, True, True, "list")))
    CASES.append(("simple_brownian_video[%d points]" % cams, video(cams, None, True, True, "simple")))
    CASES.append(("simple_brownian_video[%d spread]" % cams, video(cams, "number", True, True, "simple")))
EXTRA = []
