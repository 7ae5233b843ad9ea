"""Loop contracts for loops that carry a value from one iteration to the next.

The state at the start of an arbitrary iteration i is havoc'd: carried numbers become arbitrary numbers
restricted by the bounds (against 0 and the loop-invariant integers in scope) that hold initially and are
preserved by an arbitrary iteration (each is proved; the ones that are not are dropped); an array stored
to in the loop has its initial values from i on and arbitrary values below, which is justified by
the proof that iteration i writes only element i. Then iteration i (or i and i+1) runs once more, for
the specification to look at; everything else in the final state is unknown."""
import ast
from props.common import *
from pyvc.sym import Carried, Unsupported, Infeasible, Stream, is_num, _Brk, _Cnt


class Carry(object):
    def __init__(self, S, count=1):
        self.S, self.count, self.seen = S, count, []
        S.ex.loop_hook = self

    def __call__(self, ex, kind, st, fr, *rest):
        if kind != "for":
            return NotImplemented
        lo, hi, body = rest
        tnames = set(n.id for n in ast.walk(st.target) if isinstance(n, ast.Name))
        names = set(n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
        carried = sorted(n for n in names - tnames if is_num(fr.env.get(n)))
        if not carried:
            return NotImplemented
        if any(isinstance(n, (ast.Break, ast.Return)) for b in st.body for n in ast.walk(b)):
            raise Unsupported("a loop with a carried value that ends early")
        init = {n: num(fr.env[n]) for n in carried}
        if any(isinstance(v, CV) for v in init.values()):
            raise Unsupported("a carried complex value")
        for n in (names - set(carried)) | tnames:
            fr.env[n] = Carried(n)
        i = fresh("it")
        ex.assume(and_(ge(i, lo), lt(i, hi) if self.count == 1 else lt(add(i, I1), hi)))
        v = {n: fresh("carried_" + n) if init[n].sort == "I" else var("carried_" + n, "R") for n in carried}
        bounds = [I0] + sorted((e for k, e in fr.env.items() if k not in names and k not in tnames and isinstance(e, E) and e.sort == "I"), key=repr)
        cand = []
        for n in carried:
            if init[n].sort != "I":
                continue
            for b in bounds:
                for op in (ge, gt, le, lt):
                    if ex.valid(op(init[n], b)):
                        cand.append((n, op, b))
        env0 = dict(fr.env)
        first = dict(ex.heap)

        def havoc(stores):
            for n in carried:
                fr.env[n] = v[n]
            for n, op, b in cand:
                ex.assume(op(v[n], b))
            for s in stores:
                c, rd = first[s], sym_reader("stored_%d" % s, ex.sdtype[s])
                ex.heap[s] = Fn(lambda idx, c=c, rd=rd: ite(lt(idx[0], i), rd(idx), c.read(idx)))

        def before(s):
            return held.get(s, first[s])
        stores, held = [], {}
        while True:
            held.clear()

            def run():
                fr.env.clear()
                fr.env.update(env0)
                havoc(stores)
                held.update({s: ex.heap[s] for s in stores})
                body(i, fr)
                return finish()

            def finish():
                out = {n: fr.env.get(n) for n in carried}
                for n in carried:
                    if not is_num(out[n]) or isinstance(out[n], CV) or num(out[n]).sort != init[n].sort:
                        raise Unsupported("a carried variable changes its type")
                bad = [c for c in cand if not ex.valid(c[1](num(out[c[0]]), c[2]))]
                ch = [s for s in first if ex.heap.get(s) is not before(s)]
                for s in ch:
                    if s not in stores:
                        continue
                    idx = tuple(fresh("o") for _ in ex.full[s])
                    for a, m in zip(idx, ex.full[s]):
                        ex.assume(rng(a, m))
                    ex.assume(ne(idx[0], i))
                    x, y = ex.heap[s].read(idx), before(s).read(idx)
                    if not ex.valid(eq(num(x), num(y))):
                        raise Unsupported("an iteration writes to elements other than its own")
                return "ok", (bad, ch)
            paths = ex.explore(run)
            fr.env.clear()
            fr.env.update(env0)
            bad = [c for p in paths for c in p["val"][0]]
            more = set(s for p in paths for s in p["val"][1]) - set(stores)
            if not bad and not more:
                break
            cand = [c for c in cand if c not in bad]
            stores += sorted(more)
        havoc(stores)
        self.seen.append(i)
        k = i
        for _ in range(self.count):
            body(k, fr)
            k = add(k, I1)
        for s in stores:
            rd, c = sym_reader("final_%d" % s, ex.sdtype[s]), ex.heap[s]
            ex.heap[s] = Fn(lambda idx, c=c, rd=rd, k=k: ite(and_(ge(idx[0], i), lt(idx[0], k)), c.read(idx), rd(idx)))
        for n in names | tnames:
            fr.env[n] = Carried(n)
        return True


class WhileLoop(object):
    """Contract of a while loop that changes one real number v.

    head(v0) -> (value, assumptions): the states reachable at the head of the loop, from the value v0 on
    entry (over fresh ghost symbols); entry(v0) and step(v, v2) are the obligations [(name, condition)]
    that justify it (the second for every iteration that runs to its end, and it must include a measure
    that decreases)."""
    def __init__(self, S, head, step):
        self.S, self.head, self.step, self.loops = S, head, step, 0
        S.ex.loop_hook = self

    def __call__(self, ex, kind, st, fr, *rest):
        if kind != "enter":
            return NotImplemented
        S = self.S
        names = sorted(set(n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))))
        if any(isinstance(n, (ast.Yield, ast.Return)) for b in st.body for n in ast.walk(b)):
            raise Unsupported("a while loop that returns")
        keep = [n for n in names if is_num(fr.env.get(n))]
        if len(keep) != 1:
            raise Unsupported("the loop changes the variables %s" % ", ".join(names))
        n = keep[0]
        self.loops += 1
        value, facts = self.head(num(fr.env[n]))
        for m in names:
            fr.env[m] = Carried(m)
        fr.env[n] = value
        for c in facts:
            ex.assume(c)
        if not ex.truth(ex.eval(st.test, fr)):
            ex.exec_block(st.orelse, fr)
            return True
        try:
            ex.exec_block(st.body, fr)
        except _Brk:
            return True
        except _Cnt:
            pass
        for nm, c in self.step(value, num(fr.env[n])):
            S.prove(nm, c)
        raise Infeasible()


class Window(object):
    """Contract of the loops that yield, one value per iteration, and carry arrays.

    first: the first iteration from the state at entry. Otherwise two consecutive iterations i, i+1 from
    an arbitrary state: every variable an iteration can change is arbitrary: an array has the shape
    and type it has at entry, which the iterations must keep, and satisfies invariant(name, reader,
    index) -> conditions where these hold on entry and are preserved. The result is a stream of as many values as iterations of which only the
    values at the iterations run are known."""
    def __init__(self, S, first, invariant):
        self.S, self.first, self.invariant = S, first, invariant
        self.i = I0 if first else fresh("it")
        self.loops = 0
        S.ex.loop_hook = self

    def at(self):
        return [self.i] if self.first else [self.i, add(self.i, I1)]

    def __call__(self, ex, kind, st, fr, *rest):
        if kind != "gen":
            return NotImplemented
        lo, hi, body = rest
        S = self.S
        self.loops += 1
        if lo is not I0:
            raise Unsupported("a loop that does not start at 0")
        if fr.yields != []:
            raise Unsupported("values yielded outside the loop")
        if any(isinstance(n, (ast.Break, ast.Return)) for b in st.body for n in ast.walk(b)):
            raise Unsupported("a loop that yields and ends early")
        names = set(n.id for b in st.body + [st.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
        for n in list(names):
            if n not in fr.env:
                fr.env[n] = Carried(n)
        stores = dict(ex.heap)
        env0 = dict(fr.env)
        if self.first:
            if not ex.branch(lt(lo, hi)):
                fr.yields = Stream(I0, None)
                return True
        else:
            ex.assume(and_(ge(self.i, lo), lt(add(self.i, I1), hi)))
        shapes, held = {}, {}

        def holds(n, a):
            k = len(ex.pc)
            idx = S.index(a.shape, "c")
            ok = all(ex.valid(c) for c in self.invariant(n, ex.reader(a), idx))
            del ex.pc[k:]
            return ok

        def havoc(changed):
            fr.env.clear()
            fr.env.update(env0)
            for n in changed:
                if n not in shapes:
                    fr.env[n] = Carried(n)
                    continue
                a = ex.sym_array("state%d_%s" % (self.loops, n), *shapes[n])
                fr.env[n] = a
                if held[n]:
                    q = tuple(fresh("q") for _ in a.shape)
                    for c in self.invariant(n, ex.reader(a), q):
                        ex.add_axiom(forall(q, c))

        def dry(changed):
            def run():
                havoc(changed)
                env1 = dict(fr.env)
                n0 = len(fr.yields)
                body(self.i, fr)
                del fr.yields[n0:]
                more, drop = [], []
                for n in sorted(names):
                    v = fr.env.get(n)
                    if n not in changed:
                        if v is not env1.get(n) and not isinstance(env1.get(n), Carried) and not (is_num(v) and is_num(env1[n]) and num(v) is num(env1[n])):
                            more.append(n)
                    elif n in shapes:
                        if not isinstance(v, Arr) or v.ndim != len(shapes[n][0]) or v.dtype != shapes[n][1] or not all(ex.valid(eq(num(x), num(y))) for x, y in zip(v.shape, shapes[n][0])):
                            raise Unsupported("a carried array changes its type")
                        if held[n] and not holds(n, v):
                            drop.append(n)
                return "ok", (more, drop)
            ps = ex.explore(run)
            return sorted(set(x for p in ps for x in p["val"][0])), sorted(set(x for p in ps for x in p["val"][1]))
        changed = []
        while True:
            more, drop = dry(changed)
            fr.env.clear()
            fr.env.update(env0)
            if not more and not drop:
                break
            for n in drop:
                held[n] = False
            for n in more:
                changed.append(n)
                if isinstance(env0[n], Arr):
                    shapes[n] = (env0[n].shape, env0[n].dtype)
                    held[n] = holds(n, env0[n])
        if not self.first:
            havoc(changed)
        vals = []
        for k in self.at():
            n0 = len(fr.yields)
            body(k, fr)
            got = fr.yields[n0:]
            S.prove("one value per iteration", len(got) == 1)
            if len(got) != 1:
                raise Infeasible()
            vals.append((k, got[0], {a.store: ex.heap[a.store] for a in [got[0]] if isinstance(a, Arr)}))
        if [s for s, c in stores.items() if ex.heap.get(s) is not c]:
            raise Unsupported("the loop changes arrays in place")
        for k, v, h in vals:
            for s, c in h.items():
                S.prove("a value already given out is not changed", ex.heap.get(s) is c)

        def elem(k):
            for j, v, h in vals:
                if j is k:
                    return v
            raise Unsupported("an element of the sequence outside the window")
        fr.yields = Stream(hi, elem)
        for n in names:
            fr.env[n] = Carried(n)
        return True


class LastWrite(object):
    """Contract of a loop whose iterations overwrite elements of an array, without reading it:
    afterwards an element has the value of the last iteration that writes it, or its value before the loop.

    The last iteration is a ghost function of the element; rules holds, per array read, the
    (ghost term, condition, lo, hi) from which `instance` states that an iteration that writes is not later."""
    def __init__(self, S):
        self.S, self.rules, self.n = S, [], 0
        S.ex.loop_hook = self

    def __call__(self, ex, kind, st, fr, *rest):
        if kind != "for" or any(isinstance(n, (ast.Break, ast.Return)) for b in st.body for n in ast.walk(b)):
            return NotImplemented
        lo, hi, body = rest
        names = set(n.id for b in st.body + [st.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
        env0 = dict(fr.env)
        first = dict(ex.heap)
        i = fresh("it")

        def start(stores):
            fr.env.clear()
            fr.env.update(env0)
            for n in names:
                fr.env[n] = Carried(n)
            ex.assume(and_(ge(i, lo), lt(i, hi)))
            out = {}
            for s in stores:
                out[s] = sym_reader("before_%d_%d" % (self.n, s), ex.sdtype[s])
                ex.heap[s] = Fn(lambda idx, rd=out[s]: rd(idx))
            return {s: ex.heap[s] for s in stores}, out

        def dry(stores):
            def run():
                h, _ = start(stores)
                body(i, fr)
                return "ok", [s for s, c in first.items() if ex.heap.get(s) is not h.get(s, c)]
            ps = ex.explore(run)
            return sorted(set(s for p in ps for s in p["val"]))
        stores = []
        while True:
            more = [s for s in dry(stores) if s not in stores]
            if not more:
                break
            stores += more
        if not stores:
            fr.env.clear()
            fr.env.update(env0)
            return NotImplemented

        def run():
            h, rd = start(stores)
            body(i, fr)
            return "ok", ({s: ex.heap[s] for s in stores}, rd)
        ps = ex.explore(run)
        if len(ps) != 1:
            fr.env.clear()
            fr.env.update(env0)
            return NotImplemented
        after, rd = ps[0]["val"]
        plans = {}
        for s in stores:
            idx = tuple(fresh("o") for _ in ex.full[s])
            v, old = num(after[s].read(idx)), num(rd[s](idx))
            if v.op != "ite" or (v.args[1] is not old and v.args[2] is not old):
                raise Unsupported("an iteration does more than overwrite elements")
            keep = 2 if v.args[2] is old else 1
            cond, val = (v.args[0], v.args[1]) if keep == 2 else (not_(v.args[0]), v.args[2])
            nm = old.args[0]
            if has_app(cond, (nm,)) or has_app(val, (nm,)):
                raise Unsupported("an iteration reads what it overwrites")
            plans[s] = (idx, cond, val)
        self.n += 1
        fr.env.clear()
        fr.env.update(env0)
        for n in names:
            fr.env[n] = Carried(n)
        for s, (idx, cond, val) in plans.items():
            g = "last_%d_%d" % (self.n, s)

            def content(at, idx=idx, cond=cond, val=val, g=g, prev=first[s]):
                j = app(g, tuple(at), "I")
                sub_ = lambda e, k: subst(e, dict(list(zip(idx, at)) + [(i, k)]))
                hit = ge(j, lo)
                rule = (j, lambda k: sub_(cond, k), lo, hi)
                if j not in [r[0] for r in self.rules]:
                    self.rules.append(rule)
                return n_ite(hit, sub_(val, j), prev.read(at))
            ex.heap[s] = Fn(content)
        return True

    def know(self, *ks):
        """the ghost iteration of every element read is the last one that writes it; ks: iterations to
        compare with"""
        for j, cond, lo, hi in self.rules:
            self.S.assume(and_(ge(j, sub(lo, I1)), lt(j, emax(hi, lo)), implies(ge(j, lo), cond(j))))
            for k in ks:
                self.S.assume(implies(and_(ge(k, lo), lt(k, hi), cond(k)), ge(j, k)))
