"""Multi-tau: contract of a correlation call, contract of the loop over the levels."""
import ast
from props.common import *
from pyvc.sym import num, Carried, Unsupported, Infeasible, is_num, _Brk, _Cnt

MT = "cddm.multitau."
TS = {"f1": var("ts1"), "f2": var("ts2"), "s1": var("ts1"), "s2": var("ts2")}


def series(N, at, role):
    """a series of values, by its length and its value at an arbitrary (fixed) place"""
    t = TS[role]
    v = cplx(at(t))
    c = rng(t, N)
    return app("id", (ite(c, v.re, R0), ite(c, v.im, R0)), "I")


def clock(N, T1, T2):
    """the time differences of all pairs of frames"""
    a, b = var("ts3"), var("ts4")
    return ite(and_(rng(a, N), rng(b, N)), sub(T2(b), T1(a)), I0)


def plain(part, dt, k, n, N, tid, sids):
    """one part of the plain result: any function of the delay, the number of delays, the times and the
    series of one pixel"""
    return sym_reader("plain_" + part, dt)((num(k), num(n), num(N), tid) + tuple(sids))


class Correlate(object):
    """ccorr, acorr by contract (C01-C07): every part of the result at a pixel and delay is a function of
    the series of that pixel, the times and the number of delays; it is added to a supplied output."""

    def __init__(self, S):
        self.S, self.calls = S, []
        S.ex.contracts[CORE + "ccorr"] = self
        S.ex.contracts[CORE + "acorr"] = self

    CROSS = ("f1", "f2", "t1", "t2", "n", "norm", "method", "align", "axis", "complex", "f1s", "f2s", "aout")
    AUTO = ("f", "t", "fs", "n", "norm", "method", "align", "axis", "complex", "aout")

    def __call__(self, ex, f, args, kw):
        cross = f.name == "ccorr"
        a = dict(zip(self.CROSS if cross else self.AUTO, args))
        a.update(kw)
        if not cross:
            a = dict(a, f1=a["f"], f2=None, t1=a.get("t"), t2=None, f1s=a.get("fs"), f2s=None)
        ex.used_contracts.add("%s.%s" % (f.module.name, f.name))
        f1, f2, t1, t2 = a["f1"], a["f2"], a.get("t1"), a.get("t2")
        axis = int(cval(num(a.get("axis", 0)))) % f1.ndim
        method, norm, cplx_ = a.get("method"), int(cval(num(a.get("norm")))), bool(a.get("complex", False))
        if method not in ("corr", "fft", "diff"):
            raise Unsupported("method of the correlation")
        N = num(f1.shape[axis])
        n = a.get("n")
        out = a.get("aout")
        if n is None:
            if out is None:
                raise Unsupported("number of delays")
            n = num(out[0].shape[-1])
            if cplx_ and cross:
                n = floordiv(add(n, I1), const(2))
        n = num(n)
        ex.oblige("requires of the correlation: at least one frame", ge(N, I1))
        ex.oblige("requires of the correlation: at least one delay", ge(n, I1))
        for x in (f2, a.get("f1s"), a.get("f2s")):
            if x is not None:
                ex.oblige("requires of the correlation: equal shapes", and_(TRUE if x.ndim == f1.ndim else FALSE, *[eq(num(p), num(q)) for p, q in zip(x.shape, f1.shape)]))
        if cross and (t1 is None) != (t2 is None):
            ex.oblige("requires of the correlation: both times", FALSE)
        for t in (t1, t2):
            if t is not None:
                ex.oblige("requires of the correlation: one time per frame", eq(num(t.shape[0]), N))
        T = lambda x: (lambda i: i) if x is None else (lambda i, rd=ex.reader(x): num(rd((num(i),))))
        T1 = T(t1)
        tid = clock(N, T1, T(t2) if cross else T1)

        def reading(x):
            rd = ex.reader(x)

            def at(px, t):
                ix = list(px)
                ix.insert(axis, t)
                return rd(tuple(ix))
            return at
        rd = {"f1": reading(f1)}
        if cross:
            rd["f2"] = reading(f2)
        for s, g in (("f1s", "s1"), ("f2s", "s2")):
            src = rd.get("f" + g[1])
            if src is None:
                continue
            rd[g] = reading(a[s]) if a.get(s) is not None else (lambda px, t, src=src: absq(src(px, t)))
        rest = tuple(num(s) for k, s in enumerate(f1.shape) if k != axis)
        L = full(n) if cplx_ and cross else n
        parts = [("cor", "C" if cplx_ else "F", rest + (L,)), ("count", "I", (L,))]
        want = {"cor": True, "count": True, "sq": bool(norm & 2), "m1": bool(norm & 4), "m2": bool(norm & 4) and cross}
        if method != "diff":
            parts.append(("sq", "F", rest + (L,)))
        elif not cross:
            want["m1"] = want["m2"] = False
        parts += [("m1", "C", rest + (L,)), ("m2", "C", rest + (L,))]
        rec = dict(cross=cross, method=method, norm=norm, complex=cplx_, axis=axis, n=n, N=N, tid=tid, rd=rd, rest=rest, f1=f1, ndim=f1.ndim)
        self.calls.append(rec)

        def value(part, dt, ix):
            if part == "count":
                return plain(part, dt, ix[-1], n, N, tid, ())
            use = sorted(r for r in rd if part == "cor" and r[0] == "f" or part == "sq" and r[0] == "s" or part == "m" + r[1] and r[0] == "f")
            return plain(part, dt, ix[-1], n, N, tid, [series(N, lambda t, r=r: rd[r](ix[:-1], t), r) for r in use])
        if out is not None and len(out) != len(parts):
            ex.oblige("requires of the correlation: output parts", FALSE)
        res = []
        for j, (p, dt, sh) in enumerate(parts):
            o = None if out is None else out[j]
            if not want[p]:
                res.append(None)
                continue
            if o is None:
                res.append(ex.alloc(sh, dt, Fn(lambda ix, p=p, dt=dt: value(p, dt, ix))))
                continue
            ex.oblige("requires of the correlation: shape of the output", and_(TRUE if o.ndim == len(sh) else FALSE, *[eq(num(x), num(y)) for x, y in zip(o.shape, sh)]))
            if (o.dtype == "C") != (dt == "C") or (o.dtype == "I") != (dt == "I"):
                ex.oblige("requires of the correlation: type of the output", FALSE)
            old = ex.reader(o)
            ex.write_view(o, lambda ix, p=p, dt=dt, old=old: n_add(old(ix), value(p, dt, ix)))
            res.append(o)
        return tuple(res)


def exsub(v, m):
    return CV(subst(v.re, m), subst(v.im, m)) if isinstance(v, CV) else subst(num(v), m)


class Levels(object):
    """Contract of the loop over the levels and of the loop that counts them.

    Ghost: for every signal (and its squares) the data of level i as a function of the level, the time
    and the pixel's series at full rate; level 0 are the arrays at entry, and that an iteration takes the
    data of level i to those of level i+1 by binning pairs is proved. An iteration changes level i of
    the output only."""

    def __init__(self, S, cor, binning):
        self.S, self.cor, self.binning = S, cor, binning
        self.loops, self.tests, self.pick, self.bound = 0, [], None, None
        S.ex.loop_hook = self

    def __call__(self, ex, kind, st, fr, *rest):
        if kind == "enter" and isinstance(st, ast.While):
            return self.count(ex, st, fr)
        if kind != "for" or self.loops or not self.cor.calls:
            return NotImplemented
        return self.levels(ex, st, fr, *rest)

    # ---------------------------------------------------------------- counting the levels
    def count(self, ex, st, fr):
        S = self.S
        names = sorted(set(n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))))
        if len(names) != 1 or not is_num(fr.env.get(names[0])) or any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for b in st.body for n in ast.walk(b)):
            return NotImplemented
        v, a = names[0], num(fr.env[names[0]])
        if a is not I0:
            return NotImplemented
        d, k = fresh("counted"), fresh("k")

        def test(x):
            fr.env[v] = x
            return ex.eval(st.test, fr)
        ex.assume(ge(d, I0))
        ex.assume(eq(app("pow2", (I0,), "I"), I1))
        t = num(test(d))
        self.tests.append((d, t))
        at = lambda x: subst(t, {d: x})
        ex.assume(and_(ge(d, I0), forall((k,), implies(and_(ge(k, I0), lt(k, d)), at(k)))))
        if self.bound is not None:
            ex.assume(gt(app("pow2", (self.bound,), "I"), self.bound))
            S.prove("the count ends", not_(at(self.bound)))
        fr.env[v] = d
        if ex.branch(t):
            ex.exec_block(st.body, fr)
            S.prove("the count goes up by one", eq(num(fr.env[v]), add(d, I1)))
            raise Infeasible()
        return True

    # ---------------------------------------------------------------- levels
    def levels(self, ex, st, fr, lo, hi, body):
        S, cor = self.S, self.cor
        if lo is not I0 or len(cor.calls) != 1:
            raise Unsupported("a loop over the levels after one calculation at full rate")
        self.loops += 1
        fast = cor.calls[0]
        axis = fast["axis"]
        names = set(n.id for b in st.body + [st.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
        if any(isinstance(n, (ast.Break, ast.Return)) for b in st.body for n in ast.walk(b)):
            raise Unsupported("the loop over the levels ends early")
        entry = dict(fr.env)
        first = dict(ex.heap)
        i = fresh("level")
        ex.assume(and_(ge(i, lo), lt(i, hi)))
        LEN = app("frames", (i,), "I")
        self.length, self.i = LEN, i
        ex.assume(ge(LEN, I0))
        self.known(ex, i, hi)
        # the signals carried from level to level
        q = tuple(fresh("px") for _ in fast["rest"])
        tq = fresh("t")
        role = {}
        for n in names:
            a = entry.get(n)
            if not isinstance(a, Arr):
                continue
            if a.ndim != fast["ndim"]:
                raise Unsupported("an array carried from level to level")
            ix = list(q)
            ix.insert(axis, tq)
            v = cplx(ex.read(a, tuple(ix)))
            for r, rd in fast["rd"].items():
                w = cplx(rd(q, tq))
                if v.re is w.re and v.im is w.im:
                    role[n] = r
                    break
            else:
                raise Unsupported("an array carried from level to level that is no signal")
        self.state = {}
        kept = {}                    # constants, proved to be the same after an iteration
        for n in names:
            v = entry.get(n)
            if n in role:
                a, r = entry[n], role[n]
                rd0 = ex.reader(a)

                def content(ix, rd0=rd0, r=r, dt=a.dtype):
                    px = tuple(x for k, x in enumerate(ix) if k != axis)

                    def at(t):
                        j = list(px)
                        j.insert(axis, t)
                        return rd0(tuple(j))
                    return sym_reader("level_" + r, dt)((i, ix[axis], series(fast["N"], at, r)))
                sh = list(a.shape)
                sh[axis] = LEN
                fr.env[n] = self.state[n] = ex.alloc(tuple(sh), a.dtype, Fn(content))
            elif is_num(v) and not isinstance(v, CV):
                e = num(v)
                if e.op == "const" and e.sort == "I":
                    kept[n] = e                       # proved below to be the same again
                else:
                    fr.env[n] = fresh("carried_" + n) if e.sort == "I" else var(fresh("carried_" + n).args[0], "R")
            elif v is None and n in entry:
                kept[n] = None
            else:
                fr.env[n] = Carried(n)
        # the output: levels below i arbitrary
        held = {}

        def havoc(stores):
            for s in stores:
                c, rd = first[s], sym_reader("done_%d" % s, ex.sdtype[s])
                ex.heap[s] = held[s] = Fn(lambda ix, c=c, rd=rd: n_ite(lt(ix[0], i), rd(ix), c.read(ix)))

        env1 = dict(fr.env)

        def dry():
            fr.env.clear()
            fr.env.update(env1)
            n0 = len(cor.calls)
            body(i, fr)
            del cor.calls[n0:]
            return "ok", ([s for s in first if ex.heap.get(s) is not first[s]], {n: fr.env.get(n) for n in kept})
        ps = ex.explore(dry)
        stores = sorted(set(s for p in ps for s in p["val"][0]))
        for n, e in kept.items():
            for p in ps:
                w = p["val"][1][n]
                if e is None:
                    if w is not None:
                        raise Unsupported("a variable that is None at first")
                elif not (is_num(w) and num(w) is e):
                    break
            else:
                continue
            env1[n] = fresh("carried_" + n)
        fr.env.clear()
        fr.env.update(env1)
        havoc(stores)
        n0 = len(cor.calls)
        body(i, fr)
        new = cor.calls[n0:]
        S.prove("one calculation per level", len(new) == 1)
        if len(new) != 1:
            raise Infeasible()
        self.slow = slow = new[0]
        # binning
        after = {role[n]: (fr.env.get(n), self.state[n]) for n in role}
        px = tuple(fresh("px") for _ in fast["rest"])
        t = fresh("t")
        k0 = len(ex.pc)
        up = self.halved(LEN)
        for x, m in zip(px, fast["rest"]):
            ex.assume(rng(x, num(m)))
        ex.assume(rng(t, up))
        pairs = []
        for r, (b, a) in sorted(after.items()):
            if not (isinstance(b, Arr) and b.ndim == a.ndim):
                raise Unsupported("a signal changes its type")
            sh = list(a.shape)
            sh[axis] = up
            for x, y in zip(b.shape, sh):
                S.prove("shape of the binned data", eq(num(x), num(y)))

            def at(arr, tt):
                ix = list(px)
                ix.insert(axis, tt)
                return ex.read(arr, tuple(ix))
            pairs.append((r, at(b, t), at(a, scale(t, 2)), at(a, add(scale(t, 2), I1))))
        self.pick = 0
        if self.binning == 2:
            same = lambda v, w: all(ex.valid(eq(x, y)) for x, y in zip((cplx(v).re, cplx(v).im), (cplx(w).re, cplx(w).im)))
            self.pick = 0 if all(same(v, x) for _, v, x, y in pairs) else 1
        for r, v, x, y in pairs:
            S.prove_eq("data of the next level", v, self.bin(x, y))
        del ex.pc[k0:]
        # the output
        for s in stores:
            ix = tuple(fresh("o") for _ in ex.full[s])
            k0 = len(ex.pc)
            for x, m in zip(ix, ex.full[s]):
                ex.assume(rng(x, num(m)))
            ex.assume(ne(ix[0], i))
            S.prove_eq("a level changes its own output only", ex.heap[s].read(ix), held[s].read(ix))
            del ex.pc[k0:]
        for s in stores:
            c = ex.heap[s]

            def content(ix, c=c, s=s):
                v = c.read((i,) + tuple(ix[1:]))
                for e in (v.re, v.im) if isinstance(v, CV) else (num(v),):
                    if has_app(e, ("done_%d" % s,)):
                        raise Unsupported("a level reads the output of another")
                return exsub(v, {i: num(ix[0])})
            ex.heap[s] = Fn(content)
        for n in names:
            fr.env[n] = Carried(n)
        return True

    def halved(self, m):
        return floordiv(add(m, I1) if self.binning == 0 else m, const(2))

    def bin(self, x, y):
        if self.binning == 1:
            return n_mul(const("1/2", "R"), n_add(x, y))
        return (x, y)[self.pick]

    def known(self, ex, i, hi):
        pass
