"""Loop summaries: closed-form invariants inferred from one arbitrary iteration and then
checked (initiation is syntactic, preservation is proved with the unfold-last axiom)."""
import re

from .expr import *
from .expr import isconst, cval
from . import solve, sums
from .sym import *
from .sym import _Ret, _Brk, _Cnt


def leaves(e, conds=()):
    """flatten the if-then-else structure at the top of e (and of linear combinations)"""
    if e.op == "ite":
        c = e.args[0]
        a = and_(*(conds + (c,)))
        b = and_(*(conds + (not_(c),)))
        out = []
        if a is not FALSE:
            out += leaves(e.args[1], conds + (c,))
        if b is not FALSE:
            out += leaves(e.args[2], conds + (not_(c),))
        return out
    return [(conds, e)]


def restrict(e, conds):
    """drop ite branches excluded syntactically by conds"""
    true = set()
    for c in conds:
        true.update(sums.conj(c))

    def go(x):
        if x.op == "ite":
            c = x.args[0]
            cs = sums.conj(c)
            if all(y in true for y in cs):
                return go(x.args[1])
            if any(not_(y) in true for y in cs) or not_(c) in true:
                return go(x.args[2])
            return ite(c, go(x.args[1]), go(x.args[2]))
        return x
    return go(e)


def vleaves(v):
    """leaves of a value (E or CV): list of (conds, value)"""
    if isinstance(v, CV):
        out = []
        for cs, re in leaves(v.re):
            im = restrict(v.im, cs)
            for cs2, im2 in leaves(im):
                out.append((cs + cs2, CV(re, im2)))
        return out
    return leaves(v)


def comps(v):
    return (v.re, v.im) if isinstance(v, CV) else (v,)


class Havoc(object):
    def __init__(self, name, nd, dtype):
        self.name, self.nd, self.dtype = name, nd, dtype
        self.names = (name + ".re", name + ".im") if dtype == "C" else (name,)
        self.reader = sym_reader(name, dtype)


def mentions(e, hnames, hvars):
    if e.fv & hvars:
        return True
    if hnames:
        for x in walk(e):
            if x.op == "app" and x.args[0] in hnames:
                return True
    return False


def vmentions(v, hnames, hvars):
    return any(mentions(c, hnames, hvars) for c in comps(v))


def vsub(a, b):
    return n_sub(a, b)


def summarise(ex, ranges, body, fr, tnames, where):
    vs = [fresh("i") for _ in ranges]
    old_start, ex.iter_start = ex.iter_start, int(vs[-1].args[0].split("!")[-1]) + 1
    ex.lanes.append((tuple(vs), tuple(r for v, (lo, hi) in zip(vs, ranges) for r in (ge(v, lo), lt(v, hi)))))
    try:
        return _summarise(ex, ranges, vs, body, fr, tnames, where)
    finally:
        ex.iter_start = old_start
        ex.lanes.pop()


def _summarise(ex, ranges, vs, body, fr, tnames, where):
    rng = []
    for v, (lo, hi) in zip(vs, ranges):
        rng += [ge(v, lo), lt(v, hi)]
    RNG = and_(*rng)
    env0 = dict(fr.env) if fr is not None else {}
    heap0 = dict(ex.heap)
    pc0 = list(ex.pc)
    nstore0 = ex.nstore
    sid_mod, var_mod = {}, {}
    known_fv = set()
    single = len(ranges) == 1
    lists0 = {k: list(v) for k, v in env0.items() if isinstance(v, list)}
    ny = len(fr.yields) if fr is not None and isinstance(fr.yields, list) else None
    real_vars = set()
    for _round in range(8):
        hav = {}
        for sid in sid_mod:
            h = Havoc("H%d!%d" % (sid, ex.sumcount), len(ex.full[sid]), ex.sdtype[sid])
            hav[sid] = h
        ex.sumcount += 1
        hv = {}
        for n in var_mod:
            v0 = env0.get(n, UNDEF)
            if n in tnames:
                continue
            if isinstance(v0, CV) or (is_num(v0) and n in real_vars and real_vars and n + "#c" in real_vars):
                hv[n] = CV(fresh(n, "R"), fresh(n, "R"))
            elif isinstance(v0, bool) or (isinstance(v0, E) and v0.sort == "B"):
                hv[n] = fresh(n, "B")
            elif is_num(v0):
                s = num(v0).sort
                hv[n] = fresh(n, "R" if n in real_vars else s)

        def run():
            if fr is not None:
                fr.env.clear()
                fr.env.update(env0)
                for k, l in lists0.items():
                    del env0[k][:]
                    env0[k].extend(l)
                if ny is not None:
                    del fr.yields[ny:]
                for n in var_mod:
                    fr.env[n] = hv.get(n, UNDEF)
            for sid, h in hav.items():
                ex.heap[sid] = Fn(h.reader)
            start.clear()
            start.update(ex.heap)
            for c in rng:
                ex.assume(c)
            if not ex.dec_feasible():
                raise Infeasible()
            kind = "ok"
            try:
                body(vs)
            except _Brk:
                kind = "brk"
            except _Ret:
                kind = "ret"
            except PyExc as e:
                return "exc", e
            ys = None
            if ny is not None:
                ys = list(fr.yields[ny:])
                del fr.yields[ny:]
            for k, l in lists0.items():
                if len(l) != len(env0[k]) or any(a is not b for a, b in zip(l, env0[k])):
                    env0[k][:] = l
                    raise Unsupported("list %s modified in a symbolic loop (%s)" % (k, where))
            return kind, (dict(fr.env) if fr is not None else {}, ys)
        start = {}
        paths = ex.explore(run)
        if fr is not None:
            fr.env.clear()
            fr.env.update(env0)
        again = False
        if not paths:
            return      # no feasible iteration
        nax = len(ex.axioms)
        for p in paths:
            for a in p["axioms"][nax:]:
                if a.fv & set(vs):
                    raise Unsupported("auxiliary axiom about a single iteration (%s)" % where)
                if a not in ex.axioms:
                    ex.axioms.append(a)
        for p in paths:
            if p["kind"] == "exc":
                e = p["val"]
                if e.kind in ("NameError", "UnboundLocalError"):
                    raise NeedPeel(str(e))
                raise Unsupported("exception %s inside a symbolic loop (%s)" % (e, where))
            if p["kind"] != "ok":
                raise Unsupported("%s inside a symbolic loop (%s)" % (p["kind"], where))
            env, ys = p["val"]
            for sid, c in p["heap"].items():
                if sid <= nstore0 and c is not start.get(sid) and sid not in sid_mod:
                    sid_mod[sid] = True
                    again = True
            for n, v in env.items():
                base = hv.get(n, env0.get(n, UNDEF))
                if n in tnames:
                    if n not in var_mod:
                        var_mod[n] = True
                    continue
                if same_value(v, base):
                    continue
                if n not in var_mod:
                    var_mod[n] = True
                    again = True
                elif n in hv and is_num(v):
                    nv = num(v)
                    if isinstance(hv[n], E) and hv[n].sort == "I" and isinstance(nv, E) and nv.sort == "R" and n not in real_vars:
                        real_vars.add(n)
                        again = True
                    if isinstance(hv[n], E) and isinstance(nv, CV):
                        real_vars.add(n)
                        real_vars.add(n + "#c")
                        again = True
        if not again:
            break
    else:
        raise Unsupported("loop summary does not stabilise (%s)" % where)

    hnames = set(n for h in hav.values() for n in h.names)
    hvars = frozenset(x for v in hv.values() for x in comps(v) if isinstance(x, E))
    i = vs[0] if single else None
    lo, hi = ranges[0]
    allowed = set(vs)
    res_scalar = {}          # name -> function(i E) giving the value before iteration i
    after = {}
    unresolved = {}
    for n in var_mod:
        vals = [p["val"][0].get(n, UNDEF) for p in paths]
        if not all(is_num(v) for v in vals):
            after[n] = UNDEF
            if n not in tnames and n in hv:
                raise Unsupported("variable %s changes type in a symbolic loop (%s)" % (n, where))
            if all(isinstance(v, Arr) and v.store <= nstore0 and v is vals[0] for v in vals) and not vals[0] is UNDEF and \
                    all(not (x.fv & allowed) for m in vals[0].maps for x in m[1:] if isinstance(x, E)):
                after[n] = vals[0]
            continue
        f = None
        for p, v in zip(paths, vals):
            c = and_(*[x for x in p["pc"] if x not in pc0 and x not in rng])
            f = num(v) if f is None else n_ite(c, num(v), f)
        unresolved[n] = f
    arr_unres = dict((sid, None) for sid in sid_mod)
    smap = {}                # havoc variable -> closed form at iteration i
    amap = {}                # havoc array name -> function(args)-> E at iteration i
    final = {}

    def apply_res(e):
        if smap:
            e = subst(e, smap)
        if amap:
            def f(name, args, sort):
                if name in amap:
                    return amap[name](args)
                return None
            if any(x.op == "app" and x.args[0] in amap for x in walk(e)):
                e = map_apps(e, f)
        return e

    def vapply(v):
        return n_map(v, apply_res)

    def live():
        hn = set(n for s in arr_unres for n in hav[s].names)
        hvv = frozenset(x for n in unresolved if n in hv for x in comps(hv[n]))
        return hn, hvv

    def add_scalar(n, closed, aft):
        res_scalar[n] = closed
        after[n] = aft
        if n in hv:
            cl = closed(i)
            for a, b in zip(comps(hv[n]), comps(cplx(cl) if isinstance(hv[n], CV) else num(cl))):
                smap[a] = b if a.sort != "R" else toreal(b)
        del unresolved[n]

    def resolve_scalars():
        progress = False
        for n in list(unresolved):
            f = vapply(unresolved[n])
            hn, hvv = live()
            v0 = env0.get(n, UNDEF)
            S = hv.get(n)
            if S is not None and same_value(f, S):
                add_scalar(n, lambda iv, v0=v0: num(v0), num(v0))
                progress = True
                continue
            if not single:
                continue
            if not vmentions(f, hn, hvv):
                check_scope(ex, f, vs, env0, where)
                def closed(iv, f=f, v0=v0):
                    prev = n_subst(f, {i: sub(iv, I1)})
                    if v0 is UNDEF or not is_num(v0):
                        return prev
                    return n_ite(gt(iv, lo), prev, num(v0))
                aft = n_subst(f, {i: sub(hi, I1)})
                if is_num(v0) and v0 is not UNDEF and ex.decide(lt(lo, hi)) is not True:
                    aft = n_ite(lt(lo, hi), aft, num(v0))
                elif not is_num(v0) and ex.decide(lt(lo, hi)) is not True:
                    if n in tnames or v0 is UNDEF:
                        # only defined when the loop runs at least once
                        aft = aft if ex.valid(lt(lo, hi)) else MaybeUndef(lt(lo, hi), aft)
                add_scalar(n, closed, aft)
                progress = True
                continue
            if S is None:
                continue
            d = vsub(f, S)
            if not vmentions(d, hn, hvv):
                check_scope(ex, d, vs, env0, where)

                def closed(iv, d=d, v0=v0, isint=isinstance(S, E) and S.sort == "I"):
                    j = fresh("b")
                    g = and_(ge(j, lo), lt(j, iv))
                    dd = n_subst(d, {i: j})
                    return n_add(v0, n_map(dd, lambda x: sum_((j,), g, x)))
                aft = closed(hi)
                # preservation: closed(i+1) == closed(i) + d(i)
                preserve(ex, [(c1, c2) for c1, c2 in zip(comps(n_add(closed(i), d)), comps(closed(add(i, I1))))], rng, "%s:%s" % (where, n))
                add_scalar(n, closed, aft)
                progress = True
        return progress

    def resolve_arrays(final_try):
        progress = False
        for sid in list(arr_unres):
            h = hav[sid]
            ps = [fresh("p") for _ in range(h.nd)]
            infl = []           # (guard, kind, value, psubst)
            ok = True
            hn, hvv = live()
            hn_others = hn
            own = h.reader(tuple(ps))
            inr = []
            for p_, d_ in zip(ps, ex.full[sid]):
                inr += [ge(p_, I0), lt(p_, num(d_))]
            leafs = []
            for p in paths:
                v = p["heap"][sid].read(tuple(ps))
                c0 = tuple(x for x in p["pc"] if x not in pc0 and x not in rng)
                for cs, lv in vleaves(v):
                    leafs.append((c0 + cs, lv))
            for cs, lv in leafs:
                if same_value(lv, own):
                    continue
                g = apply_res(and_(*cs))
                if g is FALSE:
                    continue
                # substitute p := idx
                m = {}
                for c in sums.conj(g):
                    if c.op == "eq" and c.args[0].sort == "I":
                        k0, d = lin(c.args[0])
                        for pv in ps:
                            if pv in d and abs(d[pv]) == 1 and pv not in m:
                                rest = mklin(k0, {t: k for t, k in d.items() if t is not pv}, "I")
                                if not (rest.fv & set(ps)):
                                    m[pv] = neg(rest) if d[pv] == 1 else rest
                                    break
                lv2 = n_subst(vapply(lv), m)
                own2 = n_subst(own, m)
                if same_value(lv2, own2):
                    continue
                g2 = subst(g, m)
                if mentions(g2, hn, hvv):
                    ok = False
                    break
                if not vmentions(lv2, hn, hvv):
                    infl.append((g, "set", lv2, m))
                    continue
                d = vsub(lv2, own2)
                if not vmentions(d, hn, hvv):
                    infl.append((g, "acc", d, m))
                    continue
                # prune infeasible leaves and inner branches before giving up
                if not feasible(ex, rng + inr + [g2]):
                    continue
                lv3 = n_map(lv2, lambda x: prune(ex, x, rng + [g2] + [c for c in inr if not (c.fv & set(ps)) or not m] + [subst(c, m) for c in inr]))
                if not vmentions(lv3, hn, hvv):
                    infl.append((g, "set", lv3, m))
                    continue
                d = vsub(lv3, own2)
                if not vmentions(d, hn, hvv):
                    infl.append((g, "acc", d, m))
                    continue
                ok = False
                break
            if not ok:
                continue
            kinds = set(k for _, k, _, _ in infl)
            if len(kinds) > 1:
                infl = [x for x in infl if feasible(ex, rng + inr + [x[0]])]
                kinds = set(k for _, k, _, _ in infl)
            base = heap0[sid]
            for g, _, v, _ in infl:
                check_scope(ex, v, list(vs) + ps, env0, where)
            if not kinds:
                final[sid] = base
                for nme, k in zip(h.names, range(2)):
                    amap[nme] = (lambda args, k=k: comps(base.read(tuple(args)))[k])
                del arr_unres[sid]
                progress = True
                continue
            if kinds == {"acc"}:
                def delta(idx, upto, infl=infl, ps=ps):
                    bv = [fresh("b") for _ in vs]
                    ren = dict(zip(vs, bv))
                    gr = subst(RNG, ren)
                    if upto is not None:
                        gr = and_(ge(bv[0], lo), lt(bv[0], upto))
                    tot = None
                    for g, _, d, m in infl:
                        g3 = subst(subst(g, dict(zip(ps, idx))), ren)
                        d3 = n_subst(n_subst(d, dict(zip(ps, idx))), ren)
                        t = n_map(d3, lambda x: sum_(tuple(bv), and_(gr, g3), x))
                        tot = t if tot is None else n_add(tot, t)
                        bv2 = [fresh("b") for _ in vs]
                        ren = dict(zip(vs, bv2))
                        gr = subst(RNG, ren)
                        bv = bv2
                        if upto is not None:
                            gr = and_(ge(bv[0], lo), lt(bv[0], upto))
                    return tot
                if single:
                    # preservation of the invariant  A_i(p) = A_0(p) + sum_{j<i} delta_j(p)
                    bdy = None
                    for g, _, d, m in infl:
                        t = n_map(d, lambda x: ite(g, x, const(0, x.sort)))
                        bdy = t if bdy is None else n_add(bdy, t)
                    lhs = n_add(delta(ps, i), bdy)
                    rhs = delta(ps, add(i, I1))
                    preserve(ex, list(zip(comps(lhs), comps(rhs))), rng + inr, "%s:array" % where)
                final[sid] = Fn(lambda idx, base=base, delta=delta: n_add(base.read(idx), delta(idx, None)))
                if single:
                    for nme, k in zip(h.names, range(2)):
                        amap[nme] = (lambda args, k=k, base=base, delta=delta: comps(n_add(base.read(tuple(args)), delta(tuple(args), i)))[k])
                del arr_unres[sid]
                progress = True
                continue
            if kinds == {"set"}:
                hits = []
                good = True
                for g, _, v, m in infl:
                    vm = {}
                    bv = [fresh("b") for _ in vs]
                    ren = dict(zip(vs, bv))
                    g3 = subst(and_(RNG, g), ren)
                    v3 = n_subst(v, ren)
                    left, g4, vals = sums.solve_eqs(bv, g3, list(bv) + list(comps(v3)))
                    if g4 is FALSE:
                        continue
                    if left:
                        # value independent of the remaining variables and guard only their range
                        if single and not (subst(g, ren).fv & set(left)):
                            iv = sub(hi, I1)
                            vals = [iv] + [subst(x, {left[0]: iv}) for x in comps(v3)]
                            g4 = and_(lt(lo, hi), subst(g, ren))
                        else:
                            good = False
                            break
                    vv = CV(vals[len(bv)], vals[len(bv) + 1]) if isinstance(v3, CV) else vals[len(bv)]
                    hits.append((g4, vals[:len(bv)], vv))
                if not good:
                    continue
                # two different iterations that hit the same element: the later one wins
                order = []
                for a in range(len(hits)):
                    ga, ia, va = hits[a]
                    for b in range(len(hits)):
                        if b != a and feasible(ex, inr + [hits[a][0], hits[b][0], lt(ia[0], hits[b][1][0])]):
                            if not single:
                                good = False
                            ga = and_(ga, not_(and_(hits[b][0], lt(ia[0], hits[b][1][0]))))
                    order.append((ga, va))
                if not good:
                    continue
                def rd(idx, order=order, ps=ps, base=base):
                    mm = dict(zip(ps, idx))
                    r = base.read(idx)
                    for g, v in order:
                        r = n_ite(subst(g, mm), n_subst(v, mm), r)
                    return r
                final[sid] = Fn(rd)
                if single:
                    hits2 = hits

                    def at(args, k, hits=hits2, ps=ps, base=base):
                        mm = dict(zip(ps, args))
                        r = base.read(tuple(args))
                        for g, iv, v in hits:
                            r = n_ite(and_(subst(g, mm), lt(subst(iv[0], mm), i)), n_subst(v, mm), r)
                        return comps(r)[k]
                    if len(hits) == 1:
                        for nme, k in zip(h.names, range(2)):
                            amap[nme] = (lambda args, k=k, at=at: at(args, k))
                del arr_unres[sid]
                progress = True
                continue
        return progress

    while unresolved or arr_unres:
        if resolve_scalars():
            continue
        if resolve_arrays(False):
            continue
        break
    if unresolved or arr_unres:
        if single and getattr(ex, "allow_rec", False):
            recursion(ex, locals())
            if unresolved or arr_unres:
                raise NeedPeel("no closed form for %s %s (%s)" % (sorted(unresolved), sorted(arr_unres), where))
        else:
            raise NeedPeel("no closed form for %s %s (%s)" % (sorted(unresolved), sorted(arr_unres), where))
    ex.restore({"heap": heap0, "pc": pc0, "axioms": ex.axioms, "ctx": ex.ctx})
    for sid, c in final.items():
        ex.heap[sid] = c
    if fr is not None:
        for n, v in after.items():
            fr.env[n] = v if isinstance(v, MaybeUndef) else (simp(v) if isinstance(v, E) else v)
        if ny is not None:
            ylists = [p["val"][1] for p in paths]
            if any(ylists):
                if ny != 0 or len(paths) != 1 or len(ylists[0]) != 1:
                    raise Unsupported("irregular yield in a symbolic loop")
                y = ylists[0][0]
                fr.yields = Stream(sub(hi, lo), StreamElem(i, lo, y, ex, paths[0]))
    ex.summaries.append(where)


class StreamElem(object):
    def __init__(self, i, lo, y, ex, path):
        self.i, self.lo, self.y, self.ex, self.path = i, lo, y, ex, path

    def __call__(self, k):
        m = {self.i: add(self.lo, num(k))}
        heap = self.path["heap"]
        ex = self.ex

        def inst(y):
            if isinstance(y, tuple):
                return tuple(inst(x) for x in y)
            if isinstance(y, list):
                return [inst(x) for x in y]
            if isinstance(y, (E, CV)):
                return n_subst(y, m)
            if isinstance(y, Arr):
                c = heap[y.store]
                shp = tuple(simp(subst(num(s), m)) for s in y.shape)
                return ex.alloc(shp, y.dtype, Fn(lambda idx: n_subst(c.read(ex.store_index(y, idx)), m)))
            return y
        return inst(self.y)


class MaybeUndef(object):
    def __init__(self, cond, v):
        self.cond, self.v = cond, v


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, CV) and isinstance(b, CV):
        return a.re is b.re and a.im is b.im
    if is_num(a) and is_num(b) and not isinstance(a, CV) and not isinstance(b, CV):
        if type(a) is bool or type(b) is bool:
            return type(a) is type(b) and a == b
        return num(a) is num(b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.store == b.store and a.maps == b.maps and a.shape == b.shape
    if isinstance(a, (tuple, list)) and isinstance(b, type(a)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, type(None), DType)):
        return a == b
    return False


def prune(ex, e, hyps):
    """decide the conditional branches of e (outside sums) under hyps"""
    def go(x, hyps):
        if x.op in ("sum", "forall", "var", "const") or not any(y.op == "ite" for y in walk(x)):
            return x
        if x.op == "ite":
            c = x.args[0]
            if not feasible(ex, hyps + [c]):
                return go(x.args[2], hyps)
            if not feasible(ex, hyps + [not_(c)]):
                return go(x.args[1], hyps)
            return ite(go(c, hyps), go(x.args[1], hyps + [c]), go(x.args[2], hyps + [not_(c)]))
        return rebuild(x, lambda y: go(y, hyps))
    return go(e, list(hyps))


def feasible(ex, extra):
    return solve.check(ex.hyps() + list(extra), 3000) != "unsat"


def preserve(ex, pairs, hyps, name):
    """obligation: the inferred invariant is preserved by the loop body"""
    key = "/".join(ex.ctx[-2:]) + ":invariant " + name
    for a, b in pairs:
        r = sums.prove_eq(a, b, ex.pc + list(hyps), ex.axioms, ex.timeout_ms)
        if not r.ok:
            raise Unsupported("inferred loop invariant not preserved (%s): %s" % (name, r.detail[:300]))
    ex.safety.setdefault(key, ("proved", "", 1))


def check_scope(ex, v, vs, env0, where):
    """the generalised expression must not depend on symbols created inside the iteration"""
    ok = set(vs)
    for c in comps(v):
        for x in c.fv:
            if x in ok:
                continue
            nm = x.args[0]
            k = nm.rfind("!")
            if k >= 0 and nm[k + 1:].isdigit() and int(nm[k + 1:]) >= ex.iter_start:
                raise Unsupported("value depends on a symbol created inside the loop (%s)" % where)


def foreign(ex, e):
    """e depends on something private to one iteration of an enclosing loop: the contents or variables
    at its start, or a symbol introduced inside it"""
    lanes = set(v for vv, _ in ex.lanes for v in vv)
    first = min(int(v.args[0].rsplit("!", 1)[1]) for v in ex.lanes[0][0])
    for x in walk(e):
        if x.op == "app":
            if re.match(r"H\d+!\d+", x.args[0]):
                return True
            nm = x.args[0] if not re.match(r"[RS][^!]*!\d+", x.args[0]) else ""
        elif x.op == "var" and x not in lanes:
            nm = x.args[0]
        else:
            continue
        t = nm.rsplit("!", 1)
        if len(t) == 2 and t[1].isdigit() and int(t[1]) >= first:
            return True
    return False


def recursion(ex, L):
    """recursively defined sequences: always sound, used when no closed form exists"""
    single = L["single"]
    i, lo, hi, vs, rng = L["i"], L["lo"], L["hi"], L["vs"], L["rng"]
    unresolved, arr_unres, hv, hav = L["unresolved"], L["arr_unres"], L["hv"], L["hav"]
    env0, heap0, paths, pc0 = L["env0"], L["heap0"], L["paths"], L["pc0"]
    vapply, apply_res, after, final, smap = L["vapply"], L["apply_res"], L["after"], L["final"], L["smap"]
    ex.sumcount += 1
    tag = ex.sumcount
    # the sequences are functions of the enclosing loop variables as well
    ov = tuple(v for vv, _ in ex.lanes[:-1] for v in vv)
    orng = [r for _, rr in ex.lanes[:-1] for r in rr]
    # --- arrays: every element written at most once, references only to elements already final
    for sid in list(arr_unres):
        if len(arr_unres) > 1 or any(n in hv for n in unresolved):
            return
        h = hav[sid]
        if h.dtype == "C":
            return
        ps = [fresh("p") for _ in range(h.nd)]
        own = h.reader(tuple(ps))
        inr = []
        for p_, d_ in zip(ps, ex.full[sid]):
            inr += [ge(p_, I0), lt(p_, num(d_))]
        tot = own
        m = None
        for p in paths:
            v = p["heap"][sid].read(tuple(ps))
            c0 = and_(*[x for x in p["pc"] if x not in pc0 and x not in rng])
            tot = ite(apply_res(c0), apply_res(v), tot)
        # locate the written index: p = idx(i)
        cand = None
        for cs, lv in leaves(tot):
            if lv is own:
                continue
            mm = {}
            for c in cs:
                for c1 in sums.conj(c):
                    if c1.op == "eq" and c1.args[0].sort == "I":
                        k0, d = lin(c1.args[0])
                        for pv in ps:
                            if pv in d and abs(d[pv]) == 1 and pv not in mm and not any(x.op == "app" and x.args[0] in h.names for x in walk(c1)):
                                rest = mklin(k0, {t: k for t, k in d.items() if t is not pv}, "I")
                                if not (rest.fv & set(ps)):
                                    mm[pv] = neg(rest) if d[pv] == 1 else rest
            if not feasible(ex, rng + inr + list(cs)):
                continue
            if len(mm) != len(ps):
                # fixed axes may be constants: require all
                return
            key = tuple(mm[q] for q in ps)
            if cand is None:
                cand = key
            elif cand != key:
                return
        if cand is None:
            return
        bv = fresh("b")
        g = and_(*([eq(q, subst(x, {i: bv})) for q, x in zip(ps, cand)] + [subst(c, {i: bv}) for c in rng]))
        left, g4, vals = sums.solve_eqs([bv], g, [bv])
        if left:
            return
        istar = vals[0]
        val = subst(tot, dict(zip(ps, cand)))     # in terms of i, own refs H(q)
        # drop identity leaf: element not written although index matches -> H(idx)
        rname = "R%d!%d" % (sid, tag)
        refs = [x for x in walk(val) if x.op == "app" and x.args[0] in h.names]
        for x in refs:
            q = x.args[1:]
            written_later = subst(and_(g4, ge(istar, i)), dict(zip(ps, q)))
            same = and_(*[eq(a, b) for a, b in zip(q, cand)])
            if feasible(ex, rng + [written_later, not_(same)]):
                return
        if any(feasible(ex, rng + inr + [and_(*[eq(a, b) for a, b in zip(x.args[1:], cand)])]) and x.args[1:] != cand for x in refs):
            return
        base = heap0[sid]

        def tr(e):
            def f(name, args, sort):
                if name in h.names:
                    if tuple(args) == tuple(cand):
                        return base.read(tuple(args))
                    return element(args)
                return None
            return map_apps(e, f)

        def element(idx):
            """after the loop: written elements by the sequence, others as before"""
            idx = tuple(idx)
            return n_ite(subst(g4, dict(zip(ps, idx))), app(rname, idx + ov, own.sort), base.read(idx))
        v2 = prune(ex, tr(val), rng)
        if ov and foreign(ex, v2):
            return
        pv = subst(v2, {i: istar})
        R = app(rname, tuple(ps) + ov, own.sort)
        ex.axioms.append(forall(tuple(ps) + ov, implies(and_(g4, *(inr + orng)), eq(R, pv))))
        final[sid] = Fn(element)
        ex.recs.append({"array": rname, "sid": sid, "ps": ps, "guard": g4, "value": pv, "istar": istar})
        del arr_unres[sid]
    if not unresolved:
        return
    # --- scalars: joint recursive functions of the iteration number
    names = [n for n in unresolved]
    for n in names:
        if n not in hv:
            return
    fn = {}
    for n in names:
        cs = comps(hv[n])
        fn[n] = ["S%s!%d.%d" % (n, tag, k) for k in range(len(cs))]
    at = lambda n, iv: [app(f, (iv,) + ov, c.sort) for f, c in zip(fn[n], comps(hv[n]))]
    m = {}
    for n in names:
        for a, b in zip(comps(hv[n]), at(n, i)):
            m[a] = b
    ax = []
    if ov and any(foreign(ex, x) for n in names for x in comps(n_map(vapply(unresolved[n]), lambda x: subst(x, m))) + comps(num(env0[n]) if not isinstance(env0[n], CV) else env0[n])):
        return
    for n in names:
        f = vapply(unresolved[n])
        f = n_map(f, lambda x: subst(x, m))
        f = cplx(f) if isinstance(hv[n], CV) else num(f)
        v0 = cplx(env0[n]) if isinstance(hv[n], CV) else num(env0[n])
        for a, b in zip(at(n, lo), comps(v0)):
            c = eq(a, toreal(b) if a.sort == "R" else b)
            ax.append(forall(ov, implies(and_(*orng), c)) if ov else c)
        for a, b in zip(at(n, add(i, I1)), comps(f)):
            ax.append(forall((i,) + ov, implies(and_(*(list(rng) + orng)), eq(a, toreal(b) if a.sort == "R" else b))))
    for a in ax:
        ex.axioms.append(a)
    for n in names:
        v = at(n, hi)
        v = CV(*v) if isinstance(hv[n], CV) else v[0]
        if ex.decide(lt(lo, hi)) is not True:
            v = n_ite(lt(lo, hi), v, num(env0[n]))
        after[n] = v
        for a, b in zip(comps(hv[n]), at(n, i)):
            smap[a] = b
        ex.recs.append({"scalar": n, "fn": fn[n], "lo": lo, "hi": hi})
        del unresolved[n]
    # arrays may be resolvable now
    L["resolve_arrays"](True)
