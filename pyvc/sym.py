"""Symbolic executor for the Python source of /repo.

Every run parses the current source of /repo/cddm; nothing of it is copied here.  A loop
with symbolic bounds is executed once for an arbitrary iteration and summarised by an
invariant in closed form (accumulation -> sum, injective writes -> last value, scalars ->
additive / delayed / recursively defined); the invariant is checked, not assumed: it is
built from the body's effect by the unfold-last axiom of sums, and the side conditions
(injectivity, independence of the accumulated term, order of reads and writes) are
discharged by the SMT solver before it is used."""
import ast
import os
from fractions import Fraction
from .expr import *
from .expr import isconst, cval
from . import solve, sums

REPO = os.environ.get("PYVC_REPO", "/repo")


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class PyExc(Exception):
    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


class NeedPeel(Exception):
    pass


# ------------------------------------------------------------------ contents / arrays

class Content(object):
    def __init__(self):
        self.memo = {}

    def read(self, idx):
        idx = tuple(idx)
        r = self.memo.get(idx)
        if r is None:
            r = self._read(idx)
            self.memo[idx] = r
        return r


class Fn(Content):
    def __init__(self, f):
        Content.__init__(self)
        self._read = f

    def _read(self, idx):
        raise NotImplementedError


class Layer(Content):
    """a region write on top of prev; match(idx) -> (cond, local index)"""

    def __init__(self, prev, match, val):
        Content.__init__(self)
        self.prev, self.match, self.val = prev, match, val

    def _read(self, idx):
        c, loc = self.match(idx)
        if c is FALSE:
            return self.prev.read(idx)
        v = self.val(loc)
        if c is TRUE:
            return v
        return n_ite(c, v, self.prev.read(idx))


class Arr(object):
    """a view on a store: maps has one entry per store axis,
    ('fix', E) or ('ax', view axis, start, step)"""

    def __init__(self, store, shape, dtype, maps, tag=None):
        self.store, self.shape, self.dtype, self.maps = store, tuple(shape), dtype, tuple(maps)
        self.tag = tag

    @property
    def ndim(self):
        return len(self.shape)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "Arr#%s%s:%s" % (self.store, list(self.shape), self.dtype)


class FuncVal(object):
    def __init__(self, node, module, closure=None, kind="py", info=None, cls=None):
        self.node, self.module, self.closure, self.kind, self.info = node, module, closure, kind, info
        self.name = getattr(node, "name", "<lambda>")
        self.cls = cls

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<func %s.%s>" % (self.module.name, self.name)


class Builtin(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<builtin %s>" % self.name


class Opaque(object):
    """an attribute bag with no semantics of its own"""

    def __init__(self, name, attrs=None):
        self.name, self.attrs = name, (attrs if attrs is not None else {})

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<%s>" % self.name


class DType(object):
    def __init__(self, name, text=None):
        self.name, self.text = name, text        # text: the exact type, where it is known

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "dtype(%s)" % self.name


class RangeVal(object):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __deepcopy__(self, memo):
        return self


class EnumVal(object):
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __deepcopy__(self, memo):
        return self


class Stream(object):
    """symbolic finite stream: length and element function index -> value"""

    def __init__(self, length, elem):
        self.length, self.elem = length, elem

    def __deepcopy__(self, memo):
        return self


class Filtered(Stream):
    """the elements of a symbolic stream that pass a test, in order; elem gives EXCLUDED for the others"""


EXCLUDED = ("excluded",)


class CallIter(object):
    """iter(f, sentinel)"""
    def __init__(self, f, sentinel):
        self.f, self.sentinel = f, sentinel

    def __deepcopy__(self, memo):
        return self


class Iter(object):
    """an iterator over a symbolic stream (a generator, or the result of iter): it can be run through
    once and has no length"""
    def __init__(self, stream):
        self.stream, self.pos = stream, I0

    def __deepcopy__(self, memo):
        return self


class GenLoop(object):
    """the values yielded by one arbitrary iteration of a symbolic loop"""
    def __init__(self, i, lo, hi):
        self.i, self.lo, self.hi = i, lo, hi
        self.values, self.ended, self.changed = [], False, []

    def __deepcopy__(self, memo):
        return self


class Carried(object):
    """a variable whose value depends on the iterations before"""
    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, memo):
        return self


class SliceVal(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __deepcopy__(self, memo):
        return self


class Undef(object):
    def __deepcopy__(self, memo):
        return self


UNDEF = Undef()
ELLIPSIS = Opaque("Ellipsis")


def is_num(v):
    return isinstance(v, (E, CV, int, float, Fraction, complex)) or isinstance(v, bool)


def is_sym(v):
    return isinstance(v, (E, CV))


def simp(v):
    """symbolic constant -> python constant for ints and bools"""
    if isinstance(v, E) and v.op == "const":
        if v.sort == "I":
            return int(v.args[0])
        if v.sort == "B":
            return bool(v.args[0])
    return v


class Module(object):
    def __init__(self, ex, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.ns = {}
        self.defs = {}
        self.ex = ex
        self._scan(self.tree.body)
        self.busy = set()

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = ("from", st.module, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs[n.id] = ("assign", st)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                # else-branches of module level conditionals are alternatives: keep the first

    def get(self, name):
        if name in self.ns:
            return self.ns[name]
        d = self.defs.get(name)
        if d is None:
            raise KeyError(name)
        if name in self.busy:
            raise Unsupported("cyclic module constant %s" % name)
        self.busy.add(name)
        try:
            v = self._make(name, d)
        finally:
            self.busy.discard(name)
        self.ns[name] = v
        return v

    def _make(self, name, d):
        ex = self.ex
        if isinstance(d, ast.FunctionDef):
            return ex.make_function(d, self, None)
        if isinstance(d, ast.ClassDef):
            return ex.make_class(d, self)
        if d[0] == "import":
            return ex.import_module(d[1])
        if d[0] == "from":
            return ex.import_from(d[1], d[2])
        if d[0] == "assign":
            st = d[1]
            env = {}
            fr = Frame(self, env, None)
            ex.exec_stmt(st, fr)
            return env[name]
        raise Unsupported("module item %s" % name)


class Frame(object):
    def __init__(self, module, env, closure, func=None):
        self.module, self.env, self.closure, self.func = module, env, closure, func
        self.yields = None


class UStr(str):
    """a string whose content is not modelled: it cannot be compared"""
    def __eq__(self, other):
        raise Unsupported("comparison with a string that is not modelled")

    def __ne__(self, other):
        raise Unsupported("comparison with a string that is not modelled")

    def __hash__(self):
        raise Unsupported("hash of a string that is not modelled")

    def __add__(self, other):
        return UStr(str.__add__(self, other))

    def __radd__(self, other):
        return UStr("<str>")


class Exec(object):
    def __init__(self, repo=None, timeout_ms=8000):
        self.repo = repo or REPO
        self.mods = {}
        self.heap = {}
        self.partviews, self.lanes, self.nan_aware = {}, [], False
        self.conf_over, self.missing = {}, set()
        self.nstore = 0
        self.iter_start = 1 << 60
        self.full, self.sdtype, self.recs, self.allow_rec = {}, {}, [], False
        self.pc = []
        self.axioms = []
        self.trace = None
        self.pos = 0
        self.pending = None
        self.timeout_ms = timeout_ms
        self.dec = solve.Decider()
        self.safety = {}         # (name) -> (status, detail)
        self.ctx = []
        self.contracts = {}      # qualified function name -> handler(ex, func, args, kwargs)
        self.used_contracts = set()
        self.registry = None     # kernel.Registry of proved contracts
        self.executed = set()    # functions whose body was executed
        self.memo = {}
        self.depth = 0
        self.loop_hook = None
        self.queues, self.in_thread = [], False
        self.files, self.sets = [], {}
        self.elem, self.draw, self.ndraw, self.ncalls, self.draws = (), None, 0, 0, []
        self.check_bounds = True
        self.dfts = []
        self.sumcount = 0
        self.summaries = []
        from . import npmodel
        self.np = npmodel.make(self)
        self.builtins = npmodel.make_builtins(self)
        self.special_modules = npmodel.special_modules(self)

    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            path = os.path.join(self.repo, *name.split(".")) + ".py"
            if not os.path.exists(path):
                raise Unsupported("module %s" % name)
            m = Module(self, name, path)
            self.mods[name] = m
        return m

    def import_module(self, name):
        if name in self.missing:
            raise PyExc("ImportError", name)
        if name in self.special_modules:
            return self.special_modules[name]
        if name.startswith("cddm"):
            return Opaque("module:" + name, {"__module__": name})
        return Opaque("module:" + name)

    def import_from(self, mod, name):
        if mod == "__future__":
            return None
        q = "%s.%s" % (mod, name)
        ov = self.overrides(mod, name)
        if ov is not None:
            return ov
        if mod in self.special_modules:
            sm = self.special_modules[mod]
            return self.getattr(sm, name)
        if mod and mod.startswith("cddm"):
            return self.module(mod).get(name)
        return Opaque(q)

    def overrides(self, mod, name):
        from . import npmodel
        return npmodel.override(self, mod, name)

    def make_class(self, d, module):
        return Opaque("class:" + d.name, {"__class__": d, "__module__": module})

    def make_function(self, d, module, closure):
        kind, info = "py", None
        for dec in d.decorator_list:
            call = dec if isinstance(dec, ast.Call) else None
            f = dec.func if call else dec
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "?")
            if nm in ("jit", "njit"):
                kind = "jit"
            elif nm == "vectorize":
                kind, info = "vectorize", self._sigs(call, module)
            elif nm == "guvectorize":
                kind = "guvectorize"
                lay = None
                for a in call.args[1:]:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        lay = a.value
                for k in call.keywords:
                    if k.arg == "signature":
                        lay = k.value.value
                info = (self._sigs(call, module), parse_layout(lay), any(k.arg == "forceobj" for k in call.keywords))
            elif nm in ("deprecated", "doc_inherit", "skip_runtime_error", "staticmethod", "property"):
                pass
            else:
                raise Unsupported("decorator %s" % nm)
        return FuncVal(d, module, closure, kind, info)

    def _sigs(self, call, module):
        """list of tuples of type letters"""
        out = []
        if not call.args:
            return out
        a0 = call.args[0]
        elts = a0.elts if isinstance(a0, (ast.List, ast.Tuple)) and not (isinstance(a0, ast.Tuple) and False) else [a0]
        for s in elts:
            if isinstance(s, ast.Call):
                out.append((tuple(_tyname(x) for x in s.args), _tyname(s.func)))
            elif isinstance(s, ast.Tuple):
                out.append((tuple(_tyname(x) for x in s.elts), None))
        return out

    # ---------------------------------------------------------------- path handling
    def hyps(self):
        return self.axioms + self.pc

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise Infeasible()
        if c not in self.pc:
            self.pc.append(c)

    def add_axiom(self, c):
        if c is not TRUE and c not in self.axioms:
            self.axioms.append(c)

    def valid(self, c):
        if c.op == "const":
            return bool(cval(c))
        if c in self.pc:
            return True
        self.dec.axioms = self.axioms
        return self.dec.valid(self.pc, c, self.timeout_ms)

    def decide(self, c):
        if c.op == "const":
            return bool(cval(c))
        self.dec.axioms = self.axioms
        return self.dec.decide(self.pc, c)

    def branch(self, c):
        """truth value of a symbolic condition; forks the path when both are possible"""
        c = to_bool(c)
        if c.op == "const":
            return bool(cval(c))
        d = self.decide(c)
        if d is not None:
            return d
        if self.trace is None:
            raise Unsupported("branch on a symbolic condition outside a path exploration: %s" % show(c)[:200])
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
        else:
            v = True
            self.trace.append(True)
            self.pending.append(self.trace[:-1] + [False])
        self.pos += 1
        self.assume(c if v else not_(c))
        return v

    def explore(self, fn, max_paths=400):
        """run fn on every path; returns list of dicts (outcome, pc, heap, axioms)"""
        st = self.snapshot()
        otrace, opos, opend = self.trace, self.pos, self.pending
        work = [[]]
        res = []
        try:
            while work:
                tr = work.pop()
                self.restore(st)
                self.trace, self.pos, self.pending = list(tr), 0, work
                try:
                    kind, val = fn()
                except Infeasible:
                    continue
                res.append({"kind": kind, "val": val, "pc": list(self.pc), "newpc": self.pc[len(st["pc"]):],
                            "heap": dict(self.heap), "axioms": list(self.axioms), "nstore": self.nstore})
                if len(res) > max_paths:
                    raise Unsupported("too many paths")
        finally:
            self.trace, self.pos, self.pending = otrace, opos, opend
            ax = list(self.axioms)
            self.restore(st)
        return res

    def snapshot(self):
        return {"heap": dict(self.heap), "pc": list(self.pc), "axioms": list(self.axioms), "ctx": list(self.ctx)}

    def restore(self, s):
        self.heap = dict(s["heap"])
        self.pc = list(s["pc"])
        self.axioms = list(s["axioms"])
        self.ctx = list(s["ctx"])

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, c, detail=""):
        """safety obligation (index in bounds, ...) at the current program point"""
        if not self.check_bounds:
            return
        where = "/".join(self.ctx[-3:])
        key = "%s:%s" % (where, name)
        if c is TRUE:
            self.safety.setdefault(key, ("proved", "", 1))
            return
        ok = self.valid(c)
        old = self.safety.get(key)
        if ok:
            if old is None:
                self.safety[key] = ("proved", "", 1)
        else:
            r, m = solve.check(self.hyps() + [not_(c)], self.timeout_ms, want_model=True)
            self.safety[key] = ("sat" if r == "sat" else "unknown",
                                "%s not provable: %s%s" % (name, show(c)[:300], (" | model: " + str(m).replace("\n", " ")[:600]) if m is not None else ""), 1)

    # ---------------------------------------------------------------- heap
    def alloc(self, shape, dtype, content, tag=None):
        self.nstore += 1
        sid = self.nstore
        self.heap[sid] = content
        shape = tuple(num_dim(s) for s in shape)
        self.full[sid] = shape
        self.sdtype[sid] = dtype
        return Arr(sid, shape, dtype, [("ax", i, I0, 1) for i in range(len(shape))], tag)

    def sym_array(self, name, shape, dtype):
        """an arbitrary input array"""
        return self.alloc(shape, dtype, Fn(sym_reader(name, dtype)), tag=name)

    def fn_array(self, shape, dtype, f):
        return self.alloc(shape, dtype, Fn(lambda idx: cast_val(f(idx), dtype)))

    def store_index(self, a, idx):
        out = []
        for m in a.maps:
            if m[0] == "fix":
                out.append(m[1])
            else:
                _, ax, start, step = m
                out.append(add(start, scale(idx[ax], step)) if step != 1 else add(start, idx[ax]))
        return tuple(out)

    def reader(self, a):
        """closure reading the array as it is now"""
        if a.store in self.partviews:
            from . import npmodel
            npmodel.sync_part(self, a.store)
        c = self.heap[a.store]
        return lambda idx: c.read(self.store_index(a, tuple(num(i) for i in idx)))

    def read(self, a, idx):
        return self.reader(a)(idx)

    def write_view(self, a, valfn, cond=None):
        """assign valfn(view index) to every element of view a (where cond(view index))"""
        if a.store in self.partviews:
            from . import npmodel
            npmodel.sync_part(self, a.store)
        prev = self.heap[a.store]
        maps, shape, dt = a.maps, a.shape, a.dtype
        nview = len(shape)
        covered = set(m[1] for m in maps if m[0] == "ax")
        for ax in range(nview):
            if ax not in covered and simp(num(shape[ax])) != 1:
                raise Unsupported("write through a broadcast view")
        fullsh = self.full[a.store]
        fullax = [m[0] == "ax" and m[2] is I0 and m[3] == 1 and num(shape[m[1]]) is num(fullsh[k]) for k, m in enumerate(maps)]

        def match(idx):
            conds = []
            loc = [I0] * nview
            for k, m in enumerate(maps):
                if m[0] == "fix":
                    conds.append(eq(idx[k], m[1]))
                else:
                    _, ax, start, step = m
                    d = sub(idx[k], start)
                    if step == 1:
                        v = d
                    elif step == -1:
                        v = neg(d)
                    else:
                        v = floordiv(d, const(step))
                        conds.append(eq(scale(v, step), d))
                    loc[ax] = v
                    if not fullax[k]:
                        conds.append(ge(v, I0))
                        conds.append(lt(v, num(shape[ax])))
            loc = tuple(loc)
            if cond is not None:
                conds.append(cond(loc))
            return and_(*conds), loc
        self.heap[a.store] = Layer(prev, match, lambda loc: cast_val(valfn(loc), dt))
        if a.store in self.partviews:
            from . import npmodel
            npmodel.write_part(self, a.store)

    def dec_feasible(self):
        self.dec.axioms = self.axioms
        return self.dec.feasible(self.pc)

    # ---------------------------------------------------------------- statements
    def call_function(self, f, args, kwargs):
        q = "%s.%s" % (f.module.name, f.name)
        h = self.contracts.get(q)
        if h is not None and f.closure is None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        if f.kind in ("guvectorize", "vectorize"):
            from . import npmodel
            return npmodel.call_gufunc(self, f, args, kwargs)
        if self.registry is not None and f.closure is None and not kwargs:
            kc = self.kcontract(f, args)
            if kc is not None:
                return kc(args)
        return self.run_body(f, args, kwargs)

    def kcontract(self, f, core):
        """a proved contract applicable to this call, as a function of the arguments"""
        if self.registry is None or f.closure is not None:
            return None
        q = "%s.%s" % (f.module.name, f.name)
        from . import kernel
        c = kernel.lookup(self.registry, q)
        if c is None or not kernel.applicable(c, core):
            return None
        return lambda args: kernel.apply(self, c, args)

    def run_body(self, f, args, kwargs):
        q = "%s.%s" % (f.module.name, f.name)
        self.executed.add(q)
        env = self.bind(f, args, kwargs)
        fr = Frame(f.module, env, f.closure, f)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep")
        self.ctx.append(f.name)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            isgen = is_generator(f.node)
            if isgen:
                fr.yields = []
            try:
                self.exec_block(f.node.body, fr)
            except _Ret as r:
                if isgen:
                    return fr.yields if not isinstance(fr.yields, Stream) else fr.yields
                return r.v
            if isgen:
                return fr.yields
            return None
        finally:
            self.depth -= 1
            self.ctx.pop()

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyExc("TypeError", "%s() takes too many positional arguments" % f.name)
        defaults = a.defaults
        fr = Frame(f.module, {}, f.closure)
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in env and n not in kwargs:
                env[n] = self.eval(d, fr)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg in kwargs:
                env[n.arg] = kwargs.pop(n.arg)
            elif d is not None:
                env[n.arg] = self.eval(d, fr)
        for k in list(kwargs):
            if k in names:
                if k in env:
                    raise PyExc("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                env[k] = kwargs.pop(k)
        if a.kwarg:
            env[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyExc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, list(kwargs)[0]))
        for n in names:
            if n not in env:
                raise PyExc("TypeError", "%s() missing argument '%s'" % (f.name, n))
        return env

    def exec_block(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d of %s)" % (type(st).__name__, st.lineno, fr.module.name))
        return m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, fr) if st.value.value is not None else None
            if fr.yields is None:
                raise Unsupported("yield")
            fr.yields.append(v)
            return
        if isinstance(st.value, ast.YieldFrom):
            v = self.eval(st.value.value, fr)
            items = self.concrete_items(v) if not (isinstance(v, list) and any(isinstance(x, GenLoop) for x in v)) else v
            if items is not None:
                fr.yields.extend(items)
                return
            lo, hi, elem = self.sym_items(v)
            self.gen_loop(None, fr, lo, hi, lambda i, fr: fr.yields.append(elem(i)), set())
            return
        self.eval(st.value, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Global(self, st, fr):
        raise Unsupported("global statement")

    def st_Import(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name.split(".")[0]] = self.import_module(a.name)

    def st_ImportFrom(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name] = self.import_from(st.module, a.name)

    def st_FunctionDef(self, st, fr):
        fr.env[st.name] = self.make_function(st, fr.module, (fr.env, fr.closure))

    def st_Return(self, st, fr):
        raise _Ret(self.eval(st.value, fr) if st.value is not None else None)

    def st_Break(self, st, fr):
        raise _Brk()

    def st_Continue(self, st, fr):
        raise _Cnt()

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc("AssertionError", "line %d" % st.lineno)

    def st_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported("re-raise")
        e = st.exc
        f = e.func if isinstance(e, ast.Call) else e
        raise PyExc(f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "Exception"), "line %d" % st.lineno)

    def st_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                        ns = [n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "") for n in names]
                        ok = e.kind in ns or "Exception" in ns or "BaseException" in ns or (e.kind in ("IndexError", "KeyError") and "LookupError" in ns)
                    if ok:
                        if h.name:
                            fr.env[h.name] = Opaque("exc")
                        self.exec_block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        except (PyExc, _Brk, _Cnt, _Ret):
            self.exec_block(st.finalbody, fr)
            raise
        self.exec_block(st.finalbody, fr)

    def st_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def st_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def st_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.eval(st.value, fr)
            if isinstance(cur, Arr):
                self.inplace(cur, st.op, v)
                return
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                cur.extend(list(v))
                return
            fr.env[t.id] = self.binop(st.op, cur, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            v = self.eval(st.value, fr)
            if isinstance(base, Arr):
                cur = self.getitem(base, idx)
                if isinstance(cur, Arr) and cur.store == base.store:
                    self.inplace(cur, st.op, v)
                else:
                    self.setitem(base, idx, self.binop(st.op, cur, v))
            else:
                self.setitem(base, idx, self.binop(st.op, self.getitem(base, idx), v))
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fr)
            self.setattr(base, t.attr, self.binop(st.op, self.getattr(base, t.attr), self.eval(st.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, a, op, v):
        from . import npmodel
        r = self.binop(op, a, v)
        if not isinstance(r, Arr) or r.ndim != a.ndim:
            raise PyExc("ValueError", "in-place shape mismatch")
        npmodel.check_same_shape(self, a.shape, r.shape, "inplace operand")
        if a.dtype == "I" and r.dtype in ("F", "C") or a.dtype == "F" and r.dtype == "C":
            raise PyExc("UFuncTypeError", "cannot cast")
        rd = self.reader(r)
        self.write_view(a, rd)

    def st_While(self, st, fr):
        if self.loop_hook is not None and self.loop_hook(self, "enter", st, fr) is not NotImplemented:
            return
        n = 0
        while True:
            c = self.eval(st.test, fr)
            c = to_bool_or_py(c)
            if isinstance(c, E) and self.decide(c) is None:
                return self.sym_while(st, fr)
            if not self.truth(c):
                self.exec_block(st.orelse, fr)
                return
            n += 1
            if n > 500:
                raise Unsupported("concrete while loop too long")
            try:
                self.exec_block(st.body, fr)
            except _Brk:
                return
            except _Cnt:
                pass

    def sym_while(self, st, fr):
        if self.loop_hook is not None:
            r = self.loop_hook(self, "while", st, fr)
            if r is not NotImplemented:
                return
        raise Unsupported("while loop with a symbolic condition and no invariant (line %d of %s)" % (st.lineno, fr.module.name))

    def st_For(self, st, fr):
        it = self.eval(st.iter, fr)
        self.for_iter(st, it, fr)

    def for_iter(self, st, it, fr):
        if isinstance(it, CallIter):
            if self.loop_hook is None or self.loop_hook(self, "enter", st, fr, it) is NotImplemented:
                raise Unsupported("a loop over calls of a function")
            return
        items = self.concrete_items(it)
        if items is not None:
            for v in items:
                self.assign(st.target, v, fr)
                try:
                    self.exec_block(st.body, fr)
                except _Brk:
                    return
                except _Cnt:
                    continue
            self.exec_block(st.orelse, fr)
            return
        lo, hi, elem = self.sym_items(it)
        i = fresh("i")

        def body(iv, fr):
            self.assign(st.target, elem(iv), fr)
            try:
                self.exec_block(st.body, fr)
            except _Cnt:
                pass
        tnames = set(n.id for n in ast.walk(st.target) if isinstance(n, ast.Name))
        if fr.yields is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(st)):
            if self.loop_hook is not None:
                r = self.loop_hook(self, "gen", st, fr, lo, hi, body)
                if r is not NotImplemented:
                    return
            self.gen_loop(st, fr, lo, hi, body, tnames)
        else:
            self.sym_for(st, fr, lo, hi, body, tnames)
        self.exec_block(st.orelse, fr)

    def gen_loop(self, st, fr, lo, hi, body, tnames):
        """one arbitrary iteration of a loop that yields; no variable may be carried from one
        iteration to the next"""
        if not self.branch(lt(lo, hi)):
            return
        g = GenLoop(fresh("it"), lo, hi)
        self.assume(and_(ge(g.i, lo), lt(g.i, hi)))
        names = set()
        if st is not None:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        for n in names:
            fr.env[n] = Carried(n)
        stores = dict(self.heap)
        n0 = len(fr.yields)
        try:
            body(g.i, fr)
        except _Cnt:
            pass
        except _Brk:
            g.ended = True
        except _Ret:
            g.ended = True
        g.values = fr.yields[n0:]
        g.changed = [k for k, c in stores.items() if self.heap.get(k) is not c]
        del fr.yields[n0:]
        fr.yields.append(g)
        for n in names:
            fr.env[n] = Carried(n)

    def concrete_items(self, it, limit=400):
        if isinstance(it, list) and any(isinstance(x, GenLoop) for x in it):
            return None
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, (dict, set, str)):
            return list(it)
        if isinstance(it, RangeVal):
            lo, hi, s = simp(it.lo), simp(it.hi), simp(it.step)
            if isinstance(lo, int) and isinstance(hi, int) and isinstance(s, int):
                r = range(lo, hi, s)
                if len(r) <= limit:
                    return list(r)
            return None
        if isinstance(it, EnumVal):
            x = self.concrete_items(it.it)
            return None if x is None else [(n_add_py(it.start, k), v) for k, v in enumerate(x)]
        if isinstance(it, ZipVal):
            xs = [self.concrete_items(x) for x in it.its]
            return None if any(x is None for x in xs) else list(zip(*xs))
        if isinstance(it, Arr):
            if it.ndim == 0:
                raise PyExc("TypeError", "iteration over a 0-d array")
            n = simp(it.shape[0])
            if isinstance(n, int) and n <= limit:
                return [self.getitem(it, k) for k in range(n)]
            return None
        if isinstance(it, Stream):
            n = simp(it.length)
            if isinstance(n, int) and n <= limit:
                r = [it.elem(const(k)) for k in range(n)]
                return [x for x in r if x is not EXCLUDED] if isinstance(it, Filtered) else r
            return None
        if isinstance(it, Iter):
            n = simp(sub(num(it.stream.length), it.pos))
            if isinstance(n, int) and n <= limit:
                r = [it.stream.elem(add(it.pos, const(k))) for k in range(n)]
                it.pos = num(it.stream.length)
                return r
            return None
        if hasattr(it, "items_concrete"):
            return it.items_concrete(self)
        if it is None or is_num(it):
            raise PyExc("TypeError", "object is not iterable")
        raise Unsupported("iteration over %r" % (it,))

    def sym_items(self, it, filtered=False):
        if isinstance(it, RangeVal):
            s = simp(it.step)
            if s == 1:
                return num(it.lo), num(it.hi), (lambda i: i)
            if s == -1:
                lo, hi = num(it.lo), num(it.hi)
                return I0, sub(lo, hi), (lambda i: sub(lo, i))
            raise Unsupported("range step")
        if isinstance(it, EnumVal):
            lo, hi, f = self.sym_items(it.it)
            st = num(it.start)
            return lo, hi, (lambda i: (add(sub(i, lo), st), f(i)))
        if isinstance(it, ZipVal):
            parts = []
            for x in it.its:
                c = self.concrete_items(x)
                if c is not None:
                    raise Unsupported("zip of a concrete and a symbolic sequence")
                parts.append(self.sym_items(x))
            lo, hi = parts[0][0], parts[0][1]
            for l2, h2, _ in parts[1:]:
                if l2 is not lo:
                    raise Unsupported("zip offsets")
                if h2 is not hi:
                    hi = emin(hi, h2)
            return lo, hi, (lambda i: tuple(p[2](i) for p in parts))
        if isinstance(it, Arr):
            return I0, num(it.shape[0]), (lambda i: self.getitem(it, i))
        if isinstance(it, Filtered) and not filtered:
            raise Unsupported("loop over a filtered sequence")
        if isinstance(it, Iter):
            lo, s = it.pos, it.stream
            if isinstance(s, Filtered):
                raise Unsupported("iterator of a filtered sequence")
            it.pos = num(s.length)
            return I0, sub(num(s.length), lo), (lambda i: s.elem(add(lo, i)))
        if isinstance(it, Stream):
            return I0, num(it.length), it.elem
        raise Unsupported("symbolic iteration over %r" % (it,))

    # ---------------------------------------------------------------- symbolic loops
    def sym_for(self, st, fr, lo, hi, body, tnames, peeled=False):
        if self.decide(lt(lo, hi)) is False:
            return
        if self.loop_hook is not None:
            r = self.loop_hook(self, "for", st, fr, lo, hi, body)
            if r is not NotImplemented:
                return
        snap = self.snapshot()
        env0 = dict(fr.env)
        ny = None if fr.yields is None else (len(fr.yields) if isinstance(fr.yields, list) else None)
        try:
            self.summarise([(lo, hi)], lambda vs: body(vs[0], fr), fr, tnames, "line %d" % st.lineno, allow_rec=peeled)
            return
        except NeedPeel as e:
            self.restore(snap)
            fr.env.clear()
            fr.env.update(env0)
            if ny is not None:
                del fr.yields[ny:]
            if peeled:
                raise Unsupported("no closed form for the loop at line %d of %s: %s" % (st.lineno, fr.module.name, e))
        # peel the first iteration
        if not self.branch(lt(lo, hi)):
            return
        body(lo, fr)
        self.sym_for(st, fr, add(lo, I1), hi, body, tnames, peeled=True)

    def summarise(self, ranges, body, fr, tnames, where, allow_rec=False):
        """execute body once for arbitrary values of the loop variables and generalise"""
        from .loops import summarise
        old, self.allow_rec = self.allow_rec, allow_rec
        try:
            summarise(self, ranges, body, fr, tnames, where)
        finally:
            self.allow_rec = old

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.concrete_items(v)
            if vals is None and isinstance(v, Arr) and not any(isinstance(x, ast.Starred) for x in t.elts):
                # an array of unknown length
                if not self.branch(eq(num(v.shape[0]), const(len(t.elts)))):
                    raise PyExc("ValueError", "wrong number of values to unpack")
                vals = [self.getitem(v, i) for i in range(len(t.elts))]
            if vals is None:
                raise Unsupported("unpacking a symbolic sequence")
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                nb, na = k, len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], vals[:k]):
                    self.assign(x, y, fr)
                self.assign(t.elts[k].value, vals[k:len(vals) - na], fr)
                for x, y in zip(t.elts[k + 1:], vals[len(vals) - na:]):
                    self.assign(x, y, fr)
                return
            if len(vals) != len(t.elts):
                raise PyExc("ValueError", "unpack %d values into %d" % (len(vals), len(t.elts)))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            self.setitem(base, idx, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def setattr(self, base, name, v):
        if isinstance(base, Opaque) and base.attrs.get("__mutable__"):
            base.attrs[name] = v
            return
        from . import npmodel
        return npmodel.setattr_(self, base, name, v)

    def lookup(self, name, fr):
        if name in fr.env:
            v = fr.env[name]
            if v is UNDEF:
                raise PyExc("UnboundLocalError", name)
            if v.__class__ is Carried:
                raise Unsupported("%s is carried from one iteration to the next" % name)
            if v.__class__.__name__ == "MaybeUndef":
                if not self.branch(v.cond):
                    raise PyExc("UnboundLocalError", name)
                return v.v
            return v
        c = fr.closure
        while c is not None:
            if name in c[0]:
                return c[0][name]
            c = c[1]
        if name == "__name__":
            return fr.module.name
        try:
            ov = self.overrides(fr.module.name, name)
            if ov is not None:
                return ov
            return fr.module.get(name)
        except KeyError:
            pass
        if name in self.builtins:
            return self.builtins[name]
        raise PyExc("NameError", name)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, complex):
            return CV(const(Fraction(repr(v.real)), "R"), const(Fraction(repr(v.imag)), "R"))
        if v is Ellipsis:
            return ELLIPSIS
        return v

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        return list(self.ex_Tuple(e, fr))

    def ex_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        return d

    def ex_Set(self, e, fr):
        return set(self.eval(x, fr) for x in e.elts)

    def ex_JoinedStr(self, e, fr):
        return UStr("<fstring>")

    def ex_Lambda(self, e, fr):
        return FuncVal(e, fr.module, (fr.env, fr.closure))

    def ex_IfExp(self, e, fr):
        c = self.eval(e.test, fr)
        cb = to_bool_or_py(c)
        if isinstance(cb, E):
            d = self.decide(cb)
            if d is None:
                # pure numeric alternatives are merged, everything else forks
                if _pure(e.body) and _pure(e.orelse):
                    try:
                        n = len(self.pc)
                        self.pc.append(cb)
                        a = self.eval(e.body, fr)
                        del self.pc[n:]
                        self.pc.append(not_(cb))
                        b = self.eval(e.orelse, fr)
                        del self.pc[n:]
                        if is_num(a) and is_num(b):
                            return n_ite(cb, a, b)
                    except (Unsupported, PyExc):
                        del self.pc[n:]
                return self.eval(e.body, fr) if self.branch(cb) else self.eval(e.orelse, fr)
            cb = d
        return self.eval(e.body, fr) if self.truth(cb) else self.eval(e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        acc = None
        for x in e.values:
            v = self.eval(x, fr)
            b = to_bool_or_py(v)
            if isinstance(b, E) and b.op != "const":
                d = self.decide(b)
                if d is None:
                    # keep symbolic: combine without branching when the rest is pure
                    rest = e.values[e.values.index(x) + 1:]
                    if all(_pure(y) for y in rest):
                        parts = [b]
                        n = len(self.pc)
                        self.pc.append(b if isand else not_(b))
                        ok = True
                        try:
                            for y in rest:
                                w = to_bool_or_py(self.eval(y, fr))
                                if isinstance(w, bool):
                                    w = const(w)
                                if not isinstance(w, E):
                                    ok = False
                                    break
                                parts.append(w)
                                self.pc.append(w if isand else not_(w))
                        except (Unsupported, PyExc, Infeasible):
                            ok = False
                        del self.pc[n:]
                        if ok:
                            return and_(*parts) if isand else or_(*parts)
                    d = self.branch(b)
                b = d
            t = self.truth(b)
            if isand and not t:
                return v if not isinstance(v, E) else False
            if not isand and t:
                return v if not isinstance(v, E) else True
        return v if not (isinstance(v, E) and v.sort == "B") else self.truth(v)

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            b = to_bool_or_py(v)
            if isinstance(b, E):
                return simp(not_(b))
            return not self.truth(v)
        from . import npmodel
        return npmodel.unop(self, e.op, v)

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        from . import npmodel
        return npmodel.binop(self, op, a, b)

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if res is None:
                res = v
            else:
                a, b = to_bool_or_py(res), to_bool_or_py(v)
                if isinstance(a, bool):
                    res = b if a else False
                elif isinstance(b, bool):
                    res = a if b else False
                else:
                    res = and_(a, b)
            left = right
        return simp(res) if isinstance(res, E) else res

    def compare(self, op, a, b):
        from . import npmodel
        return npmodel.compare(self, op, a, b)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, base, name):
        from . import npmodel
        return npmodel.getattr_(self, base, name)

    def ex_Subscript(self, e, fr):
        base = self.eval(e.value, fr)
        return self.getitem(base, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(*[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    ex_Slice = None

    def getitem(self, base, idx):
        from . import npmodel
        return npmodel.getitem(self, base, idx)

    def setitem(self, base, idx, v):
        from . import npmodel
        return npmodel.setitem(self, base, idx, v)

    def ex_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, fr))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, FuncVal):
            return self.call_function(f, args, kw)
        if isinstance(f, Builtin):
            return f.f(*args, **kw)
        from . import npmodel
        return npmodel.call_object(self, f, args, kw)

    def _comp(self, e, fr, elt):
        gens = e.generators
        env = dict(fr.env)
        f2 = Frame(fr.module, env, fr.closure, fr.func)
        out = []
        first = None

        def rec(k):
            if k == len(gens):
                out.append(elt(f2))
                return
            g = gens[k]
            items = first if k == 0 and first is not None else self.concrete_items(self.eval(g.iter, f2))
            if items is None:
                raise Unsupported("comprehension over a symbolic sequence")
            for v in items:
                self.assign(g.target, v, f2)
                if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                    rec(k + 1)
        if len(gens) == 1:
            it = self.eval(gens[0].iter, f2)
            items = first = self.concrete_items(it)
            if items is None:
                lo, hi, el = self.sym_items(it, True)
                tgt = gens[0].target
                if gens[0].ifs or isinstance(it, Filtered):
                    def test(i):
                        v = el(i)
                        if v is EXCLUDED:
                            return v
                        self.assign(tgt, v, f2)
                        if not all(self.truth(self.eval(c, f2)) for c in gens[0].ifs):
                            return EXCLUDED
                        return elt(f2)
                    return Filtered(sub(hi, lo), lambda i: test(add(lo, i)))

                def get(i):
                    self.assign(tgt, el(i), f2)
                    return elt(f2)
                return Stream(sub(hi, lo), lambda i: get(add(lo, i)))
        rec(0)
        return out

    def ex_ListComp(self, e, fr):
        return self._comp(e, fr, lambda f2: self.eval(e.elt, f2))

    def ex_GeneratorExp(self, e, fr):
        return self._comp(e, fr, lambda f2: self.eval(e.elt, f2))

    def ex_SetComp(self, e, fr):
        return set(self._comp(e, fr, lambda f2: self.eval(e.elt, f2)))

    def ex_DictComp(self, e, fr):
        return dict(self._comp(e, fr, lambda f2: (self.eval(e.key, f2), self.eval(e.value, f2))))

    def truth(self, v):
        if isinstance(v, E):
            return self.branch(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.branch(self.read(v, ()))
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, CV):
            return self.branch(not_(and_(eq(v.re, R0), eq(v.im, R0))))
        if isinstance(v, (FuncVal, Builtin, Opaque)):
            return True
        from . import listmodel
        if isinstance(v, (listmodel.SymList, listmodel.SymSet)):
            return listmodel.truth(self, v)
        return bool(v)


class ZipVal(object):
    def __init__(self, its):
        self.its = its

    def __deepcopy__(self, memo):
        return self


def n_add_py(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return n_add(a, b)


def _pure(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.NamedExpr, ast.Await)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm not in ("abs", "len", "isnan", "min", "max", "int", "float", "real", "conj", "sqrt"):
                return False
    return True


def _tyname(x):
    """type letter of a numba type expression, with the number of dimensions"""
    if isinstance(x, ast.Subscript):
        base = _tyname(x.value)
        s = x.slice
        nd = len(s.elts) if isinstance(s, ast.Tuple) else 1
        return (base[0], nd)
    nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
    return (TYPES.get(nm, nm), 0)


TYPES = {"C": "C", "F": "F", "I64": "I", "F64": "F", "C128": "C", "I": "I", "U16": "I", "U8": "I", "F32": "F", "U": "I", "C64": "C",
         "I32": "I", "U32": "I", "U64": "I", "B": "B", "float64": "F", "complex128": "C", "int64": "I"}


def parse_layout(lay):
    import re
    lay = lay.replace(" ", "")
    l, r = lay.split("->")

    def side(s):
        return [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", s)]
    return side(l), side(r)


def is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def num_dim(s):
    if isinstance(s, Fraction) and s.denominator == 1:
        s = int(s)
    if isinstance(s, E):
        return simp(s)
    return s


def to_bool(c):
    if isinstance(c, bool):
        return const(c)
    if isinstance(c, E):
        if c.sort == "B":
            return c
        return ne(c, const(0, c.sort))
    raise Unsupported("truth of %r" % (c,))


def to_bool_or_py(c):
    if isinstance(c, E):
        if c.sort == "B":
            return simp(c)
        return simp(to_bool(c))
    return c


def cast_val(v, dtype):
    v = num(v)
    if dtype == "C":
        return cplx(v)
    if isinstance(v, CV):
        if dtype == "B":
            return not_(and_(eq(v.re, R0), eq(v.im, R0)))
        v = v.re
    if dtype == "F":
        return toreal(v)
    if dtype == "I":
        if v.sort == "R":
            return to_int(v)
        return b2i(v)
    if dtype == "B":
        return to_bool(v)
    return v


def to_int(v):
    """truncation of a real to an integer"""
    if v.op == "const":
        return const(int(cval(v)), "I")
    if v.op == "toreal":
        return v.args[0]
    if v.op == "add":
        c, d = lin(v)
        if c.denominator == 1 and all(t.op == "toreal" and k.denominator == 1 for t, k in d.items()):
            return mklin(c, {t.args[0]: k for t, k in d.items()}, "I")
    if v.op == "ite":
        return ite(v.args[0], to_int(v.args[1]), to_int(v.args[2]))
    return app("trunc", (v,), "I")


def sym_reader(name, dtype):
    if dtype == "C":
        return lambda idx: CV(app(name + ".re", idx, "R"), app(name + ".im", idx, "R"))
    if dtype == "F":
        return lambda idx: app(name, idx, "R")
    if dtype == "B":
        return lambda idx: app(name, idx, "B")
    return lambda idx: app(name, idx, "I")
