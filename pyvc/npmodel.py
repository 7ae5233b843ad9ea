"""Contracts of numpy / builtins / numba wrappers (trusted base), as executable models."""
import ast
from fractions import Fraction
from .expr import *
from .expr import isconst, cval
from . import solve, sums
from .sym import *
from .sym import ZipVal
from . import listmodel

PI = app("pi", (), "R")
NAN = app("NAN", (), "R")
INF = app("INF", (), "R")

F, C, I, B = DType("F"), DType("C"), DType("I"), DType("B")
DT = {"F": F, "C": C, "I": I, "B": B}


# ------------------------------------------------------------------ overrides / modules

def override(ex, mod, name):
    """names whose definition is not interpreted (configuration, printing, time, GUI)"""
    if name in ex.conf_over.get(mod, ()):
        return ex.conf_over[mod][name]
    if mod == "cddm.conf" :
        if name in ("FDTYPE", "F64DTYPE", "F32DTYPE"):
            return F
        if name in ("CDTYPE", "C128DTYPE", "C64DTYPE"):
            return C
        if name in ("IDTYPE", "I64DTYPE", "I32DTYPE", "U16DTYPE", "U8DTYPE", "UDTYPE", "U32DTYPE", "U64DTYPE"):
            return I
        if name in ("C", "F", "I64", "F64", "U16", "I", "U8", "F32", "C128"):
            t = TYPES.get(name, "I")
            return Builtin("type:" + t, lambda v: cast_val(v, t))
        if name in ("NUMBA_TARGET",):
            return "cpu"
        if name in ("NUMBA_CACHE", "NUMBA_FASTMATH", "NUMBA_PARALLEL", "MKL_FFT_INSTALLED", "CV2_INSTALLED"):
            return False
        if name in ("SCIPY_INSTALLED", "PYFFTW_INSTALLED", "PYQTGRAPH_INSTALLED", "NUMBA_INSTALLED"):
            return True
        if name == "CDDMConfig":
            return ex.config
        return None
    if mod == "cddm.print_tools" and ex.module_overridden(mod):
        return Builtin(name, lambda *a, **k: None)
    if mod == "cddm.decorators":
        return Builtin(name, lambda f, *a, **k: f)
    return None


def special_modules(ex):
    mods = {"numpy": ex.np, "np": ex.np}
    mods["time"] = Opaque("time", {"time": Builtin("time.time", lambda: fresh("time", "R")),
                                   "sleep": Builtin("sleep", lambda *a: None)})
    mods["sys"] = Opaque("sys", {"modules": Opaque("sys.modules", {"__getitem__": lambda n: Opaque(
        "module:" + n, {"__module__": n, "__known__": True})})})
    mods["functools"] = Opaque("functools", {"reduce": Builtin("reduce", lambda f, xs, *ini: _reduce(ex, f, xs, *ini))})
    from . import queuemodel
    mods["queue"] = Opaque("queue", {"Queue": Builtin("Queue", lambda maxsize=0: queuemodel.Fifo(ex))})
    mods["threading"] = Opaque("threading", {"Thread": Builtin("Thread", queuemodel.thread(ex))})
    mods["math"] = Opaque("math", {"pi": PI})
    for nm in ("sin", "cos", "exp", "log", "sqrt", "tan", "atan2", "floor", "ceil"):
        mods["math"].attrs[nm] = Builtin("math." + nm, ufunc1(ex, nm) if nm != "atan2" else ufunc2(ex, "arctan2"))
    mods["numba"] = Opaque("numba", {"prange": ex.builtins["range"], "jit": Builtin("jit", lambda *a, **k: None)})
    fft = Opaque("fftlib", {n: ex.np.attrs["fft"].attrs[n] for n in ("fft", "ifft", "fft2", "ifft2", "rfft2", "fftfreq")})
    fft.attrs["rfftn_numpy"] = fft.attrs["rfft2"]
    mods["scipy.fftpack"] = fft
    mods["mkl_fft"] = fft
    mods["pyfftw.interfaces"] = Opaque("fftw", {"scipy_fftpack": fft, "numpy_fft": fft})
    mods["pyfftw"] = Opaque("pyfftw")
    return mods


def _reduce(ex, f, xs, *ini):
    xs = ex.concrete_items(xs)
    if xs is None:
        raise Unsupported("reduce over symbolic")
    if ini:
        acc = ini[0]
    else:
        if not xs:
            raise PyExc("TypeError", "reduce of empty")
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = ex.call(f, [acc, x], {})
    return acc


# ------------------------------------------------------------------ helpers

def dim(s):
    return num(s)


def shape_of(v):
    return v.shape if isinstance(v, Arr) else ()


def dtype_of(v):
    if isinstance(v, Arr):
        return v.dtype
    if isinstance(v, (CV, complex)):
        return "C"
    if isinstance(v, bool):
        return "B"
    if isinstance(v, int):
        return "I"
    if isinstance(v, (Fraction, float)):
        return "F"
    if isinstance(v, E):
        return {"I": "I", "R": "F", "B": "B"}[v.sort]
    raise Unsupported("dtype of %r" % (v,))


ORD = "BIFC"


def promote(*ds):
    return ORD[max(ORD.index(d) for d in ds)]


def dt_name(ex, dt):
    if dt is None:
        return None
    if isinstance(dt, DType):
        return dt.name
    if isinstance(dt, Builtin):
        if dt.name == "int":
            return "I"
        if dt.name == "float":
            return "F"
        if dt.name == "complex":
            return "C"
        if dt.name == "bool":
            return "B"
        if dt.name.startswith("type:"):
            return dt.name[5:]
    if isinstance(dt, str):
        return {"int": "I", "uint16": "I", "uint8": "I", "int64": "I", "float": "F", "float64": "F", "complex": "C", "bool": "B"}.get(dt, "F")
    if isinstance(dt, Opaque):
        n = dt.name
        if "complex" in n:
            return "C"
        if "int" in n:
            return "I"
        if "bool" in n:
            return "B"
        return "F"
    raise Unsupported("dtype %r" % (dt,))


def same_dim(ex, a, b):
    a, b = num(a), num(b)
    if a is b:
        return True
    return ex.decide(eq(a, b))


def check_same_shape(ex, s1, s2, what="shape"):
    for a, b in zip(s1, s2):
        d = same_dim(ex, a, b)
        if d is False:
            raise PyExc("ValueError", "%s mismatch %s %s" % (what, s1, s2))
        if d is None:
            if not ex.branch(eq(num(a), num(b))):
                raise PyExc("ValueError", "%s mismatch" % what)


def broadcast_shapes(ex, shapes):
    nd = max(len(s) for s in shapes) if shapes else 0
    out = []
    for k in range(nd):
        cur = None
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if simp(num(d)) == 1:
                if cur is None:
                    cur = d
                continue
            if cur is None or simp(num(cur)) == 1:
                cur = d
                continue
            r = same_dim(ex, cur, d)
            if r is True:
                continue
            # unknown dimension: could be 1
            if r is None:
                if ex.branch(eq(num(cur), num(d))):
                    continue
                if ex.branch(eq(num(d), I1)):
                    continue
                if ex.branch(eq(num(cur), I1)):
                    cur = d
                    continue
            raise PyExc("ValueError", "operands could not be broadcast together %s" % (shapes,))
        out.append(cur)
    return tuple(out)


def bidx(shape, idx):
    """index of an operand of the given shape under broadcast index idx"""
    off = len(idx) - len(shape)
    return tuple(I0 if simp(num(shape[j])) == 1 else idx[off + j] for j in range(len(shape)))


def elementwise(ex, f, args, dtype, out=None):
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        v = f(*[num(a) for a in args])
        return v
    shape = broadcast_shapes(ex, [a.shape for a in arrs])
    rds = []
    for a in args:
        if isinstance(a, Arr):
            r = ex.reader(a)
            rds.append(lambda idx, r=r, s=a.shape: r(bidx(s, idx)))
        else:
            rds.append(lambda idx, v=num(a): v)
    def content(idx):
        old, ex.elem = ex.elem, tuple(idx)
        try:
            return f(*[r(idx) for r in rds])
        finally:
            ex.elem = old
    if out is not None:
        if len(out.shape) != len(shape):
            if len(out.shape) < len(shape):
                raise PyExc("ValueError", "out has too few dimensions")
        sh2 = broadcast_shapes(ex, [shape, out.shape])
        check_same_shape(ex, sh2, out.shape, "out")
        tmp = ex.fn_array(shape, dtype, content)
        rd = ex.reader(tmp)
        osh = out.shape
        ex.write_view(out, lambda loc: rd(bidx(shape, loc)))
        return out
    return ex.fn_array(shape, dtype, content)


def res_dtype(op, args):
    return promote(*[dtype_of(a) for a in args])


def _boollift(fb):
    return fb


ARITH = {
    ast.Add: n_add, ast.Sub: n_sub, ast.Mult: n_mul, ast.Div: n_div,
}


def binop(ex, op, a, b):
    t = type(op)
    if isinstance(a, Seq) or isinstance(b, Seq):
        raise Unsupported("sequence arithmetic")
    if isinstance(a, str) and t is ast.Mod:
        return UStr("<str>")
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if t is ast.Add and isinstance(a, list) and isinstance(b, list):
            return a + b
        if t is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if t is ast.Mult:
            if isinstance(b, (list, tuple)):
                a, b = b, a
            n = simp(b) if isinstance(b, E) else b
            if isinstance(n, int):
                return a * n
            if isinstance(a, list) and len(a) == 1:
                return listmodel.repeat(ex, a[0], n)
            raise Unsupported("list * symbolic")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = np_array(ex, a)
            else:
                b = np_array(ex, b)
        else:
            raise PyExc("TypeError", "unsupported operand")
    if isinstance(a, str) or isinstance(b, str):
        if t is ast.Add:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            raise PyExc("TypeError", "can only concatenate str")
        if t is ast.Mult:
            n = b if isinstance(a, str) else a
            n = simp(n) if isinstance(n, E) else n
            if isinstance(n, E) and n.sort == "I":
                n = int(cval(n)) if isconst(n) else n
            if isinstance(n, E) and n.sort == "I":
                return UStr("<str>")
            if isinstance(n, int):
                return (a if isinstance(a, str) else b) * n
        raise PyExc("TypeError", "unsupported operand type(s) for a string")
    for x in (a, b):
        if x is None or isinstance(x, (FuncVal, Opaque, Builtin, dict)):
            raise PyExc("TypeError", "unsupported operand type(s)")
        if not is_num(x) and not isinstance(x, Arr):
            raise Unsupported("operand %r" % (x,))
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        return scalar_binop(ex, t, a, b)
    if t in ARITH:
        dt = res_dtype(op, [a, b])
        if t is ast.Div and dt in "IB":
            dt = "F"
        if dt == "B" and t is not ast.Div:
            dt = "I"
        return elementwise(ex, ARITH[t], [a, b], dt)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if dtype_of(a) == "B" and dtype_of(b) == "B":
            f = {ast.BitAnd: and_, ast.BitOr: or_, ast.BitXor: lambda x, y: not_(eq(x, y))}[t]
            return elementwise(ex, f, [a, b], "B")
        raise Unsupported("bit operation on arrays")
    if t is ast.Pow:
        return elementwise(ex, lambda x, y: n_pow(ex, x, y), [a, b], promote(dtype_of(a), dtype_of(b)))
    if t is ast.Mod:
        return elementwise(ex, lambda x, y: mod(x, y), [a, b], promote(dtype_of(a), dtype_of(b)))
    if t is ast.FloorDiv:
        return elementwise(ex, lambda x, y: floordiv(x, y), [a, b], promote(dtype_of(a), dtype_of(b)))
    raise Unsupported("array operator %s" % t.__name__)


def int_quotient(ex, a, b):
    """a // b; exact when the hypotheses say that a is a multiple of b"""
    if a.sort == "I" and b.sort == "I" and not isconst(b):
        if ex.branch(eq(b, I0)):
            raise PyExc("ZeroDivisionError")
        for h in ex.pc:
            for c in sums.conj(h):
                if c.op == "eq" and c.args[0].sort == "I":
                    for k in (1, -1):
                        r = add(a, scale(c.args[0], k))
                        if r.op == "mul" and b in r.args:
                            f = list(r.args)
                            f.remove(b)
                            q = I1
                            for x in f:
                                q = mul(q, x)
                            return q
                        if r is b:
                            return I1
    return floordiv(a, b)


def n_pow(ex, x, y):
    y = num(y)
    if y.op == "const":
        k = cval(y)
        if k.denominator == 1 and 0 <= k <= 8:
            r = num(1) if not isinstance(x, CV) else cplx(1)
            for _ in range(int(k)):
                r = n_mul(r, x)
            if isinstance(r, E) and y.sort == "R":
                r = toreal(r)
            return r
        if k.denominator == 1 and -8 <= k < 0:
            return n_div(const(1, "R"), n_pow(ex, x, const(-k, "I")))
        if k == Fraction(1, 2) and not isinstance(x, CV):
            return sqrt_(x)
    if isinstance(x, CV):
        raise Unsupported("complex power")
    x = num(x)
    if x.op == "const" and cval(x) == 2 and y.sort == "I":
        r = app("pow2", (y,), "I")
        if ex.decide(ge(y, I0)) is True:
            ex.assume(gt(r, y))
        return r
    if x.sort == "I" and y.sort == "I":
        return app("ipow", (x, y), "I")
    return app("pow", (toreal(x), toreal(y)), "R")


def sqrt_(x):
    x = toreal(num(x))
    if x.op == "const" and cval(x) >= 0:
        import math
        a, b = cval(x).numerator, cval(x).denominator
        if math.isqrt(a) ** 2 == a and math.isqrt(b) ** 2 == b:
            return const(Fraction(math.isqrt(a), math.isqrt(b)), "R")
    return app("sqrt", (x,), "R")


def scalar_binop(ex, t, a, b):
    pa = isinstance(a, (int, Fraction)) and not isinstance(a, E)
    pb = isinstance(b, (int, Fraction)) and not isinstance(b, E)
    if pa and pb:
        try:
            if t is ast.Add:
                return a + b
            if t is ast.Sub:
                return a - b
            if t is ast.Mult:
                return a * b
            if t is ast.Div:
                return Fraction(a) / Fraction(b)
            if t is ast.FloorDiv:
                return a // b if isinstance(a, int) and isinstance(b, int) else Fraction(a // b)
            if t is ast.Mod:
                return a % b
            if t is ast.Pow:
                if isinstance(a, int) and isinstance(b, int):
                    return a ** b if b >= 0 else Fraction(a) ** b
                if isinstance(b, Fraction) and b.denominator == 1:
                    return Fraction(a) ** int(b)
                return n_pow(ex, num(a), num(b))
            if t is ast.LShift:
                return a << b
            if t is ast.RShift:
                return a >> b
            if t is ast.BitAnd:
                return a & b
            if t is ast.BitOr:
                return a | b
            if t is ast.BitXor:
                return a ^ b
        except ZeroDivisionError:
            raise PyExc("ZeroDivisionError")
        raise Unsupported("operator")
    if t in ARITH:
        r = ARITH[t](a, b)
        return simp(r) if isinstance(r, E) else r
    if t is ast.Mod:
        return simp(mod(*coerce(a, b)))
    if t is ast.FloorDiv:
        return simp(int_quotient(ex, *coerce(a, b)))
    if t is ast.Pow:
        return n_pow(ex, num(a), num(b))
    a, b = num(a), num(b)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor) and a.sort == "B" and b.sort == "B":
        return {ast.BitAnd: and_, ast.BitOr: or_, ast.BitXor: lambda x, y: not_(eq(x, y))}[t](a, b)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
        return bitop(ex, t, a, b)
    raise Unsupported("operator %s" % t.__name__)


def bitop(ex, t, a, b):
    if t is ast.BitAnd:
        if isconst(a):
            a, b = b, a
        if isconst(b) and cval(b) > 0 and (cval(b) & (cval(b) - 1) if False else True):
            v = int(cval(b))
            # a & v for non-negative constant v: sum of the selected bits
            r = I0
            k = 0
            while v >> k:
                if (v >> k) & 1:
                    r = add(r, scale(sub(floordiv(a, const(2 ** k)), scale(floordiv(a, const(2 ** (k + 1))), 2)), 2 ** k))
                k += 1
            return r
    if t is ast.BitOr:
        if isconst(b) or isconst(a):
            if isconst(a):
                a, b = b, a
            return sub(add(a, b), num(bitop(ex, ast.BitAnd, a, b)))
    raise Unsupported("bit operation")


def coerce(a, b):
    a, b = num(a), num(b)
    if isinstance(a, CV) or isinstance(b, CV):
        raise Unsupported("complex modulo")
    if a.sort == b.sort:
        return a, b
    return toreal(a), toreal(b)


def unop(ex, op, v):
    if isinstance(op, ast.USub):
        if isinstance(v, (int, Fraction)):
            return -v
        if isinstance(v, Arr):
            return elementwise(ex, n_neg, [v], v.dtype)
        if is_num(v):
            r = n_neg(v)
            return simp(r) if isinstance(r, E) else r
        raise PyExc("TypeError", "bad operand type for unary -")
    if isinstance(op, ast.UAdd):
        return v
    if isinstance(op, ast.Invert):
        if isinstance(v, Arr) and v.dtype == "B":
            return elementwise(ex, not_, [v], "B")
        if isinstance(v, int):
            return ~v
        if isinstance(v, E) and v.sort == "B":
            return not_(v)
    raise Unsupported("unary operator")


def compare(ex, op, a, b):
    t = type(op)
    if t is ast.Is or t is ast.IsNot:
        r = identical(a, b)
        return r if t is ast.Is else not r
    if t is ast.In or t is ast.NotIn:
        r = listmodel.contains(ex, a, b) if isinstance(b, (listmodel.SymList, listmodel.SymSet)) else contains(ex, a, b)
        if isinstance(r, E):
            return r if t is ast.In else not_(r)
        return r if t is ast.In else not r
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return t is ast.NotEq
        if isinstance(a, (list, tuple)):
            a = np_array(ex, a)
        if isinstance(b, (list, tuple)):
            b = np_array(ex, b)
        return elementwise(ex, lambda x, y: nan_cmp(ex, t, x, y), [a, b], "B")
    if is_num(a) and is_num(b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
        return simp(nan_cmp(ex, t, num(a), num(b)))
    if t in (ast.Eq, ast.NotEq):
        r = pyeq(ex, a, b)
        if isinstance(r, E):
            return r if t is ast.Eq else not_(r)
        return r if t is ast.Eq else not r
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[t]
    raise PyExc("TypeError", "unorderable types")


def nan_cmp(ex, t, x, y):
    """comparison of real numbers that may be NaN: every comparison with NaN but != is false"""
    r = cmp_scalar(t, x, y)
    if not ex.nan_aware:
        return r
    if isinstance(x, CV) or isinstance(y, CV):
        raise Unsupported("comparison of complex values that may be NaN")
    bad = or_(*[eq(v, NAN) for v in (num(x), num(y)) if isE(v) and v.sort == "R" and not isconst(v)])
    return or_(bad, r) if t is ast.NotEq else and_(not_(bad), r)


def identical(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        a2 = simp(a) if isinstance(a, E) else a
        b2 = simp(b) if isinstance(b, E) else b
        if isinstance(a2, bool) and isinstance(b2, bool):
            return a2 == b2
        if isinstance(a2, E) or isinstance(b2, E):
            raise Unsupported("identity of a symbolic boolean")
        return False
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a is b or (a.store == b.store and a.maps == b.maps)
    if isinstance(a, E) and isinstance(b, E):
        return a is b
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return type(a) == type(b) and a == b
    return a is b


def pyeq(ex, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            r = compare(ex, ast.Eq(), x, y)
            if isinstance(r, Arr):
                raise Unsupported("comparison of arrays inside sequences")
            if r is False:
                return False
            if isinstance(r, E):
                parts.append(r)
        return simp(and_(*parts)) if parts else True
    if is_num(a) != is_num(b):
        return False
    if isinstance(a, dict) or isinstance(b, dict):
        raise Unsupported("dict equality")
    if isinstance(a, DType) or isinstance(b, DType):
        if isinstance(a, (DType, Builtin)) and isinstance(b, (DType, Builtin)):
            return dt_name(ex, a) == dt_name(ex, b)
        d, o = (a, b) if isinstance(a, DType) else (b, a)
        if isinstance(o, str):
            if d.text is None:
                raise Unsupported("the exact type of an array")
            return d.text == o
        return a == b
    return a == b


def contains(ex, a, b):
    if isinstance(b, dict):
        return a in b
    if isinstance(b, str):
        return a in b
    if isinstance(b, (list, tuple, set)):
        parts = []
        for x in b:
            r = compare(ex, ast.Eq(), a, x)
            if r is True:
                return True
            if isinstance(r, E):
                parts.append(r)
            elif isinstance(r, Arr):
                raise Unsupported("array membership")
        return simp(or_(*parts)) if parts else False
    if isinstance(b, RangeVal):
        return simp(and_(le(num(b.lo), num(a)), lt(num(a), num(b.hi))))
    raise Unsupported("membership in %r" % (b,))


def cmp_scalar(t, a, b):
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = cplx(a), cplx(b)
        r = and_(eq(a.re, b.re), eq(a.im, b.im))
        if t is ast.Eq:
            return r
        if t is ast.NotEq:
            return not_(r)
        raise Unsupported("complex ordering")
    if t is ast.Eq:
        return eq(a, b)
    if t is ast.NotEq:
        return ne(a, b)
    if t is ast.Lt:
        return lt(a, b)
    if t is ast.LtE:
        return le(a, b)
    if t is ast.Gt:
        return gt(a, b)
    return ge(a, b)


class Seq(object):
    pass


# ------------------------------------------------------------------ indexing

def norm_index(ex, i, n, what="index"):
    """integer index with Python wrap-around; emits the bounds obligation"""
    n = num(n)
    if isinstance(i, Fraction):
        raise PyExc("IndexError", "float index")
    i = num(i)
    if isinstance(i, CV) or i.sort == "R":
        raise PyExc("IndexError", "float index")
    if isconst(i) and isconst(n):
        k, m = int(cval(i)), int(cval(n))
        if not -m <= k < m:
            if ex.jit_depth == 0:
                raise PyExc("IndexError", "index %d out of bounds %d" % (k, m))
            ex.oblige("%s in bounds" % what, FALSE)
        return const(k % m if m else 0)
    if isconst(i) and cval(i) < 0:
        r = add(n, i)
    elif isconst(i):
        r = i
    else:
        d = ex.decide(ge(i, I0))
        if d is True:
            r = i
        elif d is False:
            r = add(i, n)
        else:
            r = ite(ge(i, I0), i, add(i, n))
    ok = and_(ge(r, I0), lt(r, n))
    ex.oblige("%s in bounds" % what, ok)
    return r


def slice_bounds(ex, s, n):
    """(start, length, step) of a slice on a dimension of size n"""
    n = num(n)
    step = 1 if s.c is None else simp(num(s.c))
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic slice step")
    return (_slice_pos if step > 0 else _slice_neg)(ex, s, n, step)


def clip(ex, v, n, lowest, highest):
    """python slice bound: negative counts from the end, then clip to [lowest, highest]"""
    v = num(v)
    if isinstance(v, CV) or v.sort != "I":
        raise PyExc("TypeError", "slice indices must be integers")
    d = ex.decide(ge(v, I0))
    if d is None:
        d2 = ite(ge(v, I0), v, add(v, n))
    else:
        d2 = v if d else add(v, n)
    a = ex.decide(ge(d2, lowest))
    if a is False:
        d2 = lowest
    elif a is None:
        d2 = emax(d2, lowest)
    b = ex.decide(le(d2, highest))
    if b is False:
        d2 = highest
    elif b is None:
        d2 = emin(d2, highest)
    return d2


def _slice_pos(ex, s, n, step):
    a = I0 if s.a is None else clip(ex, s.a, n, I0, n)
    b = n if s.b is None else clip(ex, s.b, n, I0, n)
    ln = sub(b, a)
    d = ex.decide(ge(ln, I0))
    if d is False:
        ln = I0
    elif d is None:
        ln = emax(ln, I0)
    if step != 1:
        ln = floordiv(add(ln, const(step - 1)), const(step))
    return a, ln, step


def _slice_neg(ex, s, n, step):
    m1 = const(-1)
    top = sub(n, I1)
    a = top if s.a is None else clip(ex, s.a, n, m1, top)
    b = m1 if s.b is None else clip(ex, s.b, n, m1, top)
    ln = sub(a, b)
    d = ex.decide(ge(ln, I0))
    if d is False:
        ln = I0
    elif d is None:
        ln = emax(ln, I0)
    k = -step
    if k != 1:
        ln = floordiv(add(ln, const(k - 1)), const(k))
    return a, ln, step


def _expand_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    used = 0
    for x in idx:
        if x is None or x is ELLIPSIS:
            continue
        if isinstance(x, Arr) and x.dtype == "B":
            used += x.ndim
        else:
            used += 1
    if ELLIPSIS in [x for x in idx if isinstance(x, Opaque)]:
        k = [n for n, x in enumerate(idx) if x is ELLIPSIS][0]
        idx[k:k + 1] = [SliceVal(None, None, None)] * (a.ndim - used)
    else:
        idx += [SliceVal(None, None, None)] * (a.ndim - used)
    if used > a.ndim:
        raise PyExc("IndexError", "too many indices")
    return idx


def view(ex, a, idx):
    """basic indexing -> view"""
    shape = []
    per_axis = {}
    ax = 0
    for x in idx:
        if x is None:
            shape.append(1)
        elif isinstance(x, SliceVal):
            if x.a is None and x.b is None and x.c is None:
                per_axis[ax] = ("ax", len(shape), I0, 1)
                shape.append(a.shape[ax])
            else:
                st, ln, step = slice_bounds(ex, x, a.shape[ax])
                per_axis[ax] = ("ax", len(shape), st, step)
                shape.append(simp(ln))
            ax += 1
        else:
            per_axis[ax] = ("fix", norm_index(ex, x, a.shape[ax]))
            ax += 1
    maps = []
    for m in a.maps:
        if m[0] == "fix":
            maps.append(m)
        else:
            _, vax, start, step = m
            n = per_axis[vax]
            if n[0] == "fix":
                maps.append(("fix", add(start, scale(n[1], step))))
            else:
                maps.append(("ax", n[1], add(start, scale(n[2], step)), step * n[3]))
    return Arr(a.store, [simp(num(s)) for s in shape], a.dtype, maps)


def is_fancy(idx):
    return any(isinstance(x, (Arr, list)) and not (isinstance(x, Arr) and x.ndim == 0) for x in idx)


def mask_info(ex, mask):
    """names of the enumeration of the true elements of a boolean array.
    enum_a(j): a-th coordinate of the j-th true element; rank(p): its position"""
    c = ex.heap[mask.store]
    ps = [var("m%d" % k) for k in range(mask.ndim)]
    expr = ex.read(mask, ps)
    key = (expr, mask.ndim, tuple(num(s) for s in mask.shape))
    r = ex.masks.get(key)
    if r is None:
        k = len(ex.masks)
        fvs = tuple(sorted(expr.fv - set(ps), key=lambda v: v.id))
        cnt = app("mcount%d" % k, fvs, "I")
        enum = lambda j, k=k: tuple(_enum_rule(k, a, len(fvs), fvs + (j,)) for a in range(mask.ndim))
        rank = lambda p, k=k: app("mrank%d" % k, fvs + tuple(p), "I")
        r = (cnt, enum, rank, lambda p: subst(expr, dict(zip(ps, p))))
        ex.masks[key] = r
        sums.ENUM[k] = (len(fvs), mask.shape, r[3])
        REBUILD["mrank%d" % k] = lambda *a, k=k, nf=len(fvs), nd=mask.ndim: _rank_rule(k, nf, nd, a)
        for a in range(mask.ndim):
            REBUILD["menum%d_%d" % (k, a)] = lambda *x, k=k, a=a, nf=len(fvs): _enum_rule(k, a, nf, x)
        # axioms
        j = fresh("j")
        rng = and_(ge(j, I0), lt(j, cnt))
        e = enum(j)
        inr = and_(*[and_(ge(x, I0), lt(x, num(s))) for x, s in zip(e, mask.shape)])
        qs = [fresh("q") for _ in range(mask.ndim)]
        inq = and_(*[and_(ge(x, I0), lt(x, num(s))) for x, s in zip(qs, mask.shape)])
        rk = rank(qs)
        # for the current values of the free variables
        ex.extaxioms[("mask",) + key] = [
            ge(cnt, I0),
            forall((j,), implies(rng, and_(inr, r[3](e), eq(rank(e), j)))),
            forall(tuple(qs), implies(and_(inq, r[3](qs)), and_(ge(rk, I0), lt(rk, cnt), *[eq(x, y) for x, y in zip(enum(rk), qs)])))]
    for x in ex.extaxioms[("mask",) + key]:
        ex.add_axiom(x)
    return r


def _enum_rule(k, n, nf, a):
    # menum(mrank(p)) = p: proved for the true elements; for the others, whose rank is nowhere else
    # specified, it is a choice that any enumeration admits
    x = a[-1]
    if x.op == "app" and x.args[0] == "mrank%d" % k and x.args[1:1 + nf] == tuple(a[:nf]):
        return x.args[1 + nf + n]
    return app("menum%d_%d" % (k, n), tuple(a), "I")


def _rank_rule(k, nf, nd, a):
    a = list(a)
    args = a[nf:]
    js = set()
    for n, x in enumerate(args):
        if x.op == "app" and x.args[0] == "menum%d_%d" % (k, n) and x.args[1:1 + nf] == tuple(a[:nf]):
            js.add(x.args[-1])
        else:
            js.add(None)
    if len(js) == 1 and None not in js:
        return js.pop()
    return app("mrank%d" % k, a, "I")


def getitem(ex, base, idx):
    if isinstance(base, (list, tuple, str)):
        if isinstance(idx, SliceVal):
            p = [None if x is None else simp(num(x)) for x in (idx.a, idx.b, idx.c)]
            if any(isinstance(x, E) for x in p):
                raise Unsupported("symbolic slice of a python sequence")
            return base[slice(*p)]
        i = simp(idx) if isinstance(idx, E) else idx
        if isinstance(i, Fraction):
            raise PyExc("TypeError", "list indices must be integers")
        if isinstance(i, E):
            # symbolic index into a concrete list: fork
            for k in range(len(base)):
                if ex.branch(or_(eq(i, const(k)), eq(i, const(k - len(base))))):
                    return base[k]
            raise PyExc("IndexError", "list index out of range")
        if isinstance(i, (tuple, list, Arr)) or i is None:
            raise PyExc("TypeError", "list indices must be integers")
        try:
            return base[i]
        except IndexError:
            raise PyExc("IndexError", "list index out of range")
    if isinstance(base, dict):
        if idx not in base:
            raise PyExc("KeyError", str(idx))
        return base[idx]
    if isinstance(base, listmodel.SymList):
        return listmodel.getitem(ex, base, idx)
    if isinstance(base, Stream):
        if isinstance(base, Filtered):
            raise Unsupported("element of a filtered sequence")
        return base.elem(num(idx))
    if isinstance(base, Opaque) and "__getitem__" in base.attrs:
        return base.attrs["__getitem__"](idx)
    if not isinstance(base, Arr):
        if base is None or is_num(base):
            raise PyExc("TypeError", "object is not subscriptable")
        raise Unsupported("subscript of %r" % (base,))
    ix = _expand_index(base, idx)
    if not is_fancy(ix):
        ix = [ex.read(x, ()) if isinstance(x, Arr) else x for x in ix]
        v = view(ex, base, ix)
        if v.ndim == 0:
            r = ex.read(v, ())
            return simp(r) if isinstance(r, E) else r
        return v
    return fancy_get(ex, base, ix)


def fancy_plan(ex, base, ix):
    """result shape and index function for one fancy (mask or integer array) index"""
    pos = [k for k, x in enumerate(ix) if isinstance(x, (Arr, list)) and not (isinstance(x, Arr) and x.ndim == 0)]
    if len(pos) > 1:
        arrs = [np_array(ex, ix[k]) if isinstance(ix[k], list) else ix[k] for k in pos]
        if any(a.dtype == "B" for a in arrs):
            raise Unsupported("several mask indices")
        if pos != list(range(pos[0], pos[0] + len(pos))):
            raise Unsupported("separated fancy indices")
        shp = broadcast_shapes(ex, [a.shape for a in arrs])
        rds = [ex.reader(a) for a in arrs]
        k0 = pos[0]

        def fidx(loc):
            return [norm_index_noob(ex, rd(bidx(a.shape, loc)), None) for rd, a in zip(rds, arrs)]
        return k0, len(pos), tuple(shp), fidx, None
    k0 = pos[0]
    x = ix[k0]
    if isinstance(x, list):
        x = np_array(ex, x)
    if x.dtype == "B":
        for d, s in enumerate(x.shape):
            ax = sum(1 for y in ix[:k0] if y is not None) + d
            if ax >= base.ndim:
                raise PyExc("IndexError", "too many indices")
            r = same_dim(ex, s, base.shape[ax])
            if r is not True:
                if r is False or not ex.branch(eq(num(s), num(base.shape[ax]))):
                    raise PyExc("IndexError", "boolean index did not match indexed array")
        cnt, enum, rank, cond = mask_info(ex, x)
        return k0, x.ndim, (cnt,), (lambda loc: list(enum(loc[0]))), (rank, cond)
    rd = ex.reader(x)
    ax = sum(1 for y in ix[:k0] if y is not None)
    n = num(base.shape[ax])

    def fidx(loc):
        v = rd(loc)
        return [ite(ge(v, I0), v, add(v, n))]
    return k0, 1, x.shape, fidx, None


def norm_index_noob(ex, v, n):
    return v


def fancy_get(ex, base, ix):
    k0, nax, fshape, fidx, m = fancy_plan(ex, base, ix)
    if any(x is None for x in ix):
        raise Unsupported("newaxis with fancy index")
    npos = len([x for x in ix if isinstance(x, (Arr, list))])
    # replace the fancy axes by full slices, take the basic view first
    basic = list(ix)
    basic[k0:k0 + npos] = [SliceVal(None, None, None)] * nax
    ints_before = any(not isinstance(x, SliceVal) for x in basic)
    v = view(ex, base, basic)
    # position of the fancy axes inside the view
    p = sum(1 for x in basic[:k0] if isinstance(x, SliceVal))
    rest = v.shape[:p] + tuple(fshape) + v.shape[p + nax:]
    rd = ex.reader(v)
    nf = len(fshape)

    def f(idx):
        loc = idx[p:p + nf]
        return rd(tuple(idx[:p]) + tuple(fidx(loc)) + tuple(idx[p + nf:]))
    return ex.fn_array(rest, base.dtype, f)


def setitem(ex, base, idx, v):
    if isinstance(base, list):
        i = simp(idx) if isinstance(idx, E) else idx
        if isinstance(i, SliceVal):
            raise Unsupported("list slice assignment")
        if not isinstance(i, int):
            raise Unsupported("symbolic list index assignment")
        if not -len(base) <= i < len(base):
            raise PyExc("IndexError", "list assignment index out of range")
        base[i] = v
        return
    if isinstance(base, dict):
        base[idx] = v
        return
    if isinstance(base, Opaque) and "__setitem__" in base.attrs:
        return base.attrs["__setitem__"](idx, v)
    if not isinstance(base, Arr):
        raise PyExc("TypeError", "object does not support item assignment")
    ix = _expand_index(base, idx)
    if v is NAN and base.dtype == "I":
        raise PyExc("ValueError", "cannot convert float NaN to integer")
    if v is NAN and base.dtype == "B":
        v = True
    if isinstance(v, (list, tuple)):
        v = np_array(ex, v)
    if v is None:
        raise PyExc("TypeError", "float() argument must not be None")
    if not is_fancy(ix):
        ix = [ex.read(x, ()) if isinstance(x, Arr) else x for x in ix]
        w = view(ex, base, ix)
        assign_view(ex, w, v)
        return
    k0, nax, fshape, fidx, m = fancy_plan(ex, base, ix)
    if m is None:
        raise Unsupported("integer-array assignment")
    rank, cond = m
    basic = list(ix)
    basic[k0:k0 + 1] = [SliceVal(None, None, None)] * nax
    w = view(ex, base, basic)
    p = sum(1 for x in basic[:k0] if isinstance(x, SliceVal))
    if isinstance(v, Arr):
        tshape = w.shape[:p] + tuple(fshape) + w.shape[p + nax:]
        sh = broadcast_shapes(ex, [v.shape, tshape])
        if len(sh) != len(tshape):
            raise PyExc("ValueError", "could not broadcast input array")
        check_same_shape(ex, sh, tshape, "assignment")
        rd = ex.reader(v)
        val = lambda loc: rd(bidx(v.shape, loc[:p] + (rank(loc[p:p + nax]),) + loc[p + nax:]))
    else:
        s = num(v)
        val = lambda loc: s
    ex.write_view(w, val, cond=lambda loc: cond(loc[p:p + nax]))


def assign_view(ex, w, v):
    if isinstance(v, Arr):
        nd = v.ndim
        shp = v.shape
        while len(shp) > w.ndim and simp(num(shp[0])) == 1:
            shp = shp[1:]
        sh = broadcast_shapes(ex, [shp, w.shape]) if w.ndim else ()
        if len(sh) != w.ndim:
            raise PyExc("ValueError", "could not broadcast input array")
        check_same_shape(ex, sh, w.shape, "assignment")
        rd = ex.reader(v)
        lead = v.ndim - len(shp)
        ex.write_view(w, lambda loc: rd((I0,) * lead + bidx(shp, loc)))
    elif is_num(v):
        s = num(v)
        ex.write_view(w, lambda loc: s)
    else:
        raise Unsupported("assigning %r into an array" % (v,))


# ------------------------------------------------------------------ attributes

def getattr_(ex, base, name):
    if isinstance(base, Arr):
        return arr_attr(ex, base, name)
    if isinstance(base, (E, CV, int, Fraction, bool)):
        if name == "real":
            return n_real(base) if not isinstance(base, (int, Fraction)) else base
        if name == "imag":
            return n_imag(base) if not isinstance(base, (int, Fraction)) else 0
        if name == "conj" or name == "conjugate":
            return Builtin("conj", lambda: n_conj(base))
        if name == "ndim":
            return 0
        if name == "shape":
            return ()
        if name == "dtype":
            return DT[dtype_of(base)]
        if name in ("min", "max", "mean", "item", "copy"):
            return Builtin(name, lambda *a, **k: base)
        if name == "astype":
            return Builtin(name, lambda dt: cast_val(base, dt_name(ex, dt)))
        raise PyExc("AttributeError", name)
    if isinstance(base, Opaque):
        if name in base.attrs:
            return base.attrs[name]
        if "__module__" in base.attrs and "__class__" not in base.attrs:
            m = base.attrs["__module__"]
            ov = override(ex, m, name)
            if ov is not None:
                return ov
            try:
                return ex.module(m).get(name)
            except (KeyError, Unsupported) as e:
                if base.attrs.get("__known__") and isinstance(e, KeyError):
                    raise PyExc("AttributeError", name)
                return Opaque("module:%s.%s" % (m, name), {"__module__": m + "." + name})
        if "__getattr__" in base.attrs:
            return base.attrs["__getattr__"](name)
        if base.attrs.get("__strict__"):
            raise PyExc("AttributeError", name)
        raise Unsupported("attribute %s of %r" % (name, base))
    if isinstance(base, str):
        if name == "join":
            def join(x):
                it = ex.concrete_items(x)
                return base.join(it) if it is not None and all(isinstance(y, str) and not isinstance(y, UStr) for y in it) else UStr("<str>")
            return Builtin("str.join", join)
        if name == "format":
            def fmt(*a, **k):
                if not isinstance(base, UStr) and all(isinstance(x, (int, str)) and not isinstance(x, UStr) for x in list(a) + list(k.values())):
                    return base.format(*a, **k)
                return UStr("<str>")
            return Builtin("str.format", fmt)
        if name in ("lower", "upper", "strip", "startswith", "endswith", "split"):
            return Builtin("str." + name, getattr(base, name))
        raise PyExc("AttributeError", name)
    if isinstance(base, listmodel.SymList):
        return Builtin("list." + name, listmodel.attribute(ex, base, name))
    if isinstance(base, list):
        if name in ("append", "pop", "insert", "extend", "index", "reverse", "remove", "count", "copy", "clear"):
            def f(*a):
                a = [simp(x) if isinstance(x, E) else x for x in a]
                try:
                    if name == "extend":
                        return base.extend(ex.concrete_items(a[0]))
                    return getattr(base, name)(*a)
                except IndexError:
                    raise PyExc("IndexError", "pop")
            return Builtin("list." + name, f)
        raise PyExc("AttributeError", name)
    if isinstance(base, tuple):
        raise PyExc("AttributeError", name)
    if isinstance(base, dict):
        if name in ("get", "keys", "values", "items", "pop", "update", "setdefault", "copy"):
            g = getattr(base, name)
            return Builtin("dict." + name, lambda *a: (list(g(*a)) if name in ("keys", "values", "items") else g(*a)))
        raise PyExc("AttributeError", name)
    if isinstance(base, DType):
        if name == "kind":
            return {"F": "f", "C": "c", "I": "i", "B": "b"}[base.name]
        if name == "type":
            return base
        if name == "itemsize":
            return 8
        raise PyExc("AttributeError", name)
    if isinstance(base, (FuncVal, Builtin)):
        if name in ("__doc__", "__name__"):
            return "<doc>"
        if isinstance(base, Builtin) and base.name == "np.ndarray":
            raise Unsupported("ndarray attribute")
        if isinstance(base, Builtin) and hasattr(base, "attrs") and name in base.attrs:
            return base.attrs[name]
        raise PyExc("AttributeError", name)
    if base is None:
        raise PyExc("AttributeError", "None.%s" % name)
    raise Unsupported("attribute %s of %r" % (name, base))


def setattr_(ex, base, name, v):
    if isinstance(base, (FuncVal, Builtin)) and name == "__doc__":
        return
    if isinstance(base, Arr) and name in ("real", "imag"):
        if base.dtype != "C" and name == "imag":
            raise Unsupported("assigning .imag of a real array")
        return assign_view(ex, arr_attr(ex, base, name), v)
    raise Unsupported("attribute assignment %s" % name)


def arr_attr(ex, a, name):
    if name == "shape":
        return tuple(a.shape)
    if name == "ndim":
        return a.ndim
    if name == "dtype":
        return DT[a.dtype]
    if name == "size":
        r = I1
        for s in a.shape:
            r = mul(r, num(s))
        return simp(r)
    if name == "T":
        return transpose(ex, a, list(range(a.ndim))[::-1])
    if name == "real":
        if a.dtype != "C":
            return a
        return part(ex, a, "re")
    if name == "imag":
        if a.dtype != "C":
            return elementwise(ex, lambda x: const(0, "R"), [a], a.dtype)
        return part(ex, a, "im")
    if name == "data":
        return Opaque("buffer", {"contiguous": contiguous(ex, a), "c_contiguous": contiguous(ex, a)})
    if name == "flags":
        return Opaque("flags", {"c_contiguous": contiguous(ex, a), "contiguous": contiguous(ex, a), "writeable": True})
    if name in ("copy",):
        return Builtin("copy", lambda *x, **k: np_copy(ex, a))
    if name == "astype":
        return Builtin("astype", lambda dt, **k: elementwise(ex, lambda x: cast_val(x, dt_name(ex, dt)), [a], dt_name(ex, dt)))
    if name == "reshape":
        return Builtin("reshape", lambda *s: reshape(ex, a, s[0] if len(s) == 1 and isinstance(s[0], (list, tuple)) else s))
    if name in ("flatten", "ravel"):
        return Builtin(name, lambda *s: reshape(ex, a, (-1,)))
    if name in ("min", "max"):
        return Builtin(name, lambda axis=None: extremum(ex, a, name, axis))
    if name in ("mean", "var", "std", "sum", "any", "all"):
        return Builtin(name, lambda *x, **k: ex.call(ex.np.attrs[name], (a,) + x, k))
    if name in ("conj", "conjugate"):
        return Builtin(name, lambda: elementwise(ex, n_conj, [a], a.dtype))
    if name == "fill":
        return Builtin(name, lambda v: assign_view(ex, a, v))
    if name == "transpose":
        return Builtin(name, lambda *p: transpose(ex, a, list(p[0] if len(p) == 1 and isinstance(p[0], (list, tuple)) else p) or list(range(a.ndim))[::-1]))
    if name == "swapaxes":
        return Builtin(name, lambda x, y: swapaxes(ex, a, x, y))
    if name == "tolist":
        def f():
            items = ex.concrete_items(a)
            if items is None:
                raise Unsupported("tolist")
            return items
        return Builtin(name, f)
    if name == "item":
        return Builtin(name, lambda: ex.read(a, (I0,) * a.ndim))
    raise PyExc("AttributeError", name)


class PartContent(Content):
    pass


def part(ex, a, which):
    """real / imaginary view of a complex array (reads only; writes go through)"""
    rd = ex.reader(a)
    r = ex.fn_array(a.shape, "F", lambda idx: getattr(cplx(rd(idx)), which))
    ex.partviews[r.store] = [a, which, ex.heap[a.store]]
    return r


def sync_part(ex, store):
    """a real/imaginary view shows what is in the array now"""
    a, which, seen = pv = ex.partviews[store]
    if a.store in ex.partviews:
        sync_part(ex, a.store)
    if ex.heap[a.store] is not seen:
        rd = ex.reader(a)
        ex.heap[store] = Fn(lambda idx: getattr(cplx(rd(idx)), which))
        pv[2] = ex.heap[a.store]


def write_part(ex, store):
    """what was written to a real/imaginary view goes to the array"""
    a, which, _ = pv = ex.partviews[store]
    new, old = ex.heap[store], ex.reader(a)

    def val(loc):
        o, n = cplx(old(loc)), toreal(num(new.read(loc)))
        return CV(n, o.im) if which == "re" else CV(o.re, n)
    ex.write_view(a, val)
    pv[2] = ex.heap[a.store]


def contiguous(ex, a):
    k = ("contig", a.store, a.maps)
    r = ex.contig.get(k)
    if r is None:
        r = fresh("contiguous", "B")
        ex.contig[k] = r
    return r


def np_copy(ex, a):
    if not isinstance(a, Arr):
        return a
    rd = ex.reader(a)
    return ex.fn_array(a.shape, a.dtype, rd)


def posaxis(ex, ax, nd):
    ax = simp(num(ax))
    if not isinstance(ax, int):
        raise Unsupported("symbolic axis")
    if not -nd <= ax < nd:
        raise PyExc("AxisError", "axis out of bounds")
    return ax % nd


def transpose(ex, a, perm):
    inv_ = {p: k for k, p in enumerate(perm)}
    maps = [m if m[0] == "fix" else ("ax", inv_[m[1]], m[2], m[3]) for m in a.maps]
    return Arr(a.store, [a.shape[p] for p in perm], a.dtype, maps)


def moveaxis(ex, a, src, dst):
    if not isinstance(a, Arr):
        a = np_asarray(ex, a)
    s, d = posaxis(ex, src, a.ndim), posaxis(ex, dst, a.ndim)
    perm = [k for k in range(a.ndim) if k != s]
    perm.insert(d, s)
    return transpose(ex, a, perm)


def swapaxes(ex, a, x, y):
    x, y = posaxis(ex, x, a.ndim), posaxis(ex, y, a.ndim)
    perm = list(range(a.ndim))
    perm[x], perm[y] = perm[y], perm[x]
    return transpose(ex, a, perm)


def prod(dims):
    r = I1
    for s in dims:
        r = mul(r, num(s))
    return r


def _flat(dims, idx):
    dims, idx = list(dims), list(idx)
    while dims and dims[0] is I1:
        dims.pop(0), idx.pop(0)
    k = 0
    while k < len(dims):
        if dims[k] is I1:
            dims.pop(k), idx.pop(k)
        else:
            k += 1
    if not dims:
        return I0
    if len(dims) == 1:
        return idx[0]
    if all(isconst(d) for d in dims[1:]):
        r = idx[0]
        for d, i in zip(dims[1:], idx[1:]):
            r = add(scale(r, cval(d)), i)
        return r
    return _mkflat(len(dims))(*(tuple(dims) + tuple(idx)))


def _mkflat(n):
    def f(*a):
        dims, idx = a[:n], a[n:]
        # flat(dims, unflat_k(dims, f)...) = f
        fs = set()
        for k, i in enumerate(idx):
            if i.op == "app" and i.args[0] == "unflat%d_%d" % (n, k) and i.args[1:1 + n] == tuple(dims):
                fs.add(i.args[-1])
            else:
                fs.add(None)
        if len(fs) == 1 and None not in fs:
            return fs.pop()
        return app("flat%d" % n, a, "I")
    return f


def _unflat(dims, f):
    """list of indices of the flat position f in an array of the given dims"""
    keep = [k for k, d in enumerate(dims) if d is not I1]
    out = [I0] * len(dims)
    if not keep:
        return out
    if len(keep) == 1:
        out[keep[0]] = f
        return out
    dd = tuple(dims[k] for k in keep)
    n = len(dd)
    if f.op == "app" and f.args[0] == "flat%d" % n and f.args[1:1 + n] == dd:
        vals = f.args[1 + n:]
    elif all(isconst(d) for d in dd[1:]):
        vals = []
        r = f
        for d in reversed(dd[1:]):
            vals.append(mod(r, d))
            r = floordiv(r, d)
        vals.append(r)
        vals = vals[::-1]
    else:
        vals = [app("unflat%d_%d" % (n, k), dd + (f,), "I") for k in range(n)]
    for k, v in zip(keep, vals):
        out[k] = v
    return out


for _n in range(2, 7):
    REBUILD["flat%d" % _n] = _mkflat(_n)
    for _k in range(_n):
        def _mk(n, k):
            def f(*a):
                dd, x = a[:n], a[n]
                if x.op == "app" and x.args[0] == "flat%d" % n and x.args[1:1 + n] == tuple(dd):
                    return x.args[1 + n + k]
                return app("unflat%d_%d" % (n, k), a, "I")
            return f
        REBUILD["unflat%d_%d" % (_n, _k)] = _mk(_n, _k)


def reshape(ex, a, shape):
    shape = [num(s) for s in shape]
    old = [num(s) for s in a.shape]
    neg1 = [k for k, s in enumerate(shape) if isconst(s) and cval(s) == -1]
    if neg1:
        k = neg1[0]
        others = [s for j, s in enumerate(shape) if j != k]
        rest = list(old)
        ok = True
        for s in others:
            if s in rest:
                rest.remove(s)
            elif s is I1:
                pass
            else:
                ok = False
        if ok:
            shape[k] = prod(rest)
        elif all(isconst(x) for x in others + old):
            t = 1
            for s in old:
                t *= int(cval(s))
            u = 1
            for s in others:
                u *= int(cval(s))
            if u == 0 or t % u:
                raise PyExc("ValueError", "cannot reshape array")
            shape[k] = const(t // u)
        else:
            raise Unsupported("reshape with inferred dimension")
    po, pn = prod(old), prod(shape)
    if po is not pn:
        ro, rn = list(old), list(shape)
        for x in old:
            if x in rn:
                ro.remove(x)
                rn.remove(x)
        d = True if len(ro) < len(old) and ex.decide(eq(prod(ro), prod(rn))) is True else None
        if d is None:
            d = ex.decide(eq(po, pn))
        if d is None:
            d = ex.branch(eq(po, pn))
        if not d:
            raise PyExc("ValueError", "cannot reshape array")
    # strip equal leading and trailing dimensions
    l = 0
    while l < len(old) and l < len(shape) and old[l] is shape[l]:
        l += 1
    t = 0
    while t < len(old) - l and t < len(shape) - l and old[len(old) - 1 - t] is shape[len(shape) - 1 - t]:
        t += 1
    mo, mn = old[l:len(old) - t], shape[l:len(shape) - t]
    rd = ex.reader(a)

    def f(idx):
        idx = tuple(idx)
        mid = idx[l:len(idx) - t]
        fl = _flat(mn, mid)
        om = _unflat(mo, fl)
        return rd(idx[:l] + tuple(om) + idx[len(idx) - t:])
    r = ex.fn_array([simp(s) for s in shape], a.dtype, f)
    return r


def extremum(ex, a, which, axis=None):
    if not isinstance(a, Arr):
        return a
    if axis is not None:
        raise Unsupported("extremum along an axis")
    if a.dtype == "C":
        raise Unsupported("complex extremum")
    nonempty = and_(*[gt(num(s), I0) for s in a.shape])
    if not ex.branch(nonempty):
        raise PyExc("ValueError", "zero-size array to reduction operation")
    ps = [var("mm%d" % k) for k in range(a.ndim)]
    e = ex.read(a, ps)
    dims = tuple(num(s) for s in a.shape)
    key = (which, e, dims)
    r = ex.extrema.get(key)
    if r is None:
        k = len(ex.extrema)
        fvs = tuple(sorted((e.fv - set(ps)), key=lambda v: v.id))
        m = app("%s%d" % (which, k), fvs, e.sort)
        ws = [app("arg%s%d_%d" % (which, k, n), fvs, "I") for n in range(a.ndim)]
        qs = [fresh("q") for _ in ps]
        ex.extrema[key] = r = (m, ws)
        inr = lambda xs: and_(*[and_(ge(x, I0), lt(x, d)) for x, d in zip(xs, dims)])
        eq_ = subst(e, dict(zip(ps, qs)))
        rel = le(m, eq_) if which == "min" else ge(m, eq_)
        ax = [forall(tuple(fvs) + tuple(qs), implies(inr(qs), rel)),
              implies(nonempty, and_(inr(ws), eq(m, subst(e, dict(zip(ps, ws))))))]
        if fvs:
            ax[1] = forall(tuple(fvs), ax[1])
        ex.extaxioms[key] = ax
    for x in ex.extaxioms[key]:
        ex.add_axiom(x)
    return r[0]


# ------------------------------------------------------------------ numpy functions

def np_array(ex, v, dtype=None):
    """list / tuple / scalar -> Arr"""
    if isinstance(v, Arr):
        a = v
    elif isinstance(v, (list, tuple)):
        shape, flat = _list_shape(ex, v)
        dts = [x.dtype if isinstance(x, Arr) else dtype_of(x) for x in flat] or ["F"]
        dt = promote(*dts)
        nd = len(shape)
        rds = []
        inner = 0
        if flat and isinstance(flat[0], Arr):
            inner = flat[0].ndim
            rds = [ex.reader(x) for x in flat]
            tail = flat[0].shape
        else:
            tail = ()

        def f(idx):
            lead, rest = idx[:nd], idx[nd:]
            fl = _flat([num(s) for s in shape], lead) if nd else I0
            vals = [r(rest) for r in rds] if rds else [num(x) for x in flat]
            if isconst(fl):
                return cast_val(vals[int(cval(fl))], dt)
            r = cast_val(vals[-1], dt)
            for k in range(len(vals) - 2, -1, -1):
                r = n_ite(eq(fl, const(k)), cast_val(vals[k], dt), r)
            return r
        a = ex.fn_array(tuple(shape) + tuple(tail), dt, f)
    elif isinstance(v, Filtered):
        raise Unsupported("array of a filtered sequence")
    elif isinstance(v, Stream):
        probe = v.elem(fresh("k"))
        if isinstance(probe, Arr):
            shp = probe.shape
            return ex.fn_array((v.length,) + tuple(shp), probe.dtype, lambda idx: ex.read(v.elem(idx[0]), idx[1:]))
        if is_num(probe):
            return ex.fn_array((v.length,), dtype_of(probe), lambda idx: v.elem(idx[0]))
        raise Unsupported("array of a symbolic stream")
    elif is_num(v):
        a = ex.fn_array((), dtype_of(v), lambda idx: num(v))
    elif v is None:
        raise PyExc("TypeError", "array of None")
    else:
        raise Unsupported("np.array(%r)" % (v,))
    if dtype is not None:
        dt = dt_name(ex, dtype)
        if dt != a.dtype:
            a = elementwise(ex, lambda x: cast_val(x, dt), [a], dt)
    return a


def _list_shape(ex, v):
    if not isinstance(v, (list, tuple)):
        return [], [v]
    if not v:
        return [0], []
    subs = [_list_shape(ex, x) for x in v]
    s0 = subs[0][0]
    for s, _ in subs:
        if len(s) != len(s0):
            raise PyExc("ValueError", "inhomogeneous shape")
    return [len(v)] + s0, [y for _, f in subs for y in f]


def np_asarray(ex, v, dtype=None):
    if isinstance(v, Arr):
        dt = dt_name(ex, dtype)
        if dt is None or dt == v.dtype:
            return v
        if v.dtype == "C" and dt != "C":
            # numpy emits a ComplexWarning and drops the imaginary part
            return elementwise(ex, lambda x: cast_val(cplx(x).re, dt), [v], dt)
        return elementwise(ex, lambda x: cast_val(x, dt), [v], dt)
    return np_array(ex, v, dtype)


def shape_arg(ex, s):
    if isinstance(s, (list, tuple)):
        r = []
        for x in s:
            x = simp(num(x)) if not isinstance(x, Fraction) else x
            if isinstance(x, (Fraction, CV)) or (isinstance(x, E) and x.sort != "I"):
                raise PyExc("TypeError", "shape must be integers")
            r.append(x)
        return tuple(r)
    if isinstance(s, Arr):
        return tuple(ex.concrete_items(s))
    if isinstance(s, Fraction):
        raise PyExc("TypeError", "shape must be integers")
    return (simp(num(s)),)


def np_new(ex, shape, dtype, fill, order=None):
    sh = shape_arg(ex, shape)
    dt = dt_name(ex, dtype) or "F"
    if fill is None:
        # unspecified content
        nm = "uninit!%d" % (ex.nstore + 1)
        nm = fresh("uninit").args[0]
        return ex.alloc(sh, dt, Fn(sym_reader(nm, dt)))
    v = num(fill)
    return ex.fn_array(sh, dt, lambda idx: v)


def ufunc1(ex, name):
    def f(x, out=None, **k):
        if isinstance(x, (list, tuple)):
            x = np_array(ex, x)

        def g(v):
            return apply1(ex, name, v)
        if isinstance(x, Arr):
            dt = "F" if x.dtype in "IBF" else "C"
            if name in ("abs", "absolute"):
                dt = "I" if x.dtype == "I" else "F"
            if name in ("isnan", "isfinite", "isinf"):
                dt = "B"
            if name in ("square", "negative", "conj", "conjugate"):
                dt = x.dtype
            if name == "angle":
                dt = "F"
            return elementwise(ex, g, [x], dt, out)
        r = g(num(x))
        return simp(r) if isinstance(r, E) else r
    return f


def apply1(ex, name, v):
    v = num(v)
    if name in ("abs", "absolute"):
        if isinstance(v, CV):
            return sqrt_(add(mul(v.re, v.re), mul(v.im, v.im)))
        return eabs(v)
    if name == "square":
        return n_mul(v, v)
    if name == "negative":
        return n_neg(v)
    if name in ("conj", "conjugate"):
        return n_conj(v)
    if name == "real":
        return n_real(v)
    if name == "imag":
        return n_imag(v)
    if name == "isnan":
        if isinstance(v, CV):
            return or_(apply1(ex, name, v.re), apply1(ex, name, v.im))
        if ex.nan_aware:
            return eq(toreal(v), NAN)
        if has_app(v, ("NAN",)):
            return app("isnan", (v,), "B") if v is not NAN else TRUE
        if ex.assume_finite:
            return FALSE
        return app("isnan", (toreal(v),), "B")
    if name == "isfinite":
        return TRUE if ex.assume_finite else app("isfinite", (toreal(v),), "B")
    if isinstance(v, CV):
        if name == "exp":
            m = apply1(ex, "exp", v.re)
            return CV(mul(m, apply1(ex, "cos", v.im)), mul(m, apply1(ex, "sin", v.im)))
        if name == "sqrt":
            a, b = toreal(v.re), toreal(v.im)
            x, y = app("csqrt.re", (a, b), "R"), app("csqrt.im", (a, b), "R")
            ex.fact(and_(eq(sub(mul(x, x), mul(y, y)), a), eq(scale(mul(x, y), 2), b), ge(x, R0)))
            return CV(x, y)
        if name == "angle":
            return app("arctan2", (toreal(v.im), toreal(v.re)), "R")
        raise Unsupported("complex %s" % name)
    if name == "sqrt":
        return sqrt_(v)
    if name == "angle":
        return app("arctan2", (R0, toreal(v)), "R")
    if name in ("floor", "ceil", "rint", "round"):
        if v.sort == "I":
            return toreal(v)
        if isconst(v):
            import math
            k = cval(v)
            fl = k.numerator // k.denominator
            if name == "floor":
                return const(fl, "R")
            if name == "ceil":
                return const(-((-k.numerator) // k.denominator), "R")
            return const(round(k), "R")
        if v.op == "toreal":
            return v
        fl = app("rfloor" if name == "floor" else ("rceil" if name == "ceil" else "rround"), (v,), "I")
        r = toreal(fl)
        if name == "floor":
            ex.fact(and_(le(r, v), lt(v, add(r, R1))))
        elif name == "ceil":
            ex.fact(and_(ge(r, v), gt(add(v, R1), r)))
        else:
            h = const(Fraction(1, 2), "R")
            ex.fact(and_(le(r, add(v, h)), ge(r, sub(v, h))))
        return r
    if name in ("exp", "cos", "sin", "log", "tan", "log2", "log10", "arctan", "cosh", "sinh"):
        if isconst(v) and cval(v) == 0 and name in ("exp", "cos"):
            return R1
        if isconst(v) and cval(v) == 0 and name in ("sin", "tan", "arctan"):
            return R0
        if isconst(v) and cval(v) == 1 and name in ("log", "log2", "log10"):
            return R0
        return app(name, (toreal(v),), "R")
    raise Unsupported("ufunc %s" % name)


def ufunc2(ex, name):
    def f(x, y, out=None, **k):
        if k.get("where", True) is not True:
            raise Unsupported("ufunc where=")
        if isinstance(x, (list, tuple)):
            x = np_array(ex, x)
        if isinstance(y, (list, tuple)):
            y = np_array(ex, y)
        ops = {"add": n_add, "subtract": n_sub, "multiply": n_mul, "divide": n_div, "true_divide": n_div,
               "minimum": lambda a, b: emin(num(a), num(b)), "maximum": lambda a, b: emax(num(a), num(b)),
               "arctan2": lambda a, b: app("arctan2", (toreal(num(a)), toreal(num(b))), "R"),
               "logical_and": lambda a, b: and_(to_bool(num(a)), to_bool(num(b))),
               "logical_or": lambda a, b: or_(to_bool(num(a)), to_bool(num(b))),
               "mod": lambda a, b: mod(*coerce(a, b)), "remainder": lambda a, b: mod(*coerce(a, b)),
               "floor_divide": lambda a, b: floordiv(*coerce(a, b)),
               "power": lambda a, b: n_pow(ex, a, b), "equal": lambda a, b: cmp_scalar(ast.Eq, num(a), num(b)),
               "left_shift": lambda a, b: mul(a, app("pow2", (b,), "I"))}
        g = ops[name]
        if not isinstance(x, Arr) and not isinstance(y, Arr) and out is None:
            r = g(num(x), num(y))
            return simp(r) if isinstance(r, E) else r
        dt = promote(dtype_of(x), dtype_of(y))
        if name in ("divide", "true_divide", "arctan2") and dt in "IB":
            dt = "F"
        if name in ("logical_and", "logical_or", "equal"):
            dt = "B"
        if dt == "B" and name in ("add", "subtract", "multiply"):
            dt = "I"
        if out is not None and out.dtype == "I" and dt in "FC" or out is not None and out.dtype == "F" and dt == "C":
            raise PyExc("UFuncTypeError", "Cannot cast ufunc output")
        return elementwise(ex, g, [x, y], dt, out)
    return f


def reduction(ex, name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(a, (list, tuple)):
            a = np_array(ex, a)
        if not isinstance(a, Arr):
            return a
        if keepdims or k:
            raise Unsupported("reduction options")
        nd = a.ndim
        if axis is None:
            axes = list(range(nd))
        elif isinstance(axis, (tuple, list)):
            axes = [posaxis(ex, x, nd) for x in axis]
        else:
            axes = [posaxis(ex, axis, nd)]
        rd = ex.reader(a)
        keep = [k for k in range(nd) if k not in axes]
        dims = [num(a.shape[x]) for x in axes]
        nn = prod(dims)

        def total(idx, fn):
            if all(isconst(d) for d in dims) and int(cval(prod(dims))) <= 32:
                import itertools
                t = None
                for vals in itertools.product(*[range(int(cval(d))) for d in dims]):
                    full = [None] * nd
                    for p, x in zip(keep, idx):
                        full[p] = x
                    for p, x in zip(axes, vals):
                        full[p] = const(x)
                    y = fn(rd(tuple(full)))
                    t = y if t is None else n_add(t, y)
                return t if t is not None else const(0, "R")
            bv = [fresh("b") for _ in axes]
            full = [None] * nd
            for p, x in zip(keep, idx):
                full[p] = x
            for p, x in zip(axes, bv):
                full[p] = x
            v = fn(rd(tuple(full)))
            g = and_(*[and_(ge(b, I0), lt(b, d)) for b, d in zip(bv, dims)])
            return n_map(num(v), lambda e: sum_(tuple(bv), g, b2i(e) if e.sort == "B" else e))

        dt = a.dtype
        if name in ("sum", "nansum"):
            el = lambda idx: total(idx, lambda v: v)
            dt = "I" if dt == "B" else dt
        elif name in ("mean", "nanmean"):
            el = lambda idx: n_div(total(idx, lambda v: v), toreal(nn))
            dt = "F" if dt in "IB" else dt
        elif name == "var":
            def el(idx):
                m = n_div(total(idx, lambda v: v), toreal(nn))
                if isinstance(m, CV):
                    s2 = total(idx, lambda v: add(mul(v.re, v.re), mul(v.im, v.im)))
                    return sub(div(s2, toreal(nn)), add(mul(m.re, m.re), mul(m.im, m.im)))
                s2 = total(idx, lambda v: mul(v, v))
                return sub(div(s2, toreal(nn)), mul(m, m))
            dt = "F"
        else:
            raise Unsupported("reduction %s" % name)
        shape = tuple(a.shape[p] for p in keep)
        if not shape:
            r = el(())
            return simp(r) if isinstance(r, E) else r
        return ex.fn_array(shape, dt, el)
    return f


class DFT(object):
    pass


def model_fft(ex, inverse):
    def f(a, n=None, axis=-1, overwrite_x=False, **k):
        if isinstance(a, (list, tuple)):
            a = np_array(ex, a)
        if n is not None or k or not isinstance(a, Arr) or (axis not in (-1, a.ndim - 1)):
            raise Unsupported("fft options")
        M = num(a.shape[-1])
        rd = ex.reader(a)
        if not inverse:
            if a.ndim != 1:
                raise Unsupported("nd fft")
            k = fresh("j")
            e = cplx(rd((k,)))
            key = (subst(e.re, {k: var("dftj")}), subst(e.im, {k: var("dftj")}), M)
            nm = None
            for (kk, n2) in ex.dfts:
                if kk == key:
                    nm = n2
            if nm is None:
                nm = "DFT%d" % len(ex.dfts)
                ex.dfts.append((key, nm))
                ex.dftread[nm] = (rd, M)
            return ex.alloc(a.shape, "C", Fn(sym_reader(nm, "C")))
        # inverse transform of a product conj(A)*B: circular cross-correlation theorem
        if a.ndim != 1:
            raise Unsupported("nd ifft")
        k = fresh("k")
        v = cplx(rd((k,)))
        names = sorted(set(x.args[0].split(".")[0] for c in (v.re, v.im) for x in walk(c) if x.op == "app" and x.args[0].startswith("DFT")))
        for A in names:
            for Bn in names:
                a_ = CV(app(A + ".re", (k,)), app(A + ".im", (k,)))
                b_ = CV(app(Bn + ".re", (k,)), app(Bn + ".im", (k,)))
                w = n_mul(n_conj(a_), b_)
                if sums.prove_zero(sub(w.re, v.re), []).ok and sums.prove_zero(sub(w.im, v.im), []).ok:
                    ra, Ma = ex.dftread[A]
                    rb, Mb = ex.dftread[Bn]
                    if Ma is not M or Mb is not M:
                        raise Unsupported("dft lengths")

                    def out(idx, ra=ra, rb=rb):
                        m = idx[0]
                        i, j = fresh("b"), fresh("b")
                        g = and_(ge(i, I0), lt(i, M), ge(j, I0), lt(j, M),
                                 or_(eq(sub(j, i), m), eq(sub(j, i), sub(m, M))))
                        p = n_mul(n_conj(ra((i,))), rb((j,)))
                        p = cplx(p)
                        return CV(sum_((i, j), g, p.re), sum_((i, j), g, p.im))
                    return ex.fn_array(a.shape, "C", out)
        raise Unsupported("inverse fft of something that is not conj(A)*B")
    return f


def make(ex):
    ex.masks, ex.contig, ex.extrema, ex.extaxioms, ex.partviews, ex.dftread = {}, {}, {}, {}, ex.partviews, {}
    ex.assume_finite = True
    ex.jit_depth = 0
    ex.config = {"fftlib": "numpy", "rfft2lib": "numpy", "verbose": 0, "showlib": "matplotlib", "cv2": 0}
    ex.not_overridden = set()
    ex.module_overridden = lambda m: m not in ex.not_overridden
    ex.facts = []

    def fact(c):
        if not (c.fv and any("!" in v.args[0] and False for v in c.fv)):
            if c not in ex.axioms:
                if c.fv:
                    ex.assume_fact(c)
                else:
                    ex.add_axiom(c)
    ex.fact = fact
    ex.assume_fact = lambda c: (ex.pc.append(c) if c not in ex.pc else None)
    A = {}
    np = Opaque("numpy", A)
    A["pi"], A["nan"], A["inf"], A["newaxis"] = PI, NAN, INF, None
    A["e"] = app("e", (), "R")
    bi = lambda n, f: A.__setitem__(n, Builtin("np." + n, f))
    bi("asarray", lambda v, dtype=None, **k: np_asarray(ex, v, dtype))
    bi("ascontiguousarray", lambda v, dtype=None: np_asarray(ex, v, dtype))
    bi("asanyarray", lambda v, dtype=None: np_asarray(ex, v, dtype))
    bi("array", lambda v, dtype=None, **k: (np_copy(ex, np_asarray(ex, v, dtype)) if isinstance(v, Arr) else np_array(ex, v, dtype)))
    bi("moveaxis", lambda a, source, destination: moveaxis(ex, a, source, destination))
    bi("swapaxes", lambda a, x, y: swapaxes(ex, a, x, y))
    bi("transpose", lambda a, axes=None: transpose(ex, a, list(axes) if axes is not None else list(range(a.ndim))[::-1]))
    bi("zeros", lambda shape, dtype=None, **k: np_new(ex, shape, dtype, 0))
    bi("ones", lambda shape, dtype=None, **k: np_new(ex, shape, dtype, 1))
    bi("empty", lambda shape, dtype=None, **k: np_new(ex, shape, dtype, None))
    bi("full", lambda shape, fill_value, dtype=None, **k: np_new(ex, shape, dtype if dtype is not None else DT[dtype_of(fill_value)], fill_value))
    like = lambda a, dtype, fill: np_new(ex, a.shape, dtype if dtype is not None else DT[a.dtype], fill)
    bi("zeros_like", lambda a, dtype=None: like(np_asarray(ex, a), dtype, 0))
    bi("ones_like", lambda a, dtype=None: like(np_asarray(ex, a), dtype, 1))
    bi("empty_like", lambda a, dtype=None: like(np_asarray(ex, a), dtype, None))
    bi("copy", lambda a: np_copy(ex, a))

    def arange(a, b=None, c=None, dtype=None):
        if b is None:
            a, b = 0, a
        step = 1 if c is None else c
        if isinstance(b, Arr):
            b = ex.read(b, ())
        if isinstance(a, Arr):
            a = ex.read(a, ())
        st = num(step)
        if isconst(st) and st.sort == "I" and num(a).sort == "I" and num(b).sort == "I":
            n = sub(num(b), num(a))
            k = cval(st)
            if k != 1:
                if k <= 0:
                    raise Unsupported("arange step")
                n = floordiv(add(n, const(k - 1, "I")), const(k, "I"))
            d = ex.decide(ge(n, I0))
            if d is not True:
                n = emax(n, I0)
            return ex.fn_array((simp(n),), "I", lambda idx: add(num(a), scale(idx[0], k)))
        # real arange: length = ceil((b-a)/step)
        n = to_int(apply1(ex, "ceil", div(sub(toreal(num(b)), toreal(num(a))), st)))
        d = ex.decide(ge(n, I0))
        if d is not True:
            n = emax(n, I0)
        return ex.fn_array((simp(n),), "F", lambda idx: add(toreal(num(a)), mul(toreal(idx[0]), toreal(st))))
    bi("arange", arange)
    for n in ("sin", "cos", "exp", "log", "sqrt", "floor", "ceil", "abs", "absolute", "conj", "conjugate", "isnan", "real", "imag",
              "log2", "log10", "square", "negative", "tan", "arctan", "rint", "isfinite", "angle"):
        bi(n, ufunc1(ex, n))
    A["real"] = Builtin("np.real", lambda v: ex.getattr(np_asarray(ex, v) if isinstance(v, (list, tuple)) else v, "real"))
    A["imag"] = Builtin("np.imag", lambda v: ex.getattr(np_asarray(ex, v) if isinstance(v, (list, tuple)) else v, "imag"))
    for n in ("add", "subtract", "multiply", "divide", "true_divide", "minimum", "maximum", "arctan2", "logical_and", "logical_or", "mod", "remainder",
              "floor_divide", "power", "equal"):
        bi(n, ufunc2(ex, n))
    bi("logical_not", lambda a, **k: elementwise(ex, lambda x: not_(to_bool(x)), [a], "B") if isinstance(a, Arr) else simp(not_(to_bool(num(a)))))
    for n in ("sum", "mean", "var", "nanmean", "nansum"):
        bi(n, reduction(ex, n))
    bi("any", lambda a, **k: _anyall(ex, a, False))
    bi("all", lambda a, **k: _anyall(ex, a, True))
    bi("min", lambda a, axis=None: extremum(ex, np_asarray(ex, a), "min", axis))
    bi("max", lambda a, axis=None: extremum(ex, np_asarray(ex, a), "max", axis))
    A["amin"], A["amax"] = A["min"], A["max"]
    bi("expand_dims", lambda a, axis: _expand_dims(ex, np_asarray(ex, a), axis))
    bi("broadcast_to", lambda a, shape: elementwise(ex, lambda x, y: x, [a, np_new(ex, shape, None, 0)], dtype_of(a)))
    bi("iscomplexobj", lambda a: dtype_of(a) == "C" if (isinstance(a, Arr) or is_num(a)) else False)
    bi("isrealobj", lambda a: not dtype_of(a) == "C")
    bi("isscalar", lambda a: is_num(a))
    bi("ndim", lambda a: a.ndim if isinstance(a, Arr) else 0)
    bi("shape", lambda a: tuple(a.shape) if isinstance(a, Arr) else ())
    def count_nonzero(a, axis=None):
        a = np_asarray(ex, a)
        if axis is not None:
            raise Unsupported("count_nonzero along an axis")
        if a.dtype != "B":
            a = elementwise(ex, lambda v: cast_val(v, "B"), [a], "B")
        return mask_info(ex, a)[0]
    bi("count_nonzero", count_nonzero)
    bi("reshape", lambda a, s: reshape(ex, np_asarray(ex, a), s if isinstance(s, (list, tuple)) else (s,)))
    bi("concatenate", lambda xs, axis=0: concatenate(ex, xs, axis))
    bi("stack", lambda xs, axis=0: np_array(ex, list(xs)) if simp(num(axis)) == 0 else _unsup("stack"))
    bi("where", lambda c, a=None, b=None: _where(ex, c, a, b))
    bi("take", lambda a, i, axis=None: _unsup("take"))
    bi("cumsum", lambda *a, **k: _unsup("cumsum"))
    bi("errstate", lambda **k: None)
    bi("meshgrid", lambda *xs, **k: meshgrid(ex, xs, k))
    bi("ndarray", lambda *a, **k: _unsup("ndarray"))
    bi("dtype", lambda n: n if isinstance(n, DType) else DType(dt_name(ex, n), n if isinstance(n, str) else None))
    bi("vdot", lambda *a: _unsup("vdot"))
    bi("round", lambda a, decimals=0: ufunc1(ex, "rint")(a))
    bi("around", lambda a, decimals=0: ufunc1(ex, "rint")(a))
    bi("issubdtype", lambda a, b: _unsup("issubdtype"))
    bi("linspace", lambda *a, **k: _unsup("linspace"))
    bi("append", lambda *a, **k: _unsup("append"))
    bi("sort", lambda *a, **k: _unsup("sort"))
    for nm, t in (("float64", "F"), ("float32", "F"), ("complex128", "C"), ("int64", "I"), ("int32", "I"), ("uint16", "I"), ("uint8", "I"), ("bool_", "B"), ("complex64", "C"), ("uint64", "I")):
        bi(nm, (lambda t: lambda v=0: cast_val(v, t))(t))
        A[nm].name = "type:" + t
    fa = {}
    A["fft"] = Opaque("np.fft", fa)

    def open_memmap(filename, mode="r+", dtype=None, shape=None, **k):
        if k or mode != "w+":
            raise Unsupported("open_memmap mode %r" % (mode,))
        a = np_new(ex, shape, dtype, 0)
        ex.files.append((filename, a))
        return a
    A["lib"] = Opaque("np.lib", {"format": Opaque("np.lib.format", {"open_memmap": Builtin("open_memmap", open_memmap)})})
    fa["fft"] = Builtin("fft", model_fft(ex, False))
    fa["ifft"] = Builtin("ifft", model_fft(ex, True))
    from . import fft2model
    for nm in ("fft2", "ifft2", "rfft2"):
        fa[nm] = Builtin(nm, fft2model.model(ex, nm))

    def fftfreq(n, d=1.0):
        n = num(n)
        h = floordiv(sub(n, I1), const(2))
        return ex.fn_array((simp(n),), "F", lambda idx: div(toreal(ite(le(idx[0], h), idx[0], sub(idx[0], n))), toreal(n)))
    fa["fftfreq"] = Builtin("fftfreq", fftfreq)
    ra = {}
    A["random"] = Opaque("np.random", ra)
    ra["rand"] = Builtin("rand", lambda *s: _random(ex, s, R0, R1, "uniform"))
    ra["random"] = ra["rand"]
    ra["randn"] = Builtin("randn", lambda *s: _random(ex, s, None, None, "normal"))
    ra["standard_normal"] = Builtin("standard_normal", lambda size=(): _random(ex, shape_arg(ex, () if size is None else size), None, None, "normal"))
    ra["poisson"] = Builtin("poisson", lambda lam, size=None: poisson(ex, lam))
    ra["seed"] = Builtin("seed", lambda *s: None)

    def randint(lo, hi=None, size=None, **k):
        if hi is None:
            lo, hi = 0, lo
        if size is None:
            r = fresh("randint")
            ex.assume(and_(ge(r, num(lo)), lt(r, num(hi))))
            return r
        a = ex.sym_array(fresh("randint").args[0], shape_arg(ex, size), "I")
        qs = [fresh("q") for _ in a.shape]
        e = ex.read(a, qs)
        ex.add_axiom(forall(tuple(qs), and_(ge(e, num(lo)), lt(e, num(hi)))))
        return a
    ra["randint"] = Builtin("randint", randint)

    def normal(loc=0.0, scale=1.0, size=None):
        z = _random(ex, shape_arg(ex, () if size is None else size), None, None, "normal")
        return binop(ex, ast.Add(), loc, binop(ex, ast.Mult(), scale, z))
    ra["normal"] = Builtin("normal", normal)
    return np


def draw(ex, kind, sort):
    """a draw inside an element-wise kernel: one symbol per call, draw number and element"""
    cid, idx = ex.draw
    nm = "draw_%s_%d" % (cid, ex.ndraw)
    ex.ndraw += 1
    if (kind, nm, len(idx)) not in ex.draws:
        ex.draws.append((kind, nm, len(idx)))
    return app(nm, idx, sort) if idx else var(nm, sort)


def poisson(ex, a):
    if ex.draw is None:
        raise Unsupported("numpy.random.poisson")
    return eabs(draw(ex, "poisson", "I"))


def _random(ex, shape, lo, hi, kind=None):
    shape = [simp(num(s)) for s in shape]
    if not shape and lo is None and ex.draw is not None:
        return draw(ex, kind, "R")
    nm = fresh("rnd").args[0]
    ex.draws.append((kind, nm, tuple(shape)))
    if not shape:
        r = var(nm, "R")
        if lo is not None:
            ex.assume(and_(ge(r, lo), lt(r, hi)))
        return r
    a = ex.sym_array(nm, shape, "F")
    if lo is not None:
        qs = [fresh("q") for _ in shape]
        e = ex.read(a, qs)
        ex.add_axiom(forall(tuple(qs), and_(ge(e, lo), lt(e, hi))))
    return a


def _unsup(n):
    raise Unsupported("numpy." + n)


def _anyall(ex, a, isall):
    if isinstance(a, (list, tuple)):
        a = np_array(ex, a)
    if not isinstance(a, Arr):
        return simp(to_bool(num(a)))
    if a.ndim == 0:
        return simp(to_bool(ex.read(a, ())))
    if all(isinstance(simp(num(s)), int) for s in a.shape):
        import itertools
        vals = [to_bool(ex.read(a, [const(k) for k in ks])) for ks in itertools.product(*[range(simp(num(s))) for s in a.shape])]
        return simp(and_(*vals) if isall else or_(*vals))
    qs = [fresh("q") for _ in a.shape]
    inr = and_(*[and_(ge(q, I0), lt(q, num(s))) for q, s in zip(qs, a.shape)])
    v = to_bool(ex.read(a, qs))
    if isall:
        return forall(tuple(qs), implies(inr, v))
    return not_(forall(tuple(qs), implies(inr, not_(v))))


def _expand_dims(ex, a, axis):
    nd = a.ndim + 1
    ax = posaxis(ex, axis, nd)
    idx = [SliceVal(None, None, None)] * a.ndim
    idx.insert(ax, None)
    return view(ex, a, idx)


def _where(ex, c, a, b):
    if a is None:
        raise Unsupported("where with one argument")
    if not isinstance(c, Arr) and not isinstance(a, Arr) and not isinstance(b, Arr):
        return n_ite(to_bool(num(c)), num(a), num(b))
    return elementwise(ex, lambda x, y, z: n_ite(to_bool(x), y, z), [c, a, b], promote(dtype_of(a), dtype_of(b)))


def concatenate(ex, xs, axis=0):
    xs = [np_asarray(ex, x) for x in ex.concrete_items(xs)]
    nd = xs[0].ndim
    ax = posaxis(ex, axis, nd)
    dt = promote(*[x.dtype for x in xs])
    for x in xs[1:]:
        if x.ndim != nd:
            raise PyExc("ValueError", "concatenate dimensions")
        check_same_shape(ex, [s for k, s in enumerate(x.shape) if k != ax], [s for k, s in enumerate(xs[0].shape) if k != ax], "concatenate")
    offs = [I0]
    for x in xs:
        offs.append(add(offs[-1], num(x.shape[ax])))
    rds = [ex.reader(x) for x in xs]
    shape = list(xs[0].shape)
    shape[ax] = simp(offs[-1])

    def f(idx):
        r = None
        for k in range(len(xs) - 1, -1, -1):
            i2 = list(idx)
            i2[ax] = sub(idx[ax], offs[k])
            if r is None:
                r = cast_val(rds[k](i2), dt)
            else:
                c = lt(idx[ax], offs[k + 1])
                r = n_ite(c, cast_val(rds[k](i2), dt), r) if c.op != "const" or True else r
        return r
    return ex.fn_array(shape, dt, f)


def meshgrid(ex, xs, k):
    xs = [np_asarray(ex, x) for x in xs]
    ij = k.get("indexing", "xy") == "ij"
    if not ij and len(xs) == 2:
        order = [1, 0]
    else:
        order = list(range(len(xs)))
    shape = [None] * len(xs)
    for n, x in enumerate(xs):
        shape[order[n]] = x.shape[0]
    out = []
    for n, x in enumerate(xs):
        rd = ex.reader(x)
        out.append(ex.fn_array(shape, x.dtype, lambda idx, rd=rd, p=order[n]: rd((idx[p],))))
    return out


# ------------------------------------------------------------------ builtins

def make_builtins(ex):
    Bn = {}
    bi = lambda n, f: Bn.__setitem__(n, Builtin(n, f))

    def b_range(a, b=None, c=1):
        g = lambda x: ex.read(x, ()) if isinstance(x, Arr) and x.ndim == 0 else x
        a, b, c = g(a), g(b), g(c)
        if b is None:
            a, b = 0, a
        for x in (a, b, c):
            if isinstance(x, (Fraction, CV)) or x is None or (isinstance(x, E) and x.sort != "I"):
                raise PyExc("TypeError", "range() argument must be an integer")
        return RangeVal(simp(num(a)), simp(num(b)), simp(num(c)))
    bi("range", b_range)

    def b_len(x):
        if isinstance(x, Arr):
            if x.ndim == 0:
                raise PyExc("TypeError", "len() of unsized object")
            return simp(num(x.shape[0]))
        if isinstance(x, Iter):
            raise PyExc("TypeError", "object of type 'generator' has no len()")
        if isinstance(x, listmodel.SymSet):
            return x.members()[1]
        if isinstance(x, Filtered):
            raise Unsupported("length of a filtered sequence")
        if isinstance(x, Stream):
            return simp(num(x.length))
        if isinstance(x, (list, tuple, dict, str, set)):
            return len(x)
        if isinstance(x, RangeVal):
            return simp(emax(sub(num(x.hi), num(x.lo)), I0))
        if isinstance(x, Opaque) and "__len__" in x.attrs:
            return x.attrs["__len__"]()
        raise PyExc("TypeError", "object has no len()")
    bi("len", b_len)

    def b_abs(x):
        if isinstance(x, (int, Fraction)):
            return abs(x)
        return ufunc1(ex, "abs")(x)
    bi("abs", b_abs)

    def b_min(*a, **k):
        if ex.nan_aware:
            raise Unsupported("min of values that may be NaN")
        return _minmax(ex, a, True, k)

    def b_max(*a, **k):
        if ex.nan_aware:
            raise Unsupported("max of values that may be NaN")
        return _minmax(ex, a, False, k)
    bi("min", b_min)
    bi("max", b_max)

    def b_int(x=0, *a):
        if isinstance(x, Arr):
            x = ex.read(x, (I0,) * x.ndim)
        if x is None or isinstance(x, (list, tuple, dict)):
            raise PyExc("TypeError", "int() argument must be a number")
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyExc("ValueError", "int()")
        if isinstance(x, (int, Fraction)):
            return int(x)
        v = num(x)
        r = simp(to_int(toreal(v)) if v.sort == "R" else b2i(v))
        if isinstance(r, E) and r.op == "app" and v.sort == "R":
            t = toreal(r)
            ex.fact(and_(implies(ge(v, R0), and_(le(t, v), lt(v, add(t, R1)))), implies(le(v, R0), and_(ge(t, v), gt(add(v, R1), t)))))
        return r
    bi("int", b_int)

    def b_float(x=0, *a):
        if x is None or isinstance(x, (list, tuple, dict)):
            raise PyExc("TypeError", "float() argument")
        if isinstance(x, str):
            return num(float(x))
        if isinstance(x, Arr):
            x = ex.read(x, (I0,) * x.ndim)
        if isinstance(x, (int, Fraction)):
            return Fraction(x)
        if isinstance(x, CV):
            raise PyExc("TypeError", "float of complex")
        return toreal(num(x))
    bi("float", b_float)
    bi("complex", lambda a=0, b=0: CV(toreal(num(a)), toreal(num(b))))

    def b_bool(x=False):
        v = to_bool_or_py(x) if isinstance(x, E) else x
        if isinstance(v, E):
            return v
        return ex.truth(v)
    bi("bool", b_bool)
    bi("tuple", lambda x=(): x if isinstance(x, Stream) else tuple(_items(ex, x)))
    def b_list(x=()):
        if isinstance(x, listmodel.SymList) or symbolic_vector(ex, x):
            return listmodel.make_list(ex, x)
        return x if isinstance(x, Stream) else list(_items(ex, x))
    bi("list", b_list)

    def b_set(x=()):
        if isinstance(x, Stream) and not isinstance(x, Filtered) and ex.concrete_items(x) is None or symbolic_vector(ex, x):
            return listmodel.make_set(ex, x)
        return x if isinstance(x, listmodel.SymSet) else set(_items(ex, x))
    bi("set", b_set)
    bi("dict", lambda *a, **k: dict(*a, **k))
    bi("enumerate", lambda x, start=0: EnumVal(x, start))
    bi("zip", lambda *x: ZipVal(list(x)))
    bi("reversed", lambda x: listmodel.make_reversed(ex, x) if isinstance(x, listmodel.SymList) else list(reversed(_items(ex, x))))
    bi("print", lambda *a, **k: None)
    def b_str(x=""):
        x = simp(x) if isinstance(x, E) else x
        return x if isinstance(x, str) else (str(x) if isinstance(x, int) else UStr("<str>"))
    bi("str", b_str)
    bi("repr", lambda *a: UStr("<str>"))
    bi("id", lambda *a: 0)

    def b_round(x, nd=None):
        if nd is not None:
            raise Unsupported("round digits")
        x = num(x)
        if isconst(x):
            return int(round(cval(x)))
        if x.sort == "I":
            return x
        return to_int(apply1(ex, "rint", x))
    bi("round", b_round)

    def b_sum(x, start=0):
        r = start
        for y in _items(ex, x):
            r = ex.binop(ast.Add(), r, y)
        return r
    bi("sum", b_sum)
    bi("any", lambda x: _pyany(ex, x, False))
    bi("all", lambda x: _pyany(ex, x, True))

    def b_isinstance(x, t):
        ts = t if isinstance(t, tuple) else (t,)
        for y in ts:
            n = y.name if isinstance(y, (Builtin, Opaque)) else ""
            n = n.replace("np.", "").replace("numpy.", "")
            if n == "ndarray" and isinstance(x, Arr):
                return True
            if n == "int" and isinstance(x, (int,)) or n == "int" and isinstance(x, E) and x.sort in "IB":
                return True
            if n == "float" and (isinstance(x, Fraction) or isinstance(x, E) and x.sort == "R"):
                return True
            if n == "complex" and isinstance(x, CV):
                return True
            if n == "bool" and (isinstance(x, bool) or isinstance(x, E) and x.sort == "B"):
                return True
            if n == "str" and isinstance(x, str):
                return True
            if n == "slice" and isinstance(x, SliceVal):
                return True
            if n == "tuple" and isinstance(x, tuple) or n == "list" and isinstance(x, list) or n == "dict" and isinstance(x, dict):
                return True
        return False
    bi("isinstance", b_isinstance)
    bi("hasattr", lambda x, n: _hasattr(ex, x, n))
    bi("getattr", lambda x, n, *d: _getattr_default(ex, x, n, d))
    bi("callable", lambda x: isinstance(x, (FuncVal, Builtin)))
    def b_iter(x, *sentinel):
        if sentinel:
            return CallIter(x, sentinel[0])
        return Iter(x) if isinstance(x, Stream) else x
    bi("iter", b_iter)

    def b_next(x, *d):
        if not isinstance(x, Iter):
            raise Unsupported("next of %r" % (x,))
        if not ex.branch(lt(x.pos, num(x.stream.length))):
            if d:
                return d[0]
            raise PyExc("StopIteration", "")
        i = x.pos
        x.pos = simp(add(i, I1))
        x.pos = num(x.pos)
        return x.stream.elem(i)
    bi("next", b_next)
    bi("map", lambda f, x: [ex.call(f, [y], {}) for y in _items(ex, x)])
    bi("divmod", lambda a, b: (ex.binop(ast.FloorDiv(), a, b), ex.binop(ast.Mod(), a, b)))
    bi("pow", lambda a, b: ex.binop(ast.Pow(), a, b))
    def b_slice(*a):
        if not 1 <= len(a) <= 3:
            raise PyExc("TypeError", "slice expected 1 to 3 arguments")
        return SliceVal(None, a[0], None) if len(a) == 1 else SliceVal(*(list(a) + [None])[:3])
    bi("slice", b_slice)
    def b_sorted(x, reverse=False):
        if isinstance(x, listmodel.SymSet):
            return listmodel.make_sorted(ex, x, reverse)
        v = _items(ex, x)
        if any(isinstance(y, E) for y in v):
            _unsup("sorted")
        return sorted(v, reverse=bool(reverse))
    bi("sorted", b_sorted)
    Bn["NotImplemented"] = Opaque("NotImplemented")
    for n in ("ValueError", "TypeError", "IndexError", "KeyError", "Exception", "NotImplementedError", "RuntimeError", "AssertionError",
              "StopIteration", "ImportError", "DeprecationWarning", "ZeroDivisionError", "object", "AttributeError", "OSError", "BaseException"):
        Bn[n] = Opaque("exc:" + n)
    Bn["__name__"] = "module"
    return Bn


def _hasattr(ex, x, n):
    try:
        ex.getattr(x, n)
        return True
    except PyExc:
        return False


def _getattr_default(ex, x, n, d):
    try:
        return ex.getattr(x, n)
    except PyExc:
        if d:
            return d[0]
        raise


def symbolic_vector(ex, x):
    return isinstance(x, Arr) and x.ndim == 1 and not isinstance(simp(num(x.shape[0])), int)


def _items(ex, x):
    r = ex.concrete_items(x)
    if r is None:
        raise Unsupported("materialising a symbolic sequence")
    return r


def _pyany(ex, x, isall):
    for y in _items(ex, x):
        t = ex.truth(y)
        if isall and not t:
            return False
        if not isall and t:
            return True
    return isall


def _minmax(ex, a, ismin, k):
    if len(a) == 1:
        if isinstance(a[0], Arr):
            return extremum(ex, a[0], "min" if ismin else "max")
        a = _items(ex, a[0])
    if k:
        raise Unsupported("min key")
    r = a[0]
    for y in a[1:]:
        if isinstance(r, (int, Fraction)) and isinstance(y, (int, Fraction)):
            r = min(r, y) if ismin else max(r, y)
            continue
        r0, y0 = num(r), num(y)
        c = le(r0, y0) if ismin else ge(r0, y0)
        d = ex.decide(c)
        if d is None and r0.sort == "I" and y0.sort == "I" and not any("!" in v.args[0] for v in r0.fv | y0.fv):
            r = _opaque_minmax(ex, r0, y0, ismin)
        else:
            r = r0 if d is True else (y0 if d is False else ite(c, *coerce(r0, y0)))
    return simp(r) if isinstance(r, E) else r


def _opaque_minmax(ex, a, b, ismin):
    """min/max of two integers as a constant characterised by axioms (keeps case distinctions
    out of the guards of sums)"""
    key = ("minmax", ismin, a, b)
    r = ex.extrema.get(key)
    if r is None:
        r = ex.extrema[key] = app("%s2_%d" % ("min" if ismin else "max", len(ex.extrema)), (), "I")
    ex.add_axiom(and_(le(r, a), le(r, b)) if ismin else and_(ge(r, a), ge(r, b)))
    ex.add_axiom(or_(eq(r, a), eq(r, b)))
    return r


# ------------------------------------------------------------------ numba ufuncs

def call_object(ex, f, args, kw):
    if isinstance(f, Opaque):
        if "__call__" in f.attrs:
            return f.attrs["__call__"](*args, **kw)
        if f.name.startswith("exc:"):
            return f
    raise Unsupported("call of %r" % (f,))


def call_gufunc(ex, f, args, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if kw:
        raise Unsupported("gufunc keyword %s" % list(kw))
    names = [a.arg for a in f.node.args.args]
    if f.kind == "vectorize":
        nin = len(names)
        args = list(args)
        if len(args) > nin:
            out = args[nin]
            args = args[:nin]
        if len(args) != nin:
            raise PyExc("TypeError", "wrong number of arguments")
        args = [np_array(ex, a) if isinstance(a, (list, tuple)) else a for a in args]
        for a in args:
            if a is None:
                raise PyExc("TypeError", "ufunc argument is None")
        sig = pick_sig(f.info, [dtype_of(a) for a in args], out.dtype if isinstance(out, Arr) else None)
        if sig is None:
            raise PyExc("TypeError", "no matching loop for %s" % f.name)
        tys, rt = sig
        rdt = rt[0] if rt else "F"

        ex.ncalls += 1
        cid = "%s_%d" % (f.name, ex.ncalls)

        def el(*vals):
            vals = [cast_val(v, t[0]) for v, t in zip(vals, tys)]
            old, ex.draw = ex.draw, (cid, ex.elem)
            try:
                return cast_val(scalar_call(ex, f, vals), rdt)
            finally:
                ex.draw = old
        if not any(isinstance(a, Arr) for a in args) and out is None:
            r = el(*[num(a) for a in args])
            return simp(r) if isinstance(r, E) else r
        return elementwise(ex, el, args, rdt, out)
    sigs, (lin_, lout), forceobj = f.info
    nin, nout = len(lin_), len(lout)
    args = list(args)
    for k in range(nin):
        if k < len(args) and isinstance(args[k], (list, tuple)):
            args[k] = np_array(ex, args[k])
        elif k < len(args) and is_num(args[k]):
            args[k] = np_array(ex, args[k])
        elif k < len(args) and not isinstance(args[k], Arr):
            raise PyExc("TypeError", "gufunc argument")
    outs = list(args[nin:])
    if out is not None:
        outs = [out] if not isinstance(out, tuple) else list(out)
    args = args[:nin]
    if len(args) < nin:
        raise PyExc("TypeError", "gufunc takes %d arguments" % nin)
    outs = outs + [None] * (nout - len(outs))
    if any(isinstance(o, Arr) and o.store in ex.partviews for o in outs):
        # through temporaries, as numpy's buffers
        tmp = [np_copy(ex, o) if isinstance(o, Arr) and o.store in ex.partviews else o for o in outs]
        r = call_gufunc(ex, f, args + tmp, {})
        for o, t in zip(outs, tmp):
            if o is not t:
                assign_view(ex, o, t)
        back = {t.store: o for o, t in zip(outs, tmp) if isinstance(t, Arr)}
        fix = lambda v: back.get(v.store, v) if isinstance(v, Arr) else v
        return tuple(fix(v) for v in r) if isinstance(r, tuple) else fix(r)
    # core dimensions
    dims = {}
    loops = []
    for a, l in list(zip(args, lin_)) + [(o, l) for o, l in zip(outs, lout) if o is not None]:
        if a.ndim < len(l):
            raise PyExc("ValueError", "%s: argument does not have enough dimensions" % f.name)
        core = a.shape[a.ndim - len(l):]
        for d, s in zip(l, core):
            if d in dims:
                r = same_dim(ex, dims[d], s)
                if r is not True:
                    if r is False or not ex.branch(eq(num(dims[d]), num(s))):
                        raise PyExc("ValueError", "%s: mismatch in core dimension %s" % (f.name, d))
            else:
                dims[d] = s
        loops.append(a.shape[:a.ndim - len(l)])
    lshape = broadcast_shapes(ex, loops) if loops else ()
    # an output may not be broadcast
    sig = pick_gsig(sigs, [a.dtype for a in args], [o.dtype if o is not None else None for o in outs])
    if sig is None:
        raise PyExc("TypeError", "%s: no matching loop" % f.name)
    tys = sig[0]
    for k in range(nout):
        if outs[k] is None:
            dt = tys[nin + k][0]
            sh = list(lshape) + [dims[d] for d in lout[k]]
            outs[k] = np_new(ex, sh, DT[dt], None)
    for k in range(nout):
        osh = outs[k].shape[:outs[k].ndim - len(lout[k])]
        if len(osh) != len(lshape):
            raise PyExc("ValueError", "%s: non-broadcastable output" % f.name)
        check_same_shape(ex, osh, lshape, "gufunc output")
    cargs = []
    kcon = ex.registry.contracts.get("%s.%s" % (f.module.name, f.name)) if ex.registry is not None else None
    for k, a in enumerate(args):
        # numpy copies an argument that overlaps an output
        if any(a.store == o.store and k not in (kcon.alias.get(nin + j, ()) if kcon else ()) for j, o in enumerate(outs)):
            args[k] = np_copy(ex, a)
    for a, t in zip(args, tys):
        if a.dtype != t[0]:
            a = elementwise(ex, lambda x, t=t: cast_val(x, t[0]), [a], t[0])
        cargs.append(a)
    ranges = [(I0, num(s)) for s in lshape]

    def body(vs):
        core = []
        for a, l in list(zip(cargs, lin_)) + list(zip(outs, lout)):
            lead = a.shape[:a.ndim - len(l)]
            ix = bidx(lead, tuple(vs))
            v = view_at(a, ix)
            if a is not None and len(l) == 0 and forceobj:
                core.append(ex.read(v, ()))
                continue
            if len(l) == 0:
                # numba passes a one-element array
                m = list(v.maps)
                core.append(Arr(v.store, (1,), v.dtype, m))
                continue
            core.append(v)
        kc = ex.kcontract(f, core)
        if kc is not None:
            kc(core)
            return
        ex.jit_depth += 0 if forceobj else 1
        try:
            ex.run_body(f, core, {})
        finally:
            ex.jit_depth -= 0 if forceobj else 1
    if ranges:
        ex.summarise(ranges, body, None, set(), "gufunc loop of " + f.name)
    else:
        body([])
    return outs[0] if nout == 1 else tuple(outs)


def view_at(a, ix):
    """fix the leading axes of a at ix"""
    n = len(ix)
    maps = []
    for m in a.maps:
        if m[0] == "fix":
            maps.append(m)
        elif m[1] < n:
            maps.append(("fix", add(m[2], scale(ix[m[1]], m[3]))))
        else:
            maps.append(("ax", m[1] - n, m[2], m[3]))
    return Arr(a.store, a.shape[n:], a.dtype, maps)


def pick_sig(sigs, ins, out):
    for s in sigs:
        tys, rt = s
        if len(tys) != len(ins):
            continue
        if all(ORD.index(a) <= ORD.index(t[0]) for a, t in zip(ins, tys)):
            if out is None or rt is None or ORD.index(rt[0]) <= ORD.index(out):
                return s
    return None


def pick_gsig(sigs, ins, outs):
    for s in sigs:
        tys, rt = s
        if all(ORD.index(a) <= ORD.index(t[0]) for a, t in zip(ins, tys)):
            if all(o is None or ORD.index(t[0]) <= ORD.index(o) for o, t in zip(outs, tys[len(ins):])):
                return s
    return None


def scalar_call(ex, f, vals):
    """run a scalar kernel and merge its paths into one expression"""
    def run():
        ex.ndraw = 0
        return "ok", ex.run_body(f, vals, {})
    paths = ex.explore(run)
    r = None
    n = len(ex.pc)
    for p in reversed(paths):
        c = and_(*p["newpc"])
        v = num(p["val"])
        r = v if r is None else n_ite(c, v, r)
    if r is None:
        raise Infeasible()
    return r
