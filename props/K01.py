"""K01: configuration setters report the old value and set exactly the new one."""
from props.common import *
from pyvc.sym import Opaque, Builtin, PyExc

CONF = "cddm.conf."
PT = "cddm.print_tools."
FLAGS = ("MKL_FFT_INSTALLED", "SCIPY_INSTALLED", "PYFFTW_INSTALLED", "CV2_INSTALLED", "PYQTGRAPH_INSTALLED")


class World(object):
    """the configuration object, the installed libraries and the outside world, all arbitrary or recorded"""
    def __init__(self, S, installed=(), modules=(), **fields):
        ex = S.ex
        self.S = S
        f = {"rfft2lib": "?rfft2lib", "fftlib": "?fftlib", "showlib": "?showlib", "verbose": var("verbose"),
             "fft_threads": var("fft_threads"), "numba_threads": var("numba_threads")}
        f.update(fields)
        self.before = dict(f)
        ex.config = Opaque("CDDMConfig", dict(f, __mutable__=True, __strict__=True))
        ex.config.attrs["__getitem__"] = lambda k: ex.config.attrs[k]
        ex.conf_over = {"cddm.conf": {n: n in installed for n in FLAGS}}
        ex.missing = {"mkl", "pyfftw"} - set(modules)
        self.warned, self.set_to, self.printed = [], [], []
        rec = lambda w: Builtin("set_num_threads", lambda n: self.set_to.append((w, n)))
        ex.special_modules = dict(ex.special_modules)
        ex.special_modules["warnings"] = Opaque("warnings", {"warn": Builtin("warn", lambda *a, **k: self.warned.append(a))})
        ex.special_modules["mkl"] = Opaque("mkl", {"set_num_threads": rec("mkl")})
        ex.special_modules["pyfftw"] = Opaque("pyfftw", {"config": Opaque("config", {"__mutable__": True})})
        self.actual = var("actual_threads")
        ex.special_modules["numba"] = Opaque("numba", {"set_num_threads": rec("numba"),
                                                      "get_num_threads": Builtin("get_num_threads", lambda: self.last())})
        ex.not_overridden = set(["cddm.print_tools"])
        ex.builtins = dict(ex.builtins)
        ex.builtins["print"] = Builtin("print", lambda *a, **k: self.printed.append((a, k)))

    def last(self):
        return [n for w, n in self.set_to if w == "numba"][-1]

    def now(self, k):
        return self.S.ex.config.attrs[k]

    def same(self, name, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            self.S.prove(name, a == b and type(a) is type(b))
        else:
            self.S.prove(name, eq(num(a), num(b)))

    def others(self, *changed):
        keys = set(k for k in self.S.ex.config.attrs if not k.startswith("__"))
        self.S.prove("no other setting appears", keys == set(self.before))
        for k in self.before:
            if k not in changed:
                self.same("no other setting changes", self.now(k), self.before[k])


SHORT = {"mkl_fft": ("mkl_fft", "MKL_FFT_INSTALLED"), "scipy.fftpack": ("scipy", "SCIPY_INSTALLED"), "scipy": ("scipy", "SCIPY_INSTALLED"),
         "numpy.fft": ("numpy", None), "numpy": ("numpy", None), "pyfftw": ("pyfftw", "PYFFTW_INSTALLED")}
SHOW = {"matplotlib": ("matplotlib", None), "cv2": ("cv2", "CV2_INSTALLED"), "pyqtgraph": ("pyqtgraph", "PYQTGRAPH_INSTALLED")}


def library(fn, key, name, short, flag, present, old):
    def body(S):
        # every library but the requested one may be installed or not: both are tried
        W = World(S, installed=[f for f in FLAGS if (f == flag) == present], **{key: old})
        r = S.call(CONF + fn, *([] if name is None else [name]))
        W.same("returns the previous library", r, old)
        ok = flag is None or present
        W.same("the library is set in its short form" if ok else "configuration unchanged", W.now(key), short if ok else old)
        S.prove("warns exactly when unavailable", (len(W.warned) > 0) == (not ok))
        W.others(key)
        # the returned value restores the configuration
        W2 = World(S, installed=FLAGS, **{key: W.now(key)})
        S.call(CONF + fn, r)
        W.same("setting the returned value restores it", W2.now(key), old)
    return body


def unknown(fn, name):
    def body(S):
        W = World(S, installed=FLAGS)
        S.raises("unknown library rejected", CONF + fn, name, only="ValueError")
        W.others()
    return body


def verbose(kind):
    def body(S):
        W = World(S)
        v = var("level", "R") if kind == "real" else (var("level") if kind == "integer" else True)
        r = S.call(CONF + "set_verbose", v)
        W.same("returns the previous level", r, W.before["verbose"])
        new = W.now("verbose")
        if kind == "integer":
            S.prove("the level, no lower than zero", eq(num(new), emax(v, I0)))
        elif kind == "real":
            S.prove("the level, no lower than zero", and_(ge(num(new), I0), implies(ge(v, R0), and_(le(toreal(num(new)), v), lt(v, toreal(add(num(new), I1)))))))
            S.prove("the level, no lower than zero", implies(le(v, R0), eq(num(new), I0)))
        else:
            S.prove("the level, no lower than zero", eq(num(new), I1))
        W.others("verbose")
        S.assume(ge(var("verbose"), I0))
        S.call(CONF + "set_verbose", r)
        W.same("setting the returned value restores it", W.now("verbose"), W.before["verbose"])
    return body


def threads(fn, key, modules):
    def body(S):
        W = World(S, modules=modules)
        n = S.dims("n", lo=1)
        r = S.call(CONF + fn, n)
        W.same("returns the previous number", r, W.before[key])
        W.same("the new number is stored", W.now(key), n)
        for w, m in W.set_to:
            W.same("the library gets the same number", m, n)
        S.prove("the library gets the same number", [w for w, _ in W.set_to] == (["numba"] if key == "numba_threads" else [m for m in modules if m == "mkl"]))
        W.others(key)
        S.call(CONF + fn, r)
        W.same("setting the returned value restores it", W.now(key), W.before[key])
    return body


def printing(fn, level):
    def body(S):
        W = World(S)
        msg, end = var("message"), "!"
        v = W.before["verbose"]
        shown = ge(v, const(level))
        r = S.call(PT + fn, msg, end=end)
        if W.printed:
            S.prove("printed only at this level or above", shown)
            S.prove("the message as given", len(W.printed) == 1 and W.printed[0] == ((msg,), {"end": end}))
        else:
            S.prove("printed at this level or above", not_(shown))
        W.others()
    return body


def say(S, W):
    """every message function, number of messages shown"""
    n = len(W.printed)
    for f in ("print1", "print2"):
        S.call(PT + f, "x")
    S.call(PT + "print_progress", 3, 10)
    S.call(PT + "print_progress", 10, 10)
    S.call(PT + "print_frame_rate", 8, 1, 3)
    return len(W.printed) - n


def off_on(form, depth):
    def body(S):
        W = World(S)
        v = var("verbose")
        S.assume(ge(v, I0))
        rs = []
        for k in range(depth):
            r = S.call(PT + "disable_prints")
            W.same("returns the level before", r, v if k == 0 else rs_now)
            rs_now = W.now("verbose")
            rs.append(r)
            S.prove("nothing is printed in between", say(S, W) == 0)
        for k in range(depth):
            r = rs.pop()
            if form == "restore":
                S.call(PT + "enable_prints", r)
            elif form == "level":
                S.call(PT + "enable_prints", level=r)
            else:
                S.call(PT + "enable_prints")
            if k < depth - 1:
                S.prove("nothing is printed in between", say(S, W) == 0)
        W.same("the previous level is restored", W.now("verbose"), v)
        W.others()
    return body


def frame_rate(fn):
    def body(S):
        W = World(S)
        v = W.before["verbose"]
        if fn == "print_frame_rate":
            S.call(PT + fn, S.dims("n", lo=1), 1, 3)
            level = 2
        else:
            S.call(PT + fn, 3, 10)
            level = 1
        S.prove("printed exactly at this level or above", ge(v, const(level)) if W.printed else lt(v, const(level)))
        W.others()
    return body


CASES = []
for fn, key in (("set_fftlib", "fftlib"), ("set_rfft2lib", "rfft2lib")):
    for name, (short, flag) in SHORT.items():
        for present in ((True, False) if flag else (True,)):
            for old in ("numpy", "scipy", "mkl_fft", "pyfftw"):
                CASES.append(("%s[%s %s, was %s]" % (fn, name, "installed" if present else "missing", old), library(fn, key, name, short, flag, present, old)))
    CASES.append(("%s default" % fn, library(fn, key, None, "numpy", None, True, "scipy")))
    for name in ("", "fftw", "NUMPY", "cv2", "scipy.fft", "numpy.FFT"):
        CASES.append(("%s rejects[%r]" % (fn, name), unknown(fn, name)))
for name, (short, flag) in SHOW.items():
    for present in ((True, False) if flag else (True,)):
        for old in SHOW:
            CASES.append(("set_showlib[%s %s, was %s]" % (name, "installed" if present else "missing", old), library("set_showlib", "showlib", name, short, flag, present, old)))
for name in ("", "numpy", "Matplotlib", "pyqt"):
    CASES.append(("set_showlib rejects[%r]" % name, unknown("set_showlib", name)))
for kind in ("integer", "real", "boolean"):
    CASES.append(("set_verbose[%s]" % kind, verbose(kind)))
for mods in ((), ("mkl",), ("pyfftw",), ("mkl", "pyfftw")):
    CASES.append(("set_fft_threads[%s]" % " ".join(mods), threads("set_fft_threads", "fft_threads", mods)))
CASES.append(("set_numba_threads", threads("set_numba_threads", "numba_threads", ())))
for fn, level in (("print1", 1), ("print2", 2)):
    CASES.append((fn, printing(fn, level)))
for fn in ("print_progress", "print_frame_rate"):
    CASES.append((fn, frame_rate(fn)))
for form in ("restore", "level", "plain"):
    for depth in (1, 2, 3):
        if form != "plain" or depth == 1:
            CASES.append(("off and on[%s depth %d]" % (form, depth), off_on(form, depth)))
EXTRA = []
