"""V02: loading and queueing a video preserves every frame."""
from props.common import *
from props.streams import *
import ast
from pyvc.sym import Iter, Arr, Fn, Stream, Filtered, Opaque, Builtin, Carried, Infeasible, Unsupported, simp, _Brk, _Cnt

V = "cddm.video."
REG = {}


def frames(S, x, out, where, N=None):
    """out: one array per camera that holds frame i of the video in row i"""
    S.prove("one array per camera", isinstance(out, tuple) and len(out) == x.cams and all(isinstance(a, Arr) for a in out))
    for c, a in enumerate(out):
        S.prove_shape("one row per frame", a, (x.N,) + x.shapes[c])
        S.prove("the type of the frames", a.dtype == x.dtype)
        p = S.index((x.N,) + x.shapes[c], "p")
        S.prove_eq("frame %s, element by element" % where, S.ex.read(a, p), x.at(c, p[0], p[1:]))
    x.unchanged()


def given(S, x, how, k):
    """the video as a list (with a length) or as a generator, with or without the count"""
    if how != "list":
        k["count"] = x.N
    return x.stream if how == "list" or how == "list count" else Iter(x.stream)


def arrays(fn, cams, dt, how, rank=2):
    def body(S):
        x = Video(S, "x", cams, dt, rank=rank)
        S.assume(gt(x.N, I0))
        k = {}
        v = given(S, x, how, k)
        if fn == "asarrays":
            out = S.call(V + fn, v, **k)
        else:
            del S.ex.files[:]
            out = S.call(V + fn, "base", v, **k)
            S.prove("the files base_0.npy, base_1.npy, ... hold the arrays of the cameras",
                    [f for f, a in S.ex.files] == ["base_%d.npy" % c for c in range(cams)]
                    and [a.store for f, a in S.ex.files] == [a.store for a in out])
        frames(S, x, out, "in its place")
    return body


def back(cams, dt):
    """arrays -> video"""
    def body(S):
        x = Video(S, "x", cams, dt)
        rest = [x.shapes[c] for c in range(cams)]
        A = [S.arr("a%d" % c, (x.N,) + rest[c], dt) for c in range(cams)]
        r = S.call(V + "fromarrays", tuple(A))
        S.prove("a stream of frames", isinstance(r, Stream))
        S.prove("one tuple per index", eq(num(r.length), x.N))
        i = S.index((x.N,), "i")[0]
        v = r.elem(i)
        S.prove("one frame per array", isinstance(v, tuple) and len(v) == cams and all(isinstance(f, Arr) for f in v))
        for c, f in enumerate(v):
            S.prove_shape("shape of the frame", f, rest[c])
            p = S.index(rest[c], "p")
            S.prove_eq("the frames of all arrays at this index", S.ex.read(f, p), sym_reader("a%d" % c, dt)((i,) + p))
            S.prove("the type of the array", f.dtype == dt)
    return body


def load(cams, dt, how):
    def body(S):
        x = Video(S, "x", cams, dt)
        S.assume(gt(x.N, I0))
        k = {}
        v = given(S, x, how, k)
        r = S.call(V + "load", v, **k)
        S.prove("a sequence with a length", isinstance(r, Stream) and not isinstance(r, Filtered))
        S.prove("as many frames as the video has", eq(num(r.length), x.N))
        i = S.index((x.N,), "i")[0]
        for _ in (1, 2):                  # it can be run through again
            v = r.elem(i)
            S.prove("one frame per camera", isinstance(v, tuple) and len(v) == cams and all(isinstance(f, Arr) for f in v))
            for c, f in enumerate(v):
                S.prove_shape("shape of the frame", f, x.shapes[c])
                p = S.index(x.shapes[c], "p")
                S.prove_eq("the frame in its place", S.ex.read(f, p), x.at(c, i, p))
                S.prove("the type of the frames", f.dtype == dt)
        x.unchanged()
    return body


def nocount(fn):
    def body(S):
        x = Video(S, "x", 1, "I")
        args = ("base",) if fn == "asmemmaps" else ()
        S.raises("the length is required", V + fn, *args, Iter(x.stream), only="ValueError")
    return body


class Getter(object):
    """Contract of the loop that takes the values of a queue, from any number of values taken so far:
    it hands on exactly the value it takes, or ends when that is the end mark"""
    def __init__(self, S, x):
        self.S, self.x, self.loops = S, x, 0
        S.ex.loop_hook = self

    def __call__(self, ex, kind, st, fr, *rest):
        S, x = self.S, self.x
        if kind != "enter":
            return NotImplemented
        if len(ex.queues) != 1 or fr.yields != [] or self.loops:
            raise Unsupported("one queue, one loop")
        q = ex.queues[0]
        self.loops += 1
        S.prove("nothing is taken before the loop", q.pos is I0)
        if not isinstance(st, ast.For):
            t = ex.eval(st.test, fr)
            if t is not True and simp(num(t)) not in (True, 1):
                raise Unsupported("a condition on the loop")
        names = set(n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
        k = fresh("taken")
        ex.assume(and_(ge(k, I0), le(k, x.N)))      # invariant: kept below, true at entry
        for n in names:
            fr.env[n] = Carried(n)
        q.pos = k
        ended = False
        try:
            if isinstance(st, ast.For):
                v = ex.call(rest[0].f, [], {})
                if v is rest[0].sentinel:
                    ended = True
                else:
                    ex.assign(st.target, v, fr)
            if not ended:
                ex.exec_block(st.body, fr)
        except _Cnt:
            pass
        except _Brk:
            ended = True
        got = list(fr.yields)
        if ended:
            S.prove("it ends when every frame was handed on", eq(k, x.N))
            S.prove("nothing is handed on at the end", got == [])
        else:
            S.prove("one value taken per iteration", eq(q.pos, add(k, I1)))
            S.prove("no value past the last", lt(k, x.N))
            S.prove("one value handed on", len(got) == 1)
            v = got[0] if got else None
            S.prove("a tuple of one frame per camera", isinstance(v, tuple) and len(v) == x.cams and all(isinstance(f, Arr) for f in v))
            for c, f in enumerate(v):
                S.prove_shape("shape of the frame", f, x.shapes[c])
                p = S.index(x.shapes[c], "p")
                S.prove_eq("the frame in its place", S.ex.read(f, p), x.at(c, k, p))
                S.prove("the type of the frames", f.dtype == x.dtype)
        self.done = True
        if ended:
            return True
        raise Infeasible()


def threaded(cams, dt, size, gen):
    def body(S):
        x = Video(S, "x", cams, dt)
        del S.ex.queues[:]
        hook = Getter(S, x)
        k = {}
        if size == "given":
            k["queue_size"] = var("queue_size")
        hook.done = False
        v = Iter(x.stream) if gen else x.stream
        r = S.call(V + "threaded", v, **k)
        S.prove("the frames come from a queue", hook.done)
        S.prove("nothing is handed on after the end", r == [])
    return body


CASES = []
for cams in (1, 2, 3):
    for how in ("list", "list count", "generator"):
        for dt in "IFC":
            CASES.append(("asarrays[%d %s %s]" % (cams, how, dt), arrays("asarrays", cams, dt, how)))
    for how in ("list", "list count", "generator"):
        CASES.append(("asmemmaps[%d %s]" % (cams, how), arrays("asmemmaps", cams, "I", how)))
        CASES.append(("load[%d %s]" % (cams, how), load(cams, "I", how)))
    CASES.append(("fromarrays[%d I]" % cams, back(cams, "I")))
    CASES.append(("fromarrays[%d C]" % cams, back(cams, "C")))
    for size in ("unlimited", "given"):
        for gen in (False, True):
            CASES.append(("threaded[%d %s%s]" % (cams, size, " generator" if gen else ""), threaded(cams, "I", size, gen)))
for fn in ("asarrays", "asmemmaps", "load"):
    CASES.append(("%s without a length" % fn, nocount(fn)))
EXTRA = []
