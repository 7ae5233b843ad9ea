"""queue.Queue and threading.Thread (assumed contracts of the standard library).

A queue hands its values on in the order they were put, each once; put and get may wait. A process that
only puts and one that only gets, with no other state in common, then have one outcome under every
schedule (Kahn); the model runs the thread when it is started and the getter after it. What the schedule
could decide (empty, full, get_nowait, time-outs, join, a put by the getter) is not modelled: unsupported."""
from .expr import *
from .sym import *
from .sym import Builtin, Opaque


class Fifo(Opaque):
    """items: (number, index -> value) in order; pos: values taken so far"""
    def __init__(self, ex):
        self.ex, self.items, self.pos, self.started = ex, [], I0, False
        self.log = None
        Opaque.__init__(self, "queue", {"put": Builtin("put", self.put), "get": Builtin("get", self.get),
                                        "task_done": Builtin("task_done", lambda: None)})
        ex.queues.append(self)

    def __deepcopy__(self, memo):
        return self

    def put(self, v):
        if not self.ex.in_thread:
            raise Unsupported("a put outside the thread")
        if self.log is not None:
            self.log.append((self, v))
        else:
            self.items.append((I1, lambda i, v=v: v))

    def get(self):
        if self.ex.in_thread:
            raise Unsupported("a get inside the thread")
        n = self.pos
        self.pos = num(simp(add(n, I1)))
        return self.value(n)

    def total(self):
        r = I0
        for n, f in self.items:
            r = add(r, n)
        return r

    def value(self, k):
        off = I0
        for n, f in self.items:
            if self.ex.branch(lt(k, add(off, n))):
                return f(sub(k, off))
            off = add(off, n)
        raise PyExc("Deadlock", "waits for a value that never comes")


def thread(ex):
    def make(group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        def start():
            if ex.in_thread:
                raise Unsupported("a thread started by a thread")
            old, ex.in_thread = ex.in_thread, True
            hook, ex.loop_hook = ex.loop_hook, puts
            try:
                ex.call(target, list(args), dict(kwargs or {}))
            finally:
                ex.in_thread, ex.loop_hook = old, hook
        return Opaque("thread", {"start": Builtin("start", start), "daemon": daemon})
    return make


def puts(ex, kind, st, fr, *rest):
    """a loop of the thread: every iteration puts one value that depends on its index only"""
    if kind not in ("for",):
        return NotImplemented
    lo, hi, body = rest
    names = set(n.id for b in st.body + [st.target] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)))
    if any(isinstance(n, (ast.Break, ast.Return)) for b in st.body for n in ast.walk(b)):
        raise Unsupported("a loop of the thread that ends early")

    def one(i):
        keep = dict(fr.env)
        for n in names:
            fr.env[n] = Carried(n)
        log = []
        for q in ex.queues:
            q.log = log
        heap = {s: c for s, c in ex.heap.items()}
        try:
            body(i, fr)
        finally:
            for q in ex.queues:
                q.log = None
            fr.env.clear()
            fr.env.update(keep)
        if any(ex.heap.get(s) is not c for s, c in heap.items()):
            raise Unsupported("a loop of the thread that changes arrays")
        if len(log) != 1:
            raise Unsupported("a loop of the thread that does not put one value per iteration")
        return log[0]
    i = fresh("i")
    k = len(ex.pc)
    if ex.branch(lt(lo, hi)):
        ex.assume(and_(ge(i, lo), lt(i, hi)))
        q = one(i)[0]

        def value(j):
            old, ex.in_thread = ex.in_thread, True
            try:
                r = one(add(lo, j))
            finally:
                ex.in_thread = old
            if r[0] is not q:
                raise Unsupported("puts to different queues")
            return r[1]
        q.items.append((sub(hi, lo), value))
    for n in names:
        fr.env[n] = Carried(n)
    return True
