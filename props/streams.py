"""Symbolic videos: streams of any number of frame tuples."""
from props.common import *
from pyvc.sym import Arr, Fn, Stream, GenLoop


class Video(object):
    """N tuples of cams frames; frame i of camera c is an arbitrary array of a fixed shape"""
    def __init__(self, S, name, cams, dtype, N=None, shapes=None, same=False, lo=0, rank=2):
        self.S, self.name, self.cams, self.dtype = S, name, cams, dtype
        self.N = S.dims("N", lo=0) if N is None else N
        if shapes is None:
            shapes = []
            for c in range(cams):
                t = "" if same else str(c)
                shapes.append(tuple(S.dims(s + t, lo=lo) for s in "HWDE"[:rank]))
        self.shapes = shapes
        self.made = {}
        self.stream = Stream(self.N, self.elem)

    def frame(self, c, i):
        a = self.made.get((c, i))
        if a is None or a.store not in self.S.ex.heap:
            rd = sym_reader("%s%d" % (self.name, c), self.dtype)
            a = self.S.ex.alloc(self.shapes[c], self.dtype, Fn(lambda idx: rd((i,) + tuple(idx))))
            self.made[c, i] = a
            self.made[c, i, "content"] = self.S.ex.heap[a.store]
        return a

    def elem(self, i):
        return tuple(self.frame(c, i) for c in range(self.cams))

    def at(self, c, i, p):
        return sym_reader("%s%d" % (self.name, c), self.dtype)((i,) + tuple(p))

    def unchanged(self):
        for k, a in list(self.made.items()):
            if len(k) == 2 and a.store in self.S.ex.heap:
                self.S.prove("the input frames are not modified", self.S.ex.heap[a.store] is self.made[k + ("content",)])


def each(S, r, N, cams):
    """the result has N values; returns [(position, frames)] for an arbitrary position"""
    if isinstance(r, list) and r == []:
        S.prove("one output per input", eq(N, I0))
        return []
    if isinstance(r, list) and len(r) == 1 and isinstance(r[0], GenLoop):
        g = r[0]
        S.prove("one output per input", eq(sub(g.hi, g.lo), N))
        S.prove("one output per input", len(g.values) == 1 and not g.ended)
        S.prove("no state is kept from frame to frame", not [s for s in g.changed])
        i, v = sub(g.i, g.lo), g.values[0]
    elif isinstance(r, Stream):
        S.prove("one output per input", eq(num(r.length), N))
        i = fresh("it")
        S.assume(and_(ge(i, I0), lt(i, N)))
        v = r.elem(i)
    else:
        S.prove("one output per input", False)
        return []
    ok = isinstance(v, tuple) and len(v) == cams and all(isinstance(x, Arr) for x in v)
    S.prove("a tuple of one frame per camera", ok)
    return [(i, v)] if ok else []
