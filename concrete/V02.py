from lib import *
import os
import shutil
import sys
import tempfile
import time
from cddm import video, conf

conf.set_verbose(0)
TYPES = ["uint8", "uint16", "int16", "int32", "int64", "float32", "float64", "complex64", "complex128", "bool", ">u2", ">f4"]


def source(rng, empty=False):
    cams = int(rng.integers(1, 4))
    N = int(rng.integers(0 if empty else 1, 9))
    kinds = [(str(rng.choice(TYPES)), tuple(int(v) for v in rng.integers(0, 6, int(rng.choice([2, 2, 2, 1, 3]))))) for _ in range(cams)]
    out = []
    for i in range(N):
        fs = []
        for t, sh in kinds:
            n = int(np.prod(sh))
            d = np.dtype(t)
            if d.kind in "iu":
                f = np.frombuffer(rng.bytes(n * d.itemsize), d).reshape(sh).copy()
            elif d.kind == "b":
                f = rng.random(sh) < 0.5
            else:
                f = rng.standard_normal(sh) * 10.0 ** rng.integers(-30, 30)
                if d.kind == "c":
                    f = f + 1j * rng.standard_normal(sh)
                f = f.astype(d)
                if n and rng.random() < 0.3:
                    f.ravel()[int(rng.integers(n))] = rng.choice([np.nan, np.inf, -np.inf, -0.0])
            if rng.random() < 0.2 and f.ndim == 2:
                f = np.asfortranarray(f)
            elif rng.random() < 0.2:
                f = np.repeat(f, 2, axis=0)[::2]
            fs.append(f)
        out.append(tuple(fs))
    return cams, N, kinds, out


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def compare(at, got, frames, cams):
    """got: sequence of tuples"""
    if len(got) != len(frames):
        return "%s: %d frames, expected %d" % (at, len(got), len(frames))
    for i, (g, f) in enumerate(zip(got, frames)):
        if len(g) != cams:
            return "%s: frame %d has %d cameras" % (at, i, len(g))
        for c in range(cams):
            if g[c].dtype != f[c].dtype or g[c].shape != f[c].shape or bits(g[c]) != bits(f[c]):
                return "%s: frame %d of camera %d is %s, expected %s" % (at, i, c, show(np.asarray(g[c])), show(f[c]))


def given(rng, frames, N):
    how = int(rng.integers(3))
    if how == 0:
        return frames, {}
    if how == 1:
        return frames, {"count": N}
    return (f for f in frames), {"count": N}


def arrays(rng, i):
    cams, N, kinds, frames = source(rng)
    keep = [tuple(f.copy() for f in t) for t in frames]
    v, k = given(rng, frames, N)
    at = "of %s with %s" % (show(frames), k)
    fn = ["asarrays", "load", "asmemmaps"][i % 3]
    tmp = None
    try:
        if fn == "asmemmaps":
            if any(0 in sh for t, sh in kinds):
                return None                 # an empty file cannot be mapped
            tmp = tempfile.mkdtemp()
            base = os.path.join(tmp, "v")
            out = video.asmemmaps(base, v, **k)
        else:
            out = getattr(video, fn)(v, **k)
        if fn == "load":
            r = compare("load " + at, out, keep, cams) or compare("load, again " + at, out, keep, cams)
        else:
            if len(out) != cams or any(len(a) != N for a in out):
                return "%s %s: %d arrays" % (fn, at, len(out))
            r = compare(fn + " " + at, [tuple(a[j] for a in out) for j in range(N)], keep, cams)
        if r:
            return r
        if tmp:
            for a in out:
                a.flush()
            if sorted(os.listdir(tmp)) != ["v_%d.npy" % c for c in range(cams)]:
                return "asmemmaps %s: files %s" % (at, os.listdir(tmp))
            files = [np.load(base + "_%d.npy" % c) for c in range(cams)]
            r = compare("files of asmemmaps " + at, [tuple(a[j] for a in files) for j in range(N)], keep, cams)
            if r:
                return r
        return compare("source after " + fn, frames, keep, cams)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def back(rng, i):
    cams = int(rng.integers(1, 4))
    N = int(rng.integers(0, 9))
    A = [rng.integers(0, 255, (N,) + tuple(int(v) for v in rng.integers(0, 5, 2))).astype(str(rng.choice(TYPES[:5]))) for _ in range(cams)]
    r = video.fromarrays(tuple(A))
    return compare("fromarrays(%s)" % show(A), list(r), [tuple(a[j] for a in A) for j in range(N)], cams)


def queue(rng, i):
    cams, N, kinds, frames = source(rng, True)
    keep = [tuple(f.copy() for f in t) for t in frames]
    size = int(rng.choice([0, -1, 1, 2, 3, 10]))
    slow = rng.random() < 0.3
    pause = [float(v) for v in rng.choice([0, 0, 0.0003], N)] if slow else [0] * N
    wait = [float(v) for v in rng.choice([0, 0, 0.0003], N + 1)] if slow else [0] * (N + 1)

    def make():
        for f, p in zip(frames, pause):
            if p:
                time.sleep(p)
            yield f
    v = make() if rng.random() < 0.5 else frames
    r = video.threaded(v, **({} if size == 0 else {"queue_size": size}))
    got = []
    for x in r:
        got.append(x)
        if wait[len(got) % len(wait)]:
            time.sleep(0.0003)
        if len(got) > N:
            break
    return compare("threaded(%s, %d)" % (show(frames), size), got, keep, cams)


def nocount(rng, i):
    cams, N, kinds, frames = source(rng)
    raises("asarrays of a generator", ValueError, video.asarrays, (f for f in frames))
    raises("load of a generator", ValueError, video.load, (f for f in frames))
    tmp = tempfile.mkdtemp()
    try:
        raises("asmemmaps of a generator", ValueError, video.asmemmaps, os.path.join(tmp, "v"), (f for f in frames))
    finally:
        shutil.rmtree(tmp)


SCENARIOS = [("arrays, files, memory", arrays), ("arrays, files, memory again", arrays), ("from arrays", back), ("queue", queue), ("length required", nocount)]
