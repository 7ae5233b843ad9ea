from lib import *
from cddm import sim


def two(rng, i):
    fn = ("create_random_times1", "create_random_times2")[i % 2]
    N, n = int(rng.integers(0, 200)), int(rng.choice([1, 2, 3, 5, 16, 32]))
    np.random.seed(int(rng.integers(1 << 30)))
    kw = int(rng.integers(3))
    if kw == 0:
        n = 32
        r = getattr(sim, fn)(N)
    else:
        r = getattr(sim, fn)(N, n) if kw == 1 else getattr(sim, fn)(N, n=n)
    at = "%s(%d, %d)" % (fn, N, n)
    if len(r) != 2 or any(np.shape(t) != (N,) or np.asarray(t).dtype.kind != "i" for t in r):
        return at + ": not two integer arrays of length %d" % N
    c = 2 * n * np.arange(N)
    o1, o2 = r[0] - c, r[1] - c
    if ((o1 < 0) | (o1 >= n)).any():
        return at + ": offset of the first camera not in [0, n): %s" % show(o1)
    ok = (o2 == 0) | (o2 == n)
    if fn.endswith("2"):
        ok |= o2 == o1
    if not ok.all():
        return at + ": offset of the second camera not allowed: %s" % show(o2)
    for t in r:
        if N > 1 and np.diff(t).min() < n:
            return at + ": triggers closer than n: %s" % show(t)
    return ""


def one(rng, i):
    N, n = int(rng.integers(0, 200)), int(rng.choice([1, 2, 3, 5, 16, 32]))
    d = int(rng.integers(1, n + 1))
    np.random.seed(int(rng.integers(1 << 30)))
    if i % 3 == 0:
        d = 1
        t = sim.create_random_time(N, n)
    else:
        t = sim.create_random_time(N, n, d) if i % 3 == 1 else sim.create_random_time(N, n=n, dt_min=d)
    at = "create_random_time(%d, %d, %d)" % (N, n, d)
    if np.shape(t) != (N,) or np.asarray(t).dtype.kind != "i":
        return at + ": not an integer array of length %d" % N
    if (t // n != np.arange(N)).any():
        return at + ": a time outside its period: %s" % show(t)
    if N > 1 and np.diff(t).min() < d:
        return at + ": times closer than the minimum spacing: %s" % show(t)
    return ""


SCENARIOS = [("two cameras", two), ("one camera", one)]
