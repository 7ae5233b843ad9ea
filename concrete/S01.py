from lib import *
from cddm import sim


def mirror(rng, i):
    n = int(rng.integers(1, 30))
    L = float(rng.choice([1, 2, 16, 255, rng.random() * 100 + 0.1]))
    x0 = 0.0
    if i % 5 == 0:
        # a corner other than 0: dyadic numbers only, the sums are then exact
        L, x0 = float(rng.choice([1, 2, 16, 255])), float(rng.choice([-3.5, 2.0, 0.25]))
    m = int(rng.integers(0, 40))
    x = rng.choice([x0, x0 + L, x0 - L, x0 + L / 2, x0 + 3 * L, 0.0], n) if i % 3 == 0 else x0 + rng.normal(size=n) * L * rng.choice([0.5, 1, 3, m + 1])
    r = np.asarray(sim.mirror(x, x0, x0 + L))
    at = "mirror(%s, %r, %r)" % (show(x), x0, x0 + L)
    e = 1e-9 * (1 + np.abs(x).max() + L)
    if r.shape != x.shape:
        return at + ": shape"
    if ((r < x0) | (r >= x0 + L + 1e-12 * (1 + abs(x0) + L))).any():
        return at + ": outside the box: %s" % show(r)
    inside = (x >= x0) & (x < x0 + L)
    if not (r[inside] == x[inside]).all():
        return at + ": a coordinate inside the box was changed: %s" % show(r)
    k = (r - x) / L
    if np.abs(k - np.round(k)).max() > e / L:
        return at + ": not moved by whole box lengths: %s" % show(r)
    return ""


def law(rng, P):
    """velocity argument, its value at x; delta argument, its value at x (per particle)"""
    kind = int(rng.integers(4))
    if kind == 0:
        v = tuple(rng.normal(size=2) * 3)
        V = lambda x: np.ones((len(x), 1)) * np.array(v)
    elif kind == 1:
        v = rng.normal(size=(P, 2)) * 3
        V = lambda x: v
    elif kind == 2:
        a, b = rng.normal(size=2)
        v = V = lambda x: np.stack([a * x[:, 1], b + x[:, 0]], axis=1)
    else:
        v, V = None, lambda x: np.zeros((len(x), 2))
    return v, V


def boxed(x, sh):
    return x - np.floor(x / np.array(sh, float)) * np.array(sh, float)


def near(a, b, sh):
    d = np.abs(a - b)
    L = np.array(sh, float)
    return (np.minimum(d, np.abs(d - L)) <= 1e-7 * (1 + L)).all()


def run(rng, i):
    P = int(rng.integers(0, 12))
    sh = (int(rng.integers(1, 40)), int(rng.integers(1, 40)))
    n = int(rng.integers(0, 6))
    dt = float(rng.choice([1, 0.25, 2.0, 0.0]))
    v, V = law(rng, P)
    x0 = rng.uniform(-1, 2, (P, 2)) * np.array(sh)
    k = dict(count=n, shape=sh, dt=dt, delta=0.0)
    if v is not None:
        k["velocity"] = v
    keep = x0.copy()
    if i % 2:
        fs = list(sim.brownian_walk(x0 if i % 4 == 1 else x0.tolist() if P else x0, **k))
        what = "brownian_walk"
    else:
        given = rng.random() < 0.7
        what = "brownian_particles"
        fs = list(sim.brownian_particles(num_particles=P, x0=x0 if given else None, **k))
        if not given:
            if n:
                if fs[0].shape != (P, 2) or (fs[0] < 0).any() or (fs[0] >= np.array(sh)).any():
                    return "random start of %d particles in %r: %s" % (P, sh, show(fs[0]))
                keep = np.array(fs[0])
    at = "%s of %s with %s" % (what, show(keep), show(k))
    if len(fs) != n:
        return at + ": %d frames" % len(fs)
    if not (x0 == x0).all() or any(f.shape != (P, 2) for f in fs):
        return at + ": shapes %s" % [f.shape for f in fs]
    if n == 0 or P == 0:
        return ""
    if not near(fs[0], boxed(keep, sh), sh):
        return at + ": starts at %s" % show(fs[0])
    for f in fs:
        if (f < 0).any() or (f >= np.array(sh)).any():
            return at + ": outside the box: %s" % show(f)
    for a, b in zip(fs, fs[1:]):
        if not near(b, boxed(a + V(a) * dt, sh), sh):
            return at + ": from %s to %s" % (show(a), show(b))
    return ""


def noise(rng, i):
    P, n = 400, 4
    L = 1e6
    sh = (int(L), int(2 * L))
    dt = float(rng.choice([1, 0.25, 4.0]))
    v, V = law(rng, P)
    if callable(v):
        v, V = None, lambda x: np.zeros((len(x), 2))
    d = float(rng.choice([0.5, 1, 3]))
    c = int(rng.integers(3))
    delta = (d, lambda x: np.full(len(x), d), lambda x: np.full((len(x), 2), d))[c]
    k = dict(count=n, shape=sh, dt=dt, delta=delta)
    if v is not None:
        k["velocity"] = v
    sim.seed(int(rng.integers(1 << 30)))
    x0 = rng.uniform(0.4, 0.6, (P, 2)) * np.array(sh)
    fs = list(sim.brownian_walk(x0, **k)) if i % 2 else list(sim.brownian_particles(num_particles=P, x0=x0, **k))
    z = np.array([(b - a - V(a) * dt) / (d * np.sqrt(dt)) for a, b in zip(fs, fs[1:])])
    at = "increments with %s" % show(k)
    m = z.size
    for nm, got, want, s in (("mean", z.mean(), 0, 1 / np.sqrt(m)), ("variance", (z ** 2).mean(), 1, np.sqrt(2.0 / m)),
                             ("within one deviation", (np.abs(z) < 1).mean(), 0.6827, 0.4655 / np.sqrt(m)),
                             ("correlation of the axes", (z[..., 0] * z[..., 1]).mean(), 0, 1 / np.sqrt(m / 2.0)),
                             ("correlation of the steps", (z[1:] * z[:-1]).mean(), 0, 1 / np.sqrt(m * 2 / 3.0))):
        if abs(got - want) > 7 * s:
            return at + ": %s is %r, expected %r" % (nm, got, want)
    return ""


def rejects(rng, i):
    P = int(rng.integers(0, 5))
    try:
        if i % 3 == 0:
            list(sim.brownian_walk(np.zeros(P)))
        elif i % 3 == 1:
            list(sim.brownian_walk(np.zeros((P, 2)), shape=(5,)))
        else:
            list(sim.brownian_particles(x0=np.zeros((P, 2)), num_particles=P + 1))
    except ValueError:
        return ""
    return "invalid arguments (%d) accepted" % (i % 3)


SCENARIOS = [("mirror", mirror), ("walk", run), ("increments", noise), ("rejects", rejects)]
