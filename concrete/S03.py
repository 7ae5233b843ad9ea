from lib import *
from cddm import sim


def pick(rng, n, kind):
    """a stream of n numbers or frames, as list, generator or iterator"""
    xs = list(range(100, 100 + n)) if kind % 2 else [(np.full((2, 3), k), k) for k in range(n)]
    how = kind // 2 % 3
    return xs, (xs if how == 0 else (x for x in xs) if how == 1 else iter(xs))


def select(rng, i):
    n = int(rng.integers(0, 30))
    m = int(rng.choice([0, 1, 2, 5, 20]))
    hi = max(1, n + int(rng.choice([0, 0, 3])))
    ind = [int(v) for v in rng.integers(0, hi, m)]
    if i % 7 == 0:
        ind = ind + ind[::-1]
    xs, data = pick(rng, n, int(rng.integers(6)))
    arg = [ind, np.array(ind, int), tuple(ind), (k for k in ind)][i % 4]
    r = list(sim.data_trigger(data, arg))
    want = [xs[k] for k in sorted(set(ind)) if k < n]
    if len(r) != len(want) or any(a is not b and a != b for a, b in zip(r, want)):
        return "data_trigger(stream of %d, %s): %s elements, not %s" % (n, ind, len(r), len(want))
    return ""


def times(rng, K, two):
    """increasing triggers, every trigger number complete before the next one"""
    t1, t2, at = [], [], int(rng.integers(0, 3))
    for k in range(K):
        a, b = (int(rng.integers(0, 4)) for _ in range(2))
        if rng.random() < 0.4:
            b = a
        t1.append(at + a)
        t2.append(at + (b if two else a))
        at += max(a, b if two else a) + 1 + int(rng.integers(0, 3))
    return t1, t2


def box(x, sh):
    L = np.array(sh, float)
    x = x - np.floor(x / L) * L
    return np.where(x >= L, 0., x)


def frame(data, sh, bg, inten, sigma, dt):
    if sigma is None:
        im = np.zeros(sh, dt) + np.array(bg, dt)
        for p in data:
            im[int(p[0]), int(p[1])] += np.array(inten, dt)
        return im
    im = np.zeros(sh, dt) + np.array(bg, dt)
    s = np.zeros(len(data)) + sigma
    return sim.draw_psf(im, data, np.full(len(data), inten, dt), s)


def same(got, want, spread):
    if got.shape != want.shape or got.dtype != want.dtype:
        return False
    # a particle at the very edge of a pixel may be drawn in the next one
    return (got == want).all()


def video(rng, i):
    two = bool(i % 2)
    K, P = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    sh = (int(rng.integers(24, 40)), int(rng.integers(24, 40)))
    t1, t2 = times(rng, K, two)
    n = max(t1[-1], t2[-1]) + 1 + int(rng.integers(0, 4))
    # coordinates in the middle of cells: drawing is then not sensitive to rounding
    dat = [np.stack([rng.integers(0, sh[0], P), rng.integers(0, sh[1], P)], axis=1) + 0.5 for _ in range(n)]
    keep = [d.copy() for d in dat]
    dt = ("uint8", "uint16")[int(rng.integers(2))]
    bg, inten = int(rng.integers(0, 60)), int(rng.integers(1, 30))
    sigma = None if i % 3 else [1.5, np.full(P, 2.0)][int(rng.integers(2))]
    kw = dict(shape=sh, background=bg, intensity=inten, sigma=sigma, dtype=dt)
    off = None
    if rng.random() < 0.5:
        off = tuple(float(v) for v in rng.integers(-50, 50, 2))
        kw["offset"] = off
    turn = int(rng.integers(3))
    if turn:
        kw["rotation"] = (np.pi, 0.)[turn - 1]
    if two:
        kw["t2"] = np.array(t2) if i % 4 < 2 else t2
    src = (d for d in dat) if i % 5 else list(dat)
    r = list(sim.particles_video(src, np.array(t1) if i % 4 < 2 else t1, **kw))
    at = "particles_video(%d coordinates, t1=%s%s, %s)" % (n, t1, ", t2=%s" % t2 if two else "", {k: show(v) for k, v in kw.items() if k != "t2"})
    if len(r) != K:
        return at + ": %d frames for %d triggers" % (len(r), K)
    for k in range(K):
        if len(r[k]) != 1 + two:
            return at + ": %d cameras" % len(r[k])
        d = keep[t1[k]]
        if turn == 1:
            d = np.array(sh, float) - d
        d = box(d + (off if off is not None else 0.), sh)
        d = np.floor(d) + 0.5
        want = frame(d, sh, bg, inten, sigma, dt)
        if sigma is not None and turn == 1:
            if np.abs(r[k][0].astype(int) - want.astype(int)).max() > P:
                return at + ": frame %d of camera 1" % k
        elif not same(r[k][0], want, sigma):
            return at + ": frame %d of camera 1" % k
        if two and not same(r[k][1], frame(keep[t2[k]], sh, bg, inten, sigma, dt), sigma):
            return at + ": frame %d of camera 2" % k
    return ""


def brownian(rng, i):
    two = bool(i % 2)
    K, P = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    sh = (int(rng.integers(24, 40)), int(rng.integers(24, 40)))
    t1, t2 = times(rng, K, two)
    kw = dict(background=3, intensity=20, sigma=None)
    par = dict(num_particles=P, delta=float(rng.random() * 3), velocity=float(rng.normal()))
    seed = int(rng.integers(1 << 30))
    n = max(t1[-1], t2[-1] if two else 0) + 1

    sim.seed(seed)
    x = [p.copy() for p in sim.brownian_particles(count=n, shape=sh, **par)]
    sim.seed(seed)
    r = list(sim.simple_brownian_video(t1, t2=t2 if two else None, shape=sh, **kw, **par))
    at = "simple_brownian_video(%s, %s, shape=%s)" % (t1, t2 if two else None, sh)
    if len(r) != K:
        return at + ": %d frames for %d triggers" % (len(r), K)
    for k in range(K):
        if not same(r[k][0], frame(x[t1[k]], sh, 3, 20, None, "uint8"), None):
            return at + ": frame %d of camera 1" % k
        if two and not same(r[k][1], frame(x[t2[k]], sh, 3, 20, None, "uint8"), None):
            return at + ": frame %d of camera 2" % k
    return ""


SCENARIOS = [("data_trigger", select), ("particles_video", video), ("simple_brownian_video", brownian)]
