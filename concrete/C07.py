from gen import *
from cddm.core import ccorr, acorr


def spec(d, cross, method, norm, n, cplx, s1=None, s2=None):
    f1, t1, t2, ax = d["f1"], d["t1"], d["t2"], d["axis"]
    f2 = d.get("f2")
    N = d["N"]
    if cross:
        if n is None:
            n = full_cross(d)
        cor = cross_diff(f1, f2, t1, t2, ax, n) if method == "diff" else cross_corr(f1, f2, t1, t2, ax, n, cplx)
        cnt = cross_count(tarr(t1, N), tarr(t2, N), n, cplx)
        sq = cross_sum(np.abs(f1) ** 2 if s1 is None else s1, t1, t2, ax, n, cplx) + \
            cross_sum(np.abs(f2) ** 2 if s2 is None else s2, t2, t1, ax, n, cplx, inv=True)
        ds = [cross_sum(f1, t1, t2, ax, n, cplx), cross_sum(f2, t2, t1, ax, n, cplx, inv=True)]
    else:
        if n is None:
            n = full_auto(d)
        cor = auto_diff(f1, t1, ax, n) if method == "diff" else auto_corr(f1, t1, ax, n, cplx)
        cnt = auto_count(tarr(t1, N), n)
        sq = 2 * auto_sum(np.abs(f1) ** 2 if s1 is None else s1, t1, ax, n)
        ds = [auto_sum(f1, t1, ax, n), None]
    if method == "diff":
        return (cor, cnt) + (tuple(ds) if norm & 4 and cross else (None, None))
    return (cor, cnt, sq if norm & 2 else None) + (tuple(ds) if norm & 4 else (None, None))


def run(rng, i, cross):
    d = frames(rng, two=cross, distinct=not cross)
    full_ = full_cross(d) if cross else full_auto(d)
    n = pick_n(rng, full_)
    method = [None, "corr", "fft", "diff"][int(rng.integers(0, 4))]
    m = method or ("fft" if n is None else "corr")
    norms = ((2, 6) if cross else (2,)) if m == "diff" else (1, 2, 3, 5, 6, 7)
    norm = None if rng.random() < 0.2 else int(rng.choice(norms))
    nn = norms[-1] if norm is None else norm
    cplx = bool(rng.random() < 0.4) and m != "diff"
    al = bool(rng.random() < 0.3)
    kw = dict(axis=d["axis"], n=n, norm=norm, method=method, align=al)
    if cplx or m != "diff":
        kw["complex"] = cplx
    s1 = s2 = None
    if rng.random() < 0.3:
        s1 = layout(rng, rng.normal(size=d["f1"].shape))
        s2 = layout(rng, rng.normal(size=d["f1"].shape))
        kw.update(dict(f1s=s1, f2s=s2) if cross else dict(fs=s1))
    want = spec(d, cross, m, nn, n, cplx, s1, s2)
    inputs = dict(d, **kw)
    keep = [x for x in (d["f1"], d.get("f2"), s1, s2) if x is not None]
    before = [k.copy() for k in keep]
    base = None
    if rng.random() < 0.3:
        base = [None if w is None else given_out(rng, w.shape, w.dtype) if k != 1 else (lambda b: (b, b.copy()))(rng.integers(0, 9, w.shape))
                for k, w in enumerate(want)]
        kw["aout"] = tuple(None if b is None else b[1] for b in base)
        if i % 2 and n is not None and method is not None:
            kw["n"] = None
    if cross:
        got = ccorr(d["f1"], d["f2"], t1=d["t1"], t2=d["t2"], **kw)
    else:
        got = acorr(d["f1"], t=d["t1"], **kw)
    true("a tuple of %d parts" % len(want), isinstance(got, tuple) and len(got) == len(want), inputs)
    for k, (g, w) in enumerate(zip(got, want)):
        if base is not None and w is not None:
            w = w + base[k][0]
            same("given part %d" % k, base[k][1], w, inputs)
        same("part %d" % k, g, w, inputs)
    for b, k in zip(before, keep):
        same("input modified", k, b, inputs)
    return sig(d, n, cplx, al, method, norm, base is not None)


def rejects(rng, i):
    d = frames(rng)
    cross = bool(i % 2)
    m, bad = [("corr", [0, 4, 8, -1, 9]), ("fft", [0, 4, 16]), ("diff", [0, 1, 3, 5, 7] + ([] if cross else [6])), ("other", [1, 2, 3])][i % 4]
    norm = int(rng.choice(bad))
    a = [d["f1"], d["f2"]] if cross else [d["f1"]]
    raises("norm %d with method %s" % (norm, m), ValueError, ccorr if cross else acorr, *a, n=1, axis=d["axis"], method=m, norm=norm)
    return "%s %s %d" % (cross, m, norm)


SCENARIOS = [("cross", lambda rng, i: run(rng, i, True)), ("auto", lambda rng, i: run(rng, i, False)), ("rejects", rejects)]
