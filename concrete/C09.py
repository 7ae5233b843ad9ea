from normgen import *


def conv(kind, mode, scale, V, r):
    V = V[..., None]
    if kind == "corr" and mode == "diff":
        r = 2 * V - 2 * r
    if kind == "diff" and mode == "corr":
        r = V - r / 2
    return r / V if scale else r


def setting(rng):
    mode = ["corr", "diff"][int(rng.integers(0, 2))]
    scale = bool(rng.random() < 0.6)
    return mode, scale


def V_(D):
    V = np.asarray((D.v1 + D.v2) / 2)
    return V[D.mask] if D.mask is not None else V


def plain(rng, i):
    D = Data(rng, levels=int(rng.choice([0, 0, 0, 2])))
    norm = int(rng.choice(D.norms()))
    mode, scale = setting(rng)
    want, has = D.want(norm)
    if has.dtype == bool and D.kind == "corr" and not D.cross and D.cplx:
        return "skip"
    D.keep()
    kw = {}
    if rng.random() < 0.25:
        kw["out"] = np.empty(want.shape, D.data[0].dtype)
    got = normalize(D.data, background=D.background, variance=D.variance, mask=D.mask, norm=norm, mode=mode, scale=scale, **kw)
    what = "norm %d of %s data, mode %s, scale %s" % (norm, D.kind, mode, scale)
    want = conv(D.kind, mode, scale, V_(D), want)
    agree(what, got, want, has, D.inputs)
    if kw:
        agree("given output, " + what, kw["out"], want, has, D.inputs)
    D.unchanged()
    return D.sig(norm, mode, scale)


def weighted(rng, i):
    D = Data(rng, kind="corr", levels=int(rng.choice([0, 0, 2])))
    if D.data[0].shape[-1] < 3 or not (D.data[1] > 0).all() or (not D.cross and D.cplx):
        return "skip"
    norm = int(rng.choice((3, 7, 11, 15)))
    mode, scale = setting(rng)
    kw = dict(background=D.background, variance=D.variance, mask=D.mask, norm=norm, ret_weight=True)
    D.keep()
    r, w = normalize(D.data, mode="corr", scale=False, **kw)
    o = np.empty(r.shape, r.dtype) if rng.random() < 0.3 else None
    r2, w2 = normalize(D.data, mode=mode, scale=scale, out=o, **kw)
    what = "norm %d, mode %s, scale %s" % (norm, mode, scale)
    same("weight of " + what, w2, w, D.inputs, tol=1e-6)
    same(what, r2, conv("corr", mode, scale, V_(D), r), D.inputs, tol=1e-6)
    if o is not None:
        same("given output, " + what, o, r2, D.inputs)
    D.unchanged()
    return D.sig(norm, mode, scale)


def two_kinds(rng, i):
    N = int(rng.integers(2, 8))
    fsh = (int(rng.integers(3, 5)),)
    cross = bool(rng.random() < 0.7)
    f1, f2 = cdata(rng, (N,) + fsh), cdata(rng, (N,) + fsh)
    n = int(rng.integers(1, N + 1))
    norm = int(rng.choice((2, 6))) if cross else 2
    if cross:
        a, b = ccorr(f1, f2, n=n, norm=norm, method="corr"), ccorr(f1, f2, n=n, norm=norm, method="diff")
    else:
        a, b = acorr(f1, n=n, norm=norm, method="corr"), acorr(f1, n=n, norm=norm, method="diff")
    v = (rng.random(fsh) + 0.5, rng.random(fsh) + 0.5)
    bg = (rng.normal(size=fsh) + 0j, rng.normal(size=fsh) + 1j * rng.normal(size=fsh))
    if not cross:
        bg = bg[0]
    mode, scale = setting(rng)
    kw = dict(background=bg, variance=v, norm=norm, mode=mode, scale=scale)
    x, y = normalize(a, **kw), normalize(b, **kw)
    same("data computed as difference and as correlation (norm %d, mode %s, scale %s)" % (norm, mode, scale), y, x,
         dict(f1=f1, f2=f2 if cross else None, n=n, **kw))
    return "%s %d %d %s" % (fsh, N, n, (norm, mode, scale))


SCENARIOS = [("plain", plain), ("weighted", weighted), ("two kinds", two_kinds)]
