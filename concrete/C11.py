from normgen import *
from cddm import _core_nb as nb
from cddm.norm import weight_from_data, weight_prime_from_data, scale_factor, noise_delta
from cddm.avg import denoise


def err(w, g, d):
    c2 = np.abs(g) ** 2
    return 0.5 * (w ** 2 * (c2 + 1 + d ** 2) - 4 * w * np.real(g) + 2 * np.real(g) ** 2 - c2 + 1 - d ** 2)


def err_p(w, g, d, b1, b2):
    g, b1, b2 = complex(g), complex(b1), complex(b2)
    s1, s2, z = abs(b1) ** 2, abs(b2) ** 2, b1 * np.conj(b2)
    r, i = z.real, z.imag
    e = w ** 2 * (s1 + s2 + (s2 - s1) * d + 2 * r * g.real + 2 * i * g.imag) - 4 * w * (r + 0.5 * (s1 + s2) * g.real)
    return err(w, g, d) + 0.5 * (e + s1 + s2 - (s2 - s1) * d + 2 * r * g.real - 2 * i * g.imag)


def curv(g, d, b1=0, b2=0):
    g, b1, b2 = complex(g), complex(b1), complex(b2)
    s1, s2, z = abs(b1) ** 2, abs(b2) ** 2, b1 * np.conj(b2)
    return abs(g) ** 2 + 1 + d * d + s1 + s2 + (s2 - s1) * d + 2 * z.real * g.real + 2 * z.imag * g.imag


def optimal(rng, i):
    cplx = bool(rng.integers(0, 2))
    sc = [0.3, 1, 5][int(rng.integers(0, 3))]
    g = float(rng.normal() * sc)
    if cplx:
        g = g + 1j * float(rng.normal() * sc)
    if rng.random() < 0.1:
        g = g * 0
    d = float(rng.choice([0, rng.uniform(-1, 1)]))
    bg = bool(rng.integers(0, 2))
    b = [complex(rng.normal(), rng.normal()) for _ in range(2)] if bg else []
    if bg and rng.random() < 0.5:
        b[1] = b[0]
    form = int(rng.integers(0, 2))
    x = 2 * (1 - g) if form else g
    if bg and curv(g, d, *b) < 1e-3:
        return "skip"
    fn = [[nb.weight_from_g, nb.weight_from_d], [nb.weight_prime_from_g, nb.weight_prime_from_d]][bg][form]
    w = complex(fn(x, d, *b))
    E = err_p if bg else err
    S = nb.sigma_prime_weighted if bg else nb.sigma_weighted
    inputs = dict(g=g, d=d, b=b, w=w, form=form)
    for gg, v in [(g, w.real)] + ([(-1j * g, w.imag)] if cplx and not bg else []):
        e0 = E(v, gg, d, *b)
        for u in (v + 1e-3, v - 1e-3, 0.0, 1.0, float(rng.normal()), -v):
            true("weight %r gives a smaller error than the returned %r" % (u, v), E(u, gg, d, *b) >= e0 - 1e-9 * (1 + abs(e0)), inputs)
            s = float(S(u, gg, d, *b))
            ref = E(u, gg, d, *b)
            if ref > 1e-9:
                same("error function at %r" % u, s ** 2, ref, inputs)
        if e0 > 1e-9:
            same("reported minimum", float(S(v, gg, d, *b)) ** 2, e0, inputs)
    return "%s %s %s" % (g, d, b)


def mix(w, a, b):
    if np.iscomplexobj(w):
        return mix(w.real, a.real, b.real) + 1j * mix(w.imag, a.imag, b.imag)
    return w * a + (1 - w) * b


def weights(rng, i):
    K, n = int(rng.integers(1, 4)), int(rng.integers(3, 8))
    cplx = bool(rng.integers(0, 2))
    x = rng.normal(size=(K, n)) + (1j * rng.normal(size=(K, n)) if cplx else 0)
    d, s = rng.uniform(-1, 1, K), rng.random(K) + 0.5
    mode = ["corr", "diff"][int(rng.integers(0, 2))]
    f = bool(rng.integers(0, 2))
    inputs = dict(x=x, d=d, s=s, mode=mode, pre_filter=f)
    b = x.copy()
    w = weight_from_data(x, delta=d, scale_factor=s, mode=mode, pre_filter=f)
    g = (denoise(x) if f else x) / s[:, None]
    if mode == "diff":
        g = 1 - g / 2
    same("weight_from_data", w, 2 * g / (np.abs(g) ** 2 + 1 + d[:, None] ** 2), inputs)
    same("data modified", x, b)
    raises("wrong mode", ValueError, weight_from_data, x, d, s, "other")
    return "%d %d %s %s %s" % (K, n, cplx, mode, f)


def combination(rng, i):
    D = Data(rng, kind="corr", levels=int(rng.choice([0, 0, 2])))
    if D.data[0].shape[-1] < 3 or not (D.data[1] > 0).all() or (not D.cross and D.cplx):
        return "skip"
    norm = int(rng.choice((3, 7, 11, 15)))
    mode, scale = ["corr", "diff"][int(rng.integers(0, 2))], bool(rng.integers(0, 2))
    kw = dict(background=D.background, variance=D.variance, mask=D.mask, mode=mode, scale=scale)
    st, ba = normalize(D.data, norm=norm & 12 | 2, **kw), normalize(D.data, norm=norm & 12 | 1, **kw)
    D.keep()
    given = rng.random() < 0.3
    o = np.empty(st.shape, st.dtype) if rng.random() < 0.3 else None
    if given:
        W = rng.random(st.shape) + (1j * rng.random(st.shape) if D.cplx else 0)
        r, w = normalize(D.data, norm=norm, weight=W, ret_weight=True, out=o, **kw)
        same("the given weight is used", w, W, D.inputs)
    else:
        r, w = normalize(D.data, norm=norm, ret_weight=True, out=o, **kw)
        V = np.asarray((D.v1 + D.v2) / 2)
        dl = np.asarray((D.v2 - D.v1) / (D.v1 + D.v2))
        if D.mask is not None:
            V, dl = V[D.mask], dl[D.mask]
        if scale:
            V = V * 0 + 1
        est, best = ba, None
        ok = False
        for k in range(12):
            g = denoise(est) / V[..., None]
            if mode == "diff":
                g = 1 - g / 2
            best = 2 * g / (np.abs(g) ** 2 + 1 + dl[..., None] ** 2)
            if np.allclose(best, w, rtol=1e-7, atol=1e-9):
                ok = True
                break
            est = mix(best, st, ba)
        true("the weight is not the minimising weight at the filtered estimate (norm %d mode %s scale %s)" % (norm, mode, scale), ok, D.inputs)
    same("weighted combination norm %d mode %s scale %s" % (norm, mode, scale), r, mix(np.asarray(w), st, ba), D.inputs)
    if o is not None:
        same("given output", o, r, D.inputs)
    D.unchanged()
    return D.sig(norm, mode, scale, given)


def tools(rng, i):
    K = int(rng.integers(3, 6))
    v1, v2 = rng.random(K) + 0.1, rng.random(K) + 0.1
    if i % 3 == 0:
        v1, v2 = rng.integers(1, 9, K), rng.integers(1, 9, K)
    m = rng.random(K) < 0.5 if i % 2 else None
    k = slice(None) if m is None else m
    same("scale_factor", scale_factor((v1, v2), m), ((v1 + v2) / 2)[k], dict(v1=v1, v2=v2))
    same("scale_factor of one variance", scale_factor(v1, m), v1[k])
    same("noise_delta", noise_delta((v1, v2), m), ((v2 - v1) / (v1 + v2))[k], dict(v1=v1, v2=v2))
    same("noise_delta of one variance", noise_delta(v1, m), (v1 * 0.0)[k])
    return "%d %s %s" % (K, v1.dtype, m is None)


SCENARIOS = [("optimal", optimal), ("weights", weights), ("combination", combination), ("tools", tools)]
