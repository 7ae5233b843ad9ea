from normgen import *
from cddm.multitau import normalize_multi

FORM = {1: "standard", 2: "structured", 4: "subtracted", 8: "compensated"}


def call(D, rng, norm, **kw):
    form = norm
    if rng.random() < 0.3:
        form = "|".join(v for b, v in FORM.items() if norm & b)
    kw = dict(background=D.background, variance=D.variance, mask=D.mask, norm=form, mode=D.kind, **kw)
    return normalize(D.data, **kw)


def single(rng, i):
    D = Data(rng)
    norm = int(rng.choice(D.norms()))
    want, has = D.want(norm)
    D.keep()
    kw = {}
    if rng.random() < 0.3:
        kw["out"] = np.empty(want.shape, D.data[0].dtype)
    got = call(D, rng, norm, **kw)
    agree("norm %d (%s)" % (norm, D.kind), got, want, has, D.inputs)
    if kw:
        agree("given output, norm %d" % norm, kw["out"], want, has, D.inputs)
    D.unchanged()
    return D.sig(norm, bool(kw))


def levels(rng, i):
    L = int(rng.integers(1, 4))
    D = Data(rng, levels=L)
    norm = int(rng.choice(D.norms()))
    want, has = D.want(norm)
    D.keep()
    got = call(D, rng, norm)
    agree("norm %d, %d levels" % (norm, L), got, want, has, D.inputs)
    if D.mask is None or True:
        two = normalize_multi((D.data, D.data), background=D.background, variance=D.variance, norm=norm, mask=D.mask, mode=D.kind)
        true("two parts", isinstance(two, tuple) and len(two) == 2, D.inputs)
        for k, g in enumerate(two):
            agree("normalize_multi part %d norm %d" % (k, norm), g, want, has, D.inputs)
    D.unchanged()
    return D.sig(norm, L)


SCENARIOS = [("single", single), ("levels", levels)]
