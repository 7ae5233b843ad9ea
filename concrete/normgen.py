"""Correlation data computed from known frames, and the documented normalised values."""
from gen import *
from cddm.core import ccorr, acorr
from cddm.norm import normalize

CORR = (1, 2, 5, 6, 9, 10, 13, 14)


class Data(object):
    def __init__(self, rng, kind=None, cross=None, levels=0, rank=None):
        self.cross = cross = bool(rng.random() < 0.6) if cross is None else cross
        self.kind = kind = kind or ("diff" if cross and rng.random() < 0.3 else "corr")
        N = int(rng.integers(3, 9))
        rank = rank or int(rng.integers(1, 4))
        self.fsh = fsh = tuple(int(rng.integers(3, 5)) if k == 0 else int(rng.integers(1, 4)) for k in range(rank - 1))
        self.lead = () if not levels else (levels,)
        self.n = n = int(rng.integers(1, N + 2))
        self.cplx = cplx = bool(rng.random() < 0.4) and kind == "corr"
        self.nl = max(levels, 1)
        self.f1, self.f2, self.t1, self.t2 = [], [], [], []
        ds = []
        reg = bool(rng.random() < 0.5)
        b1 = rng.normal(size=fsh) + 1j * rng.normal(size=fsh)
        b2 = rng.normal(size=fsh) + 1j * rng.normal(size=fsh)
        if not cross:
            b2 = b1
        for l in range(self.nl):
            f1 = cdata(rng, (N,) + fsh)
            f2 = cdata(rng, (N,) + fsh) if cross else f1
            if rng.random() < 0.3:
                f1, f2 = f1 + 5, f2 + 5 - 2j
                if not cross:
                    f2 = f1
            t1 = None if reg else times(rng, N, not cross)
            t2 = None if reg else times(rng, N)
            kw = dict(n=n, norm={"corr": 7, "diff": 6 if cross else 2}[kind], method="corr" if kind == "corr" else "diff", align=False)
            if kind == "corr":
                kw["complex"] = cplx
            d = ccorr(f1, f2, t1=t1, t2=t2, **kw) if cross else acorr(f1, t=t1, **kw)
            ds.append(d)
            self.f1.append(f1), self.f2.append(f2), self.t1.append(t1), self.t2.append(t2)
        if levels:
            d = tuple(None if x[0] is None else np.array(x) for x in zip(*ds))
        else:
            d = ds[0]
        self.data = d
        self.N = N
        self.b1, self.b2 = b1, b2
        self.background = (b1, b2) if cross or rng.random() < 0.5 else b1
        self.v1 = rng.random(fsh) + 0.5
        self.v2 = rng.random(fsh) + 0.5
        self.variance = (self.v1, self.v2)
        if rng.random() < 0.3:
            self.variance, self.v2 = self.v1, self.v1
        self.mask = None
        if fsh and rng.random() < 0.4:
            self.mask = rng.random(fsh) < 0.6
        self.inputs = dict(data=d, background=self.background, variance=self.variance, mask=self.mask, f1=f1, f2=f2, t1=t1, t2=t2)

    def norms(self):
        return CORR if self.kind == "corr" else ((2, 6) if self.cross else (2,))

    def pairs(self, l):
        t1, t2 = tarr(self.t1[l], self.N), tarr(self.t2[l], self.N)
        if self.cross:
            for k, i, j, _ in pairs_cross(t1, t2, self.n, self.cplx):
                yield k, self.f1[l][i], self.f2[l][j]
        else:
            for k, i, j in pairs_auto(t1, self.n):
                yield k, self.f1[l][i], self.f1[l][j]

    def want(self, norm):
        """(documented value, where there are pairs); the imaginary part of auto data is left out"""
        P = 2 * self.n - 1 if self.cplx and self.cross else self.n
        out = np.full((self.nl, P) + self.fsh, np.nan, complex)
        V = (self.v1 + self.v2) / 2
        for l in range(self.nl):
            pr = {}
            for k, x, y in self.pairs(l):
                pr.setdefault(k, []).append((x, y))
            for k, xy in pr.items():
                x, y = np.array([a for a, _ in xy]), np.array([b for _, b in xy])
                a1, a2, extra = 0, 0, True
                if norm & 4:
                    a1, a2, extra = self.b1, self.b2, False
                elif norm & 8:
                    a1, a2, extra = x.mean(0), y.mean(0), False
                    if not self.cross:
                        a1 = a2 = (a1 + a2) / 2
                x, y = x - a1, y - a2
                if self.kind == "diff":
                    v = (np.abs(y - x) ** 2).mean(0)
                    if extra:
                        v = v - np.abs(self.b2 - self.b1) ** 2
                elif norm & 3 == 1:
                    v = (np.conj(x) * y).mean(0)
                    if extra:
                        v = v - np.conj(self.b1) * self.b2
                else:
                    v = V - (np.abs(y - x) ** 2).mean(0) / 2 + 1j * (V - (np.abs(y - 1j * x) ** 2).mean(0) / 2)
                    if extra:
                        v = v + np.abs(self.b2 - self.b1) ** 2 / 2 + 1j * np.abs(self.b2 - 1j * self.b1) ** 2 / 2
                out[l, k] = v
        out = np.moveaxis(out, 1, -1)
        if self.mask is not None:
            out = out[:, self.mask]
        has = ~np.isnan(out)
        if not self.lead:
            out, has = out[0], has[0]
        if not (self.cplx and self.cross):
            out = out.real
        return out, has

    def keep(self):
        self._k = [(a, a.copy()) for a in list(self.data) + list(self.background if isinstance(self.background, tuple) else [self.background])
                   + [self.v1, self.v2] if isinstance(a, np.ndarray)]

    def unchanged(self):
        for a, b in self._k:
            same("input modified", a, b, self.inputs)

    def sig(self, *more):
        return "%s %s fsh=%s n=%d N=%d L=%s %s mask=%s " % (self.kind, "cross" if self.cross else "auto", self.fsh, self.n, self.N, self.lead,
                                                            "complex" if self.cplx else "real", self.mask is not None) + " ".join(str(m) for m in more)


def agree(what, got, want, has, inputs):
    if got.shape != want.shape:
        raise Fail("%s: shape %s, expected %s; inputs %s" % (what, got.shape, want.shape, show(inputs, 3000)))
    if got.dtype.kind == "c" and want.dtype.kind != "c":
        got = got.real
    same(what, np.where(has, got, 0), np.where(has, want, 0), inputs)
