"""Reference joint densities of weighted samples, for judging contours."""
from __future__ import annotations

import numpy as np
from scipy.interpolate import RegularGridInterpolator
from scipy.ndimage import gaussian_filter

from . import summ


def joint(rng, n: int, kind: str):
    """Joint samples of order one with no symmetry between x and y."""
    if kind == "normal":
        r = rng.uniform(-0.95, 0.95)
        u, v = rng.normal(size=(2, n))
        return u, r * u + np.sqrt(1 - r * r) * v
    if kind == "banana":
        u, v = rng.normal(size=(2, n))
        return u, 0.5 * v + rng.choice([-1, 1]) * 0.6 * u * u
    if kind == "skewed":
        g = rng.gamma(rng.uniform(2.5, 6), size=n)
        return g, rng.normal(size=n) * rng.uniform(0.5, 2) + rng.uniform(-0.5, 0.5) * g
    if kind == "wedge":
        g = rng.gamma(5.0, size=n)
        return g, rng.normal(size=n) * (0.3 + 0.25 * g)
    if kind == "two":
        s = rng.uniform(size=n) < 0.6
        u, v = rng.normal(size=(2, n))
        return np.where(s, u, 7 + 0.7 * u), np.where(s, v, 3 + 1.4 * v)
    if kind == "cut":
        return rng.exponential(size=n), rng.uniform(-1, 1, size=n) + 0.3 * rng.normal(size=n)
    raise KeyError(kind)


KINDS = ["normal", "banana", "skewed", "wedge", "two", "cut"]


def tilt(rng, x, y, kind: str | None = None):
    """Weights that change the distribution: what they say matters."""
    kind = kind or str(rng.choice(["none", "scatter", "tilt", "side"], p=[0.15, 0.15, 0.4, 0.3]))
    n = len(x)
    if kind == "none":
        return kind, None
    s = 10 ** rng.uniform(-6, 6)
    if kind == "scatter":
        return kind, s * rng.uniform(0.2, 1, size=n)
    zx, zy = (x - x.mean()) / x.std(), (y - y.mean()) / y.std()
    z = rng.choice([-1, 1]) * zx + rng.choice([-1, 0, 1]) * zy
    if kind == "tilt":
        return kind, s * np.exp(0.6 * np.clip(z, -2.5, 2.5))
    return kind, s * np.where(z > 0, 1.0, 0.25)


class Density:
    def __init__(self, x, y, w, hx, hy, power=1.0, m=320):
        w = np.ones(len(x)) if w is None else w
        ex, ey = (np.linspace(v.min(), v.max(), m + 1) for v in (x, y))
        h, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=w)
        h = gaussian_filter(h, [hx / (ex[1] - ex[0]), hy / (ey[1] - ey[0])], mode="reflect")
        h = h / h.max()
        h = h**power
        self.c = [0.5 * (e[1:] + e[:-1]) for e in (ex, ey)]
        self.h = h
        self.f = RegularGridInterpolator(self.c, h, bounds_error=False, fill_value=None)

    def at(self, x, y):
        v = np.column_stack([np.clip(x, self.c[0][0], self.c[0][-1]), np.clip(y, self.c[1][0], self.c[1][-1])])
        return self.f(v)

    def level(self, mass: float) -> float:
        v = np.sort(self.h.ravel())[::-1]
        c = np.cumsum(v) / v.sum()
        return float(v[min(np.searchsorted(c, mass), len(v) - 1)])


class KDensity:
    """Gaussian kernels in the metric of the weighted covariance, bandwidth 2*factor*n^(-1/6)."""

    def __init__(self, x, y, w, factor, power=1.0, m=320):
        w = np.ones(len(x)) if w is None else w
        self.w = w / w.sum()
        d = np.column_stack([x, y])
        self.mean = (d * self.w[:, None]).sum(axis=0)
        self.A = np.linalg.cholesky(np.linalg.inv(np.cov(d.T, aweights=w)))
        z = (d - self.mean) @ self.A
        bw = 2 * factor * len(x) ** (-1 / 6)
        pad = 3.5 * bw
        es = [np.linspace(v.min() - pad, v.max() + pad, m + 1) for v in z.T]
        h, _, _ = np.histogram2d(*z.T, bins=es, weights=w)
        h = gaussian_filter(h, [bw / (e[1] - e[0]) for e in es], mode="constant", truncate=3.0)
        self.c = [0.5 * (e[1:] + e[:-1]) for e in es]
        h = (h / h.max()) ** power
        self.h, self.lo, self.hi = h, d.min(axis=0), d.max(axis=0)
        self.f = RegularGridInterpolator(self.c, h, bounds_error=False, fill_value=0)

    def at(self, x, y):
        return self.f((np.column_stack([x, y]) - self.mean) @ self.A)

    def level(self, mass):
        # only what lies within the range that is drawn counts
        g = np.stack(np.meshgrid(*[np.linspace(a, b, 250) for a, b in zip(self.lo, self.hi)], indexing="ij"), -1).reshape(-1, 2)
        v = np.sort(self.at(g[:, 0], g[:, 1]))[::-1]
        c = np.cumsum(v) / v.sum()
        return float(v[min(np.searchsorted(c, mass), len(v) - 1)])


def reference(x, y, w, *, bins, smooth, kde, power=1.0, ncols=3):
    if kde:
        return KDensity(x, y, w, 1.0 if kde is True else float(kde), power)
    hs = [summ.resolution(v, w, bins=bins, smooth=smooth, kde=False, n=len(x), ncols=ncols) * (1 if smooth != 0 else 0.4) for v in (x, y)]
    return Density(x, y, w, *hs, power=power)
