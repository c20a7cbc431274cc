"""Shared by the summary checks: building a chain with one or more weighted columns, and the reference density."""
from __future__ import annotations

import numpy as np
from scipy.ndimage import gaussian_filter1d

from . import gen


def resolution(x, w, *, bins, smooth, kde, n, ncols) -> float:
    """The width over which the documented settings let the library blur a marginal (its standard deviation).

    bins and smooth are what the user set (None: the defaults of 35 bins, or 100 unsmoothed, and a smoothing of 3);
    a smoothing of s bins at 2*s*bins bins blurs by range/(2*bins)."""
    lo, hi = float(np.min(x)), float(np.max(x))
    sm = 3 if smooth is None else smooth
    if bins is None:
        bins = max(35 if sm > 0 else 100, int((n / ncols) ** 0.25))
    blur = (hi - lo) / (2 * bins) if sm > 0 else (hi - lo) / bins
    if kde:
        factor = 1.0 if kde is True else float(kde)
        ww = np.ones(len(x)) if w is None else w
        mean = np.average(x, weights=ww)
        std = np.sqrt(np.average((x - mean) ** 2, weights=ww))
        # the kernel width, on a grid of at least 200 points over the same range
        return float(2.0 * factor * n ** (-0.2) * std + (hi - lo) / 200)
    return float(blur)


def density(x, w, blur: float):
    """Reference density: a fine weighted histogram convolved with a Gaussian of the given width."""
    x = np.asarray(x, float)
    lo, hi = x.min(), x.max()
    m = int(np.clip((hi - lo) / (blur / 12 + 1e-300), 500, 20000))
    h, e = np.histogram(x, bins=m, weights=w, density=True)
    d = gaussian_filter1d(h.astype(float), blur / (e[1] - e[0]), mode="reflect")
    c = 0.5 * (e[1:] + e[:-1])

    def f(v):
        return np.interp(v, c, d)

    return f, float(d.max()), c, d


def wstd(x, w) -> float:
    w = np.ones(len(x)) if w is None else w
    m = np.average(x, weights=w)
    return float(np.sqrt(np.average((x - m) ** 2, weights=w)))


def options(rng, allow_kde=True):
    bins = None if rng.uniform() < 0.6 else int(rng.integers(25, 80))
    smooth = None if rng.uniform() < 0.6 else int(rng.choice([0, 1, 2, 4, 5]))
    kde = False
    if allow_kde and rng.uniform() < 0.2:
        kde = [True, 0.5, 0.7, 1.5][int(rng.integers(4))]
    return bins, smooth, kde


def area(rng) -> float:
    return float(rng.choice([0.6827, 0.6827, 0.9545, 0.5, 0.9, rng.uniform(0.15, 0.98)]))


def columns(ctx, kinds, nlo=2000, nhi=40000, kmax=3, kde=False):
    """A set of weighted columns: names, arrays, the shape of each, weights, row labels."""
    rng = ctx.rng
    n = int(10 ** rng.uniform(np.log10(nlo), np.log10(nhi)))
    if kde:
        n = min(n, 5000)
    k = int(rng.integers(1, kmax + 1))
    shapes = [str(rng.choice(kinds)) for _ in range(k)]
    cols = {nm: gen.shape(rng, n, s) for nm, s in zip(gen.names(rng, k), shapes)}
    n = min(len(v) for v in cols.values())
    cols = {a: v[:n] for a, v in cols.items()}
    wk, w = gen.weights(rng, n)
    if rng.uniform() < 0.4:
        # weights that move the distribution of the first column
        x0 = next(iter(cols.values()))
        wk, w = "tilt", 10 ** rng.uniform(-6, 6) * np.exp(rng.choice([-0.45, 0.45]) * np.clip((x0 - x0.mean()) / x0.std(), -3, 3))
    if rng.uniform() < 0.2:
        cols = {a: gen.single(v) for a, v in cols.items()}
        w = None if w is None else gen.single(w)
    ik, idx = gen.index(rng, n)
    return n, cols, dict(zip(cols, shapes)), wk, w, ik, idx


def hostile(rng, n):
    """Samples a histogram resolves badly: far rows, tails over many decades, a steep edge, a handful of values."""
    kind = str(rng.choice(["far row", "far rows", "lognormal", "loguniform", "edge", "values"]))
    z = rng.normal(size=n)
    if kind == "far row":
        z[rng.integers(n)] = 10 ** rng.uniform(2, 8)
    elif kind == "far rows":
        z[rng.choice(n, 2, replace=False)] = np.array([-1, 1]) * 10 ** rng.uniform(2, 7, size=2)
    elif kind == "lognormal":
        z = 10 ** (z * rng.choice([1, 2, 4]))
    elif kind == "loguniform":
        z = 10 ** rng.uniform(-8, 0, size=n)
    elif kind == "edge":
        z = rng.exponential(size=n)
    else:
        z = rng.choice(int(rng.integers(2, 4)), size=n).astype(float)
    return kind, z * rng.choice([-1, 1])


def judge_hostile(ctx, stats):
    """Summaries of such samples lie where the samples are, to the resolution of the cells."""
    from chainconsumer import Chain, ChainConsumer
    from chainconsumer.statistics import SummaryStatistic as S

    rng = ctx.rng
    n = int(10 ** rng.uniform(2.8, 4))
    kind, z = hostile(rng, n)
    wk, w = gen.weights(rng, n) if rng.uniform() < 0.4 else ("none", None)
    if gen.neff(w, n) < 100:
        wk, w = "none", None
    stat = stats[int(rng.integers(len(stats)))]
    kw = dict(smooth=int(rng.choice([0, 1, 3])), bins=int(rng.integers(10, 200)), statistics=stat, summary_area=float(rng.choice([0.3, 0.6827, 0.95])))
    scale = 10 ** rng.uniform(-5, 5)
    chain = gen.chain(rng, extra=True, samples=gen.frame(rng, {"x": z * scale}, w=w), name="a", **kw)
    b = ChainConsumer().add_chain(chain).analysis.get_summary()["a"]["x"]
    ctx.describe(kind=kind, n=n, weights=wk, settings=kw, bound=b.array / scale)
    blur = resolution(z, w, bins=kw["bins"], smooth=kw["smooth"], kde=False, n=n, ncols=2) * (1 if kw["smooth"] else 1.05 * kw["bins"] / (kw["bins"] - 1))
    d = (4.2 if kw["smooth"] else 1.1) * blur
    area, lo, mid, hi = kw["summary_area"], *(np.nan if v is None else v / scale for v in (b.lower, b.center, b.upper))
    what = dict(kind=kind, weights=wk, settings=kw, bound=(lo, mid, hi), cell=blur)
    ctx.check_that(np.isfinite(mid) and z.min() - d <= mid <= z.max() + d, "the summary of a parameter with extreme samples has no centre among them", **what)
    if np.isnan(lo) and np.isnan(hi) and stat == S.MAX:
        ctx.count("hostile: unconstrained")
        return
    ctx.check_that(lo <= hi, "the bounds of a parameter with extreme samples are not in order", **what)
    # the integral goes from centre to centre of the outermost cells, so half of what they hold is left out
    reach, share = (blur, 1.0) if not kw["smooth"] else (3 * blur, min(1.0, 0.8 / kw["smooth"]))
    eps = 0.04 + 0.5 * share * (gen.mass_below(z, w, z.min() + reach) + 1 - gen.mass_below(z, w, z.max() - reach))
    if stat in (S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL):
        want = [(lo, 0.5 - area / 2), (hi, 0.5 + area / 2)] + ([(mid, 0.5)] if stat == S.CUMULATIVE else [])
        for v, q in want:
            ctx.check_that(gen.mass_below(z, w, v - d) - eps <= q <= gen.mass_below(z, w, v + d) + eps, "a quantile is not that of the samples", value=v, quantile=q, below=(gen.mass_below(z, w, v - d), gen.mass_below(z, w, v + d)), **what)
    else:
        m = gen.mass_in(z, w, lo - d, hi + d)
        ctx.check_that(m >= area - eps, "an interval does not hold its share of the samples", mass=m, **what)
        ctx.check_that(gen.mass_in(z, w, mid - d, mid + d) >= 0.5 / len(z) if stat == S.MAX else lo - d <= mid <= hi + d, "the centre is away from the samples", **what)
    ctx.count("hostile")
    ctx.distinct("hostile", kind, wk, tuple(kw.items()))
