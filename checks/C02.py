"""MAX summaries: mode, iso-density interval, enclosed mass - or an unconstrained parameter."""
import numpy as np
import pandas as pd
from scipy import stats
from chainconsumer import Chain, ChainConfig, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from vlib import gen, summ

ID = "C02"
TITLE = "maximum-likelihood summaries"
RULE = (
    'Random chains (1-3 parameters of 12 shapes incl. cut-off and multi-peaked ones, 8 kinds of row label, 7 kinds of weights, bins/smooth/kde '
    'settings, areas 0.15-0.98, magnitudes 1e-15 to 1e15) summarised with the MAX statistic, or with the default; the centre, bounds and enclosed '
    'weighted mass are judged against a reference density made from the same samples. Noise-free single-peaked densities on fine grids (heavy '
    'tails included, areas to 0.995) must always get their interval. Symmetric evenly spread samples, whose highest-density interval is the '
    'central one, and densities cut off at their peak are further kinds. Distinct by shapes, weights, labels, settings and area.'
)


def case(ctx):
    rng = ctx.rng
    bins, smooth, kde = summ.options(rng)
    kinds = gen.SMOOTH_UNIMODAL * 3 + gen.CUT + gen.MULTI
    n, cols, shapes, wk, w, ik, idx = summ.columns(ctx, kinds, kde=bool(kde))
    area = summ.area(rng)
    opts = {k: v for k, v in dict(bins=bins, smooth=smooth).items() if v is not None}
    if kde:
        opts["kde"] = kde
    default_stat = rng.uniform() < 0.4
    if not default_stat:
        opts["statistics"] = S.MAX
    df = gen.frame(rng, cols, w, idx=idx)
    ctx.describe(n=n, shapes=shapes, weights=wk, labels=ik, area=area, **opts)
    cc = ChainConsumer()
    if rng.uniform() < 0.3:
        cc.add_chain(gen.chain(rng, extra=True, samples=df, name="c", **opts))
        cc.set_override(ChainConfig(summary_area=area))
    else:
        cc.add_chain(gen.chain(rng, extra=True, samples=df, name="c", summary_area=area, **opts))
    res = cc.analysis.get_summary()["c"]
    ctx.check_that({c for c in res if not c.startswith("extra ")} == set(cols), "get_summary does not cover exactly the parameters", got=sorted(res))
    for c, x in cols.items():
        b = res[c]
        what = dict(column=c, shape=shapes[c], n=n, weights=wk, area=area, bound=b.array, options=opts)
        blur = summ.resolution(x, w, bins=bins, smooth=smooth, kde=kde, n=n, ncols=df.shape[1] + (w is None))
        sm = 3 if smooth is None else smooth
        smooth_case = shapes[c] in gen.SMOOTH_UNIMODAL and (kde or sm >= 2) and gen.neff(w, n) > 1500
        std = summ.wstd(x, w)
        f, peak, _, _ = summ.density(x, w, blur)
        # effective samples within one blur width at the peak: the noise of the library's density
        counts = gen.neff(w, n) * peak * 2.5 * blur
        # the centre: where the density is highest
        if ctx.check_that(b.center is not None and np.isfinite(b.center), "MAX summary without a centre", **what):
            need = 0.95 if smooth_case else 0.85 if (sm >= 2 and not kde) else 0.5
            ctx.check_that(f(b.center) >= need * peak, "the MAX centre is not where the density peaks", ratio=float(f(b.center) / peak), **what)
        ctx.check_that((b.lower is None) == (b.upper is None), "one bound is missing but not the other", **what)
        if b.lower is None or b.upper is None:
            ctx.count("unconstrained")
            ctx.check_that(not (smooth_case and counts > 2000 and 0.5 < area < 0.97), "a well-sampled single-peaked parameter is reported as unconstrained", **what)
            continue
        ctx.count("bounded")
        ctx.check_that(b.lower <= b.center <= b.upper and b.lower < b.upper, "MAX bounds do not surround the centre", **what)
        slack = 4 * blur
        inner = gen.mass_in(x, w, b.lower + slack, b.upper - slack)
        outer = gen.mass_in(x, w, b.lower - slack, b.upper + slack)
        ctx.check_that(inner - 0.008 <= area <= outer + 0.008, "the MAX interval does not enclose the area (beyond resolution)", inner=inner, outer=outer, **what)
        if smooth_case:
            ctx.count("tight intervals")
            m = gen.mass_in(x, w, b.lower, b.upper)
            tol = 0.009 + 1.2 * (blur / std) ** 2
            ctx.check_that(abs(m - area) <= tol, "the MAX interval does not enclose the area", mass=m, tolerance=tol, **what)
            if kde:
                continue  # a kernel leaks past a sharp edge, the reference density does not
            rel = 4 / np.sqrt(counts)
            a, z = float(f(b.lower)) / peak, float(f(b.upper)) / peak
            ctx.check_that(abs(a - z) <= 0.06 + rel + 0.4 * blur / std, "the MAX bounds are not at equal density", at_lower=a, at_upper=z, allowed=0.06 + rel + 0.4 * blur / std, **what)
    ctx.distinct(tuple(shapes.values()), wk, ik, bins, smooth, kde, round(area, 3))


def cut(ctx):
    """Posteriors cut off at their peak: the bound sits at the edge and the mass is still the requested one."""
    rng = ctx.rng
    kind = str(rng.choice(["exponential", "halfnormal"]))
    n = int(rng.integers(8000, 60000))
    x = gen.shape(rng, n, kind)
    wk, w = gen.weights(rng, n)
    area = float(rng.uniform(0.3, 0.9))
    df = gen.frame(rng, {"x": x}, w, idx=gen.index(rng, n)[1])
    ctx.describe(n=n, shape=kind, weights=wk, area=area)
    cc = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=df, name="c", summary_area=area))
    b = cc.analysis.get_summary()["c"]["x"]
    what = dict(shape=kind, n=n, weights=wk, area=area, bound=b.array)
    if b.lower is None:
        ctx.count("unconstrained")
        ctx.distinct(kind, wk, n)
        return
    m = gen.mass_in(x, w, b.lower, b.upper)
    ctx.check_that(abs(m - area) <= 0.06, "the MAX interval of a cut-off posterior does not enclose the area", mass=m, **what)
    std = summ.wstd(x, w)
    # samples pile up at one end of the data: that end is (within two blur widths) a bound
    edge = x.min() if abs(np.median(x) - x.min()) < abs(x.max() - np.median(x)) else x.max()
    near = min(abs(b.lower - edge), abs(b.upper - edge))
    ctx.check_that(near <= 0.25 * std, "the MAX interval of a cut-off posterior does not start at the edge", edge=edge, **what)
    ctx.count("cut-off posteriors")
    ctx.distinct(kind, wk, n)


def tails(ctx):
    """Single-peaked densities free of noise (a fine grid): the interval is always found, however deep in the tails."""
    rng = ctx.rng
    m, half = int(rng.integers(600, 4000)), float(rng.uniform(20, 200))
    kind = str(rng.choice(["student", "laplace", "normal", "spike on a pedestal"]))
    x = np.linspace(-half, half, m)
    if kind == "student":
        f = (1 + x**2 / 2) ** -float(rng.uniform(1, 2.5))
    elif kind == "laplace":
        f = np.exp(-np.abs(x) / float(rng.uniform(0.5, 4)))
    elif kind == "normal":
        f = np.exp(-0.5 * (x / half * 8) ** 2)
    else:
        narrow, wide = float(rng.uniform(0.5, 2)), half / float(rng.uniform(4, 10))
        f = np.exp(-0.5 * (x / narrow) ** 2) / narrow + np.exp(-0.5 * (x / wide) ** 2) / wide
    f = np.maximum(f / f.max(), 1e-12)
    f /= f.sum()
    area = float(rng.choice([rng.uniform(0.3, 0.9), rng.uniform(0.9, 0.995)]))
    magnitude, scale = 10.0 ** float(rng.uniform(-4, 4)), 10.0 ** float(rng.uniform(-3, 5))
    order = rng.permutation(m)
    df = pd.DataFrame({"x": (x * magnitude)[order], "weight": (f * scale)[order]})
    ctx.describe(kind=kind, points=m, half=half, area=area, magnitude=magnitude)
    b = ChainConsumer().add_chain(gen.chain(rng, samples=df, name="c", grid=True, summary_area=area)).analysis.get_summary()["c"]["x"]
    what = dict(kind=kind, points=m, half=half, area=area, bound=b.array, magnitude=magnitude)
    # the area grows in steps of 2 * m * density / 10000 at the ends of the interval, on the fine grid used for the search
    falling = np.sort(f)[::-1]
    level = falling[min(int(np.searchsorted(np.cumsum(falling), area - 0.01)), m - 1)]
    if f.max() > 0.06 or level * m > 12:
        ctx.count("tails: peak too coarse")
        return
    ctx.count("tails")
    if area > 0.9:
        ctx.count("tails: large areas")
    if not ctx.check_that(b.lower is not None and b.upper is not None, "a noise-free single-peaked parameter is reported as unconstrained", **what):
        return
    lo, hi = b.lower / magnitude, b.upper / magnitude
    step = x[1] - x[0]
    mass = float(f[(x >= lo) & (x <= hi)].sum())
    tol = 0.004 + 1.5 * float(f.max())
    ctx.check_that(abs(mass - area) <= tol, "the MAX interval of a noise-free density does not enclose the area", mass=mass, tolerance=tol, **what)
    ctx.check_that(abs(lo + hi) <= 3 * step + 0.02 * (hi - lo), "the MAX interval of a symmetric density is not symmetric", lower=lo, upper=hi, step=step, **what)
    ctx.check_that(abs(b.center / magnitude) <= 1.5 * step, "the MAX centre is not where the density peaks", **what)
    ctx.distinct("tails", kind, m, round(area, 3))


def central(ctx):
    """Evenly spread samples of a normal distribution, estimated with a kernel or a histogram: the iso-density interval is the central one."""
    rng = ctx.rng
    n = int(10 ** rng.uniform(2.8, 3.6))
    x = stats.norm.ppf((np.arange(n) + 0.5) / n)
    w = None
    if rng.uniform() < 0.4:
        # the same distribution, its centre sampled twice as densely as its tails
        w = 0.5 + np.minimum(np.abs(x), 2.0) / 2
        x = np.interp((np.arange(n) + 0.5) / n, np.cumsum(1 / w) / np.sum(1 / w), x)
        w = 0.5 + np.minimum(np.abs(x), 2.0) / 2
    kde = [True, 0.5, 1.5, False][int(rng.choice(4, p=[0.4, 0.2, 0.2, 0.2]))]
    area = float(rng.uniform(0.25, 0.95))
    kw = dict(kde=kde) if kde else dict(smooth=3, bins=30)
    loc, scale = gen.loc_scale(rng)
    order = rng.permutation(n)
    df = gen.frame(rng, {"x": (loc + scale * x)[order]}, None if w is None else w[order])
    ctx.describe(n=n, area=area, weighted=w is not None, **kw)
    got = {}
    for stat in (S.MAX, S.CUMULATIVE):
        got[stat] = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=df, name="c", statistics=stat, summary_area=area, **kw)).analysis.get_summary()["c"]["x"]
    b, c = got[S.MAX], got[S.CUMULATIVE]
    what = dict(n=n, area=area, settings=kw, weighted=w is not None, max=b.array, cumulative=c.array)
    if b.lower is None:
        ctx.count("central: unconstrained")
        ctx.check_that(not kde, "a well-sampled single-peaked parameter is reported as unconstrained", **what)
        return
    sigma = (c.upper - c.lower) / (2 * stats.norm.ppf(0.5 + area / 2))
    mass = stats.norm.cdf((b.upper - c.center) / sigma) - stats.norm.cdf((b.lower - c.center) / sigma)
    ctx.count("central")
    ctx.check_that(abs(mass - area) <= (0.0055 if kde else 0.015), "the MAX interval of a symmetric density is not the central interval of the same area", mass=float(mass), **what)
    ctx.check_that(abs(b.lower + b.upper - 2 * c.center) <= 0.06 * sigma, "the MAX interval of a symmetric density is not symmetric", **what)
    ctx.distinct("central", n, kde, round(area, 3))


def hostile(ctx):
    summ.judge_hostile(ctx, [S.MAX])


CASES = {"central": (central, 200, 4000), "hostile": (hostile, 200, 6000), "max": (case, 2000, 60000), "cut": (cut, 200, 4000), "tails": (tails, 240, 6000)}
REQUIRED = {"central": 100, "tails": 80, "tails: large areas": 30, "tight intervals": 300, "bounded": 500, "cut-off posteriors": 40, "hostile": 60}
