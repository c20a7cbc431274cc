"""Gridded posteriors: marginals, summaries, drawn histograms, axes and contours against sums over the grid."""
import itertools

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_contour, plot_dist
from chainconsumer.statistics import SummaryStatistic as S
from scipy.stats import norm

from vlib import figs, gen

ID = "C26"
TITLE = "gridded posteriors"
RULE = (
    'Each case makes a regular grid of 1-3 dimensions with 9-60 points a side at magnitudes 1e-4..1e4 and a correlated, skewed, heavy-edged, '
    'two-peaked or nearly flat posterior on it, rows in any order, weights at any scale. Its summaries (every statistic and area) are compared '
    'with the sums over the grid, as are the bins and heights of the histograms drawn for it in the four plots and plot_dist, the axes, and which '
    'grid points its contours enclose. A second chain, sampled or gridded, can share the figure. Some grids have only two to four values a side. '
    'Distinct by sizes, posterior, statistic, figure and layout.'
)
PRELOAD = ["matplotlib.pyplot"]


def grid(ctx, d, most, tiny=False):
    rng = ctx.rng
    sizes = [int(rng.integers(2, 5) if tiny else rng.integers(9, most)) for _ in range(d)]
    names = gen.names(rng, d)
    axes, units = {}, []
    for c, m in zip(names, sizes):
        l, s = gen.loc_scale(rng)
        axes[c] = l + s * np.linspace(-float(rng.uniform(2.5, 5)), float(rng.uniform(2.5, 5)), m)
        units.append((axes[c] - l) / s)
    mesh = np.meshgrid(*units, indexing="ij")
    kind = str(rng.choice(["normal", "normal", "skewed", "edge", "two", "flat"]))
    if kind in ("normal", "edge", "flat"):
        a = rng.normal(size=(d, d)) * 0.4 + np.eye(d)
        at = rng.normal(size=d) * 0.7 if kind == "normal" else rng.choice([-3, 3], size=d) if kind == "edge" else np.zeros(d)
        p = np.exp(-0.5 * sum(np.sum([a[i, k] * (mesh[k] - at[k]) for k in range(d)], axis=0) ** 2 for i in range(d)) / (25 if kind == "flat" else 1))
    elif kind == "skewed":
        p = np.prod([np.exp(-0.5 * (m / (0.6 + 0.8 * (m > 0))) ** 2) for m in mesh], axis=0) * (1 + 0.3 * np.tanh(sum(mesh)))
    else:
        p = np.exp(-0.5 * sum(((m + 1.5) / 0.5) ** 2 for m in mesh)) + rng.uniform(0.3, 0.8) * np.exp(-0.5 * sum(((m - 1.5) / 0.6) ** 2 for m in mesh))
    p = (p / p.max() + 1e-7) * (1 + 1e-3 * rng.uniform(size=p.shape))
    rows = np.array(list(itertools.product(*axes.values())))
    w = p.ravel() * 10 ** rng.uniform(-6, 6)
    df = gen.frame(rng, {c: rows[:, k] for k, c in enumerate(names)}, w=w)
    order = rng.permutation(len(df)) if rng.uniform() < 0.8 else np.arange(len(df))
    df = df.iloc[order]
    df.index = gen.index(rng, len(df))[1]
    marg = {c: p.sum(axis=tuple(k for k in range(d) if k != i)) for i, c in enumerate(names)}
    return dict(names=names, axes=axes, p=p, marg=marg, df=df, kind=kind, sizes=sizes)


class Line:
    """The marginal, straight between the grid's values."""

    def __init__(self, v, m):
        self.x = np.linspace(v[0], v[-1], 20001)
        self.y = np.interp(self.x, v, m)
        c = np.concatenate(([0], np.cumsum(0.5 * (self.y[1:] + self.y[:-1]))))
        self.c = c / c[-1]
        self.step, self.span = v[1] - v[0], v[-1] - v[0]

    def q(self, u):
        return np.interp(u, self.c, self.x)

    def mass(self, a, b):
        return float(np.interp(b, self.x, self.c) - np.interp(a, self.x, self.c))

    def at(self, v):
        return float(np.interp(v, self.x, self.y) / self.y.max())

    def narrowest(self, area):
        hi = np.interp(self.c + area, self.c, self.x)
        ok = self.c + area <= 1
        return float(np.min((hi - self.x)[ok]))


def judge_summary(ctx, b, ref, stat, area, where):
    tol = 2e-3 * ref.span + 0.02 * ref.step
    info = dict(where=where, statistic=stat.value, area=area)
    if stat in (S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL):
        lo, hi = ref.q((1 - area) / 2), ref.q((1 + area) / 2)
        ctx.check_that(abs(b.lower - lo) <= tol and abs(b.upper - hi) <= tol, "the interval is not that of the grid's marginal", bound=b.array, want=(lo, hi), **info)
        c = ref.q(0.5) if stat == S.CUMULATIVE else 0.5 * (lo + hi)
        if stat != S.MAX_CENTRAL:
            ctx.check_that(abs(b.center - c) <= tol, "the centre is not that of the grid's marginal", center=b.center, want=c, **info)
    if stat in (S.MAX, S.MAX_CENTRAL):
        ctx.check_that(ref.at(b.center) >= 0.99, "the centre is not where the grid's marginal peaks", center=b.center, density=ref.at(b.center), **info)
    if stat == S.MAX:
        if b.lower is None:
            ctx.count("summaries without an interval")
            return
        m = ref.mass(b.lower, b.upper)
        ends = ref.at(b.lower), ref.at(b.upper)
        edge = b.lower <= ref.x[0] + tol or b.upper >= ref.x[-1] - tol
        ctx.check_that(abs(m - area) <= 0.02 and (edge or abs(ends[0] - ends[1]) <= 0.03), "the interval is not the one of equal density with the area of the grid's marginal", bound=b.array, mass=m, ends=ends, **info)
    if stat == S.HDI:
        m = ref.mass(b.lower, b.upper)
        best = ref.narrowest(area)
        ctx.check_that(abs(m - area) <= 0.02 and b.upper - b.lower <= best + 4 * tol, "the interval is not the narrowest of the grid's marginal", bound=b.array, mass=m, width=b.upper - b.lower, best=best, **info)
        ctx.check_that(abs(ref.mass(b.lower, b.center) - 0.5 * m) <= 0.02, "the centre does not halve the interval's mass", bound=b.array, **info)
    ctx.count("summaries " + stat.value)


def summaries(ctx):
    rng = ctx.rng
    d = int(rng.choice([1, 2, 2, 3]))
    g = grid(ctx, d, {1: 80, 2: 45, 3: 20}[d])
    stat = list(S)[int(rng.integers(5))]
    area = float(rng.choice([0.6827, 0.5, 0.9, 0.9545, rng.uniform(0.3, 0.95)]))
    kw = {} if rng.uniform() < 0.7 else dict(smooth=0)
    ctx.describe(sizes=g["sizes"], posterior=g["kind"], statistic=stat.value, area=area)
    cc = ChainConsumer().add_chain(gen.chain(ctx.rng, samples=g["df"], name="g", grid=True, statistics=stat, summary_area=area, **kw))
    out = cc.analysis.get_summary()["g"]
    ctx.check_that(set(out) == set(g["names"]), "the summary does not have the grid's parameters", got=list(out))
    for c in g["names"]:
        if g["kind"] == "two" and stat in (S.HDI, S.MAX):
            continue
        judge_summary(ctx, out[c], Line(g["axes"][c], g["marg"][c]), stat, area, c)
    # neither the order of the rows nor the scale of the weights matters
    df = g["df"].iloc[rng.permutation(len(g["df"]))].copy()
    df["weight"] = df["weight"] * 10 ** rng.uniform(-5, 5)
    again = ChainConsumer().add_chain(gen.chain(ctx.rng, samples=df, name="g", grid=True, statistics=stat, summary_area=area, **kw)).analysis.get_summary()["g"]
    for c in g["names"]:
        a, b = (np.array([np.nan if v is None else v for v in (t.lower, t.center, t.upper)]) for t in (out[c], again[c]))
        span = np.ptp(g["axes"][c])
        ctx.check_that(np.allclose(a, b, rtol=0, atol=1e-3 * span, equal_nan=True), "the summary depends on the order of the rows or the scale of the weights", column=c, first=a, second=b, statistic=stat.value)
    ctx.distinct("summaries", tuple(g["sizes"]), g["kind"], stat, round(area, 3))


def judge_bars(ctx, cv, g, c, h, turned, where):
    v, m = g["axes"][c], g["marg"][c]
    step = v[1] - v[0]
    if not ctx.check_that(cv["kind"] == "step", "the grid's marginal is not drawn as a histogram", where=where):
        return
    e, got = figs.step_heights(cv, turned)
    want = m / m.sum() / step * h
    tol = 1e-6 * step + 1e-9 * np.abs(v).max()
    ok = ctx.check_that(len(got) == len(v) and np.allclose(e[:, 0], v - step / 2, atol=tol, rtol=0) and np.allclose(e[:, 1], v + step / 2, atol=tol, rtol=0), "the histogram does not have one bin about each value of the grid", where=where, bins=len(got), values=len(v), first=e[:2], grid=v[:2])
    if ok:
        ctx.check_that(np.allclose(got, want, rtol=1e-6, atol=1e-9 * want.max()), "a bin's height is not the sum of the weights at its value", where=where, got=got[:4], want=want[:4], posterior=g["kind"])
    ctx.count("histograms" + (" turned" if turned else ""))


def judge_contours(ctx, ax, z, g, px, py, sigmas, two_d, where):
    """Which points of the grid each filled contour holds."""
    i, j = g["names"].index(px), g["names"].index(py)
    other = tuple(k for k in range(len(g["names"])) if k not in (i, j))
    h = g["p"].sum(axis=other)
    if i > j:
        h = h.T
    x, y = g["axes"][px], g["axes"][py]
    xx, yy = np.meshgrid(x, y, indexing="ij")
    flat = h.ravel()
    o = np.argsort(flat)[::-1]
    cum = np.empty(len(flat))
    cum[o] = np.cumsum(flat[o]) / flat.sum()
    # away from the grid's edge, where a filled contour ends
    pts = np.column_stack([x[0] + (xx.ravel() - x[0]), yy.ravel()])
    inner = np.zeros(h.shape, bool)
    inner[1:-1, 1:-1] = True
    inner = inner.ravel()
    mine = [c for c in figs.contours(ax, filled=True) if abs(c.get_zorder() - z) <= 20]
    if not ctx.check_that(len(mine) == 1, "the grid's filled contours are not drawn once", where=where, drawn=len(mine)):
        return
    s = np.sort(np.asarray(sigmas, float))
    levels = 1 - np.exp(-0.5 * s**2) if two_d else 2 * norm.cdf(s) - 1
    got = figs.filled_regions(mine[0], pts)
    if not ctx.check_that(len(got) == len(levels) - 1, "wrong number of filled contours", where=where, got=len(got)):
        return
    for lv, ins in zip(levels[1:], got):
        top = flat.max() / flat.sum()
        # to within the cell's own share
        slack = 1.01 * flat / flat.sum() + 1e-9
        sure_in = inner & (cum < lv - slack)
        sure_out = inner & (cum > lv + slack)
        # a level below the first cell's own share has nothing to enclose
        if lv <= top * 1.05:
            continue
        missing, extra = (sure_in & ~ins).sum(), (sure_out & ins).sum()
        # the point of highest weight is where the innermost band starts
        ctx.check_that(missing <= 1 and extra == 0, "a contour does not enclose the cells of highest weight", where=where, level=lv, missing=int(missing), extra=int(extra), inside=int(ins.sum()), posterior=g["kind"], x=px, y=py)
        ctx.count("contours")


def figures(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["plot", "plot", "plot", "distributions", "summary", "dist", "contour"]))
    d = int(rng.choice([2, 2, 3])) if kind in ("plot", "contour") else int(rng.choice([1, 2, 3]))
    g = grid(ctx, d, {1: 60, 2: 34, 3: 15}[d])
    sigmas = [[0, 1, 2], [0, 1, 2, 3], [0, 2], [0, 0.7, 1.4], [0, 2, 4], [0, 1, 3.5]][int(rng.integers(6))]
    two_d = bool(rng.uniform() < 0.3)
    h = float(rng.uniform(0.3, 2)) if rng.uniform() < 0.4 else 1.0
    kw = dict(grid=True, sigmas=sigmas, shade=True, color="#1f77b4", shade_alpha=0.4)
    if h != 1.0:
        kw["histogram_relative_height"] = h
    if rng.uniform() < 0.3:
        kw["smooth"] = 0
    if rng.uniform() < 0.3:
        kw["bins"] = int(rng.integers(8, 70))  # a grid has its own
    stat = list(S)[int(rng.integers(5))]
    ctx.describe(figure=kind, sizes=g["sizes"], posterior=g["kind"], sigmas=sigmas, sigma2d=two_d, statistic=stat.value, settings={k: v for k, v in kw.items() if k in ("smooth", "bins")})
    chain = gen.chain(ctx.rng, drawn=True, samples=g["df"], name="g", zorder=1000, statistics=stat, **kw)
    config = PlotConfig(sigma2d=two_d, flip=bool(rng.uniform() < 0.5))
    columns = [str(c) for c in rng.permutation(g["names"])]
    if kind == "dist":
        fig, ax = plt.subplots()
        plot_dist(ax, chain, columns[0], config)
        cv = figs.curves(ax)
        if ctx.check_that(len(cv) == 1, "plot_dist does not draw one histogram", drawn=len(cv)):
            judge_bars(ctx, cv[0], g, columns[0], h, False, "plot_dist")
        ctx.distinct("dist", tuple(g["sizes"]), g["kind"])
        return
    if kind == "contour":
        fig, ax = plt.subplots()
        plot_contour(ax, chain, columns[0], columns[1], config)
        judge_contours(ctx, ax, 1000, g, columns[0], columns[1], sigmas, two_d, "plot_contour")
        ctx.distinct("contour", tuple(g["sizes"]), g["kind"], tuple(sigmas), two_d)
        return
    cc = ChainConsumer()
    second = rng.uniform()
    late = rng.uniform() < 0.5
    if not late:
        cc.add_chain(chain)
    grids = {1000: (g, h)}
    inside = True
    if second < 0.4:
        # another chain of some of the same parameters, inside the grid
        n = 1500
        data = {c: v.mean() + np.ptp(v) / 14 * np.clip(rng.normal(size=n), -4, 4) for c, v in g["axes"].items() if rng.uniform() < 0.8 or c == columns[0]}
        cc.add_chain(Chain(samples=pd.DataFrame(data), name="s", zorder=5000))
    cc.add_chain(chain) if late else None
    cc.set_plot_config(config)
    if kind == "plot":
        fig = cc.plotter.plot(columns=columns)
    elif kind == "distributions":
        fig = cc.plotter.plot_distributions(columns=columns, col_wrap=2)
    else:
        fig = cc.plotter.plot_summary(columns=columns)
    pan = figs.panels(fig)
    row = list(cc.get_names()).index("g")
    where = {}
    for i, c in enumerate(columns):
        if kind == "plot":
            where[c] = pan[i, i]
        elif kind == "distributions":
            where[c] = pan[i // min(2, d), i % min(2, d)]
        else:
            where[c] = pan[row, i + 1]
    for i, c in enumerate(columns):
        turned = kind == "plot" and config.flip and d == 2 and i == 1
        cv = [v for v in figs.curves(where[c]) if abs(v["z"] - 1000) <= 20]
        if ctx.check_that(len(cv) == 1, "the grid's marginal is not drawn once", figure=kind, column=c, drawn=len(cv)):
            judge_bars(ctx, cv[0], g, c, h, turned, f"{kind} {c}")
        lim = where[c].get_ylim() if turned else where[c].get_xlim()
        v = g["axes"][c]
        ctx.check_that(abs(lim[0] - v[0]) <= 1e-6 * np.ptp(v) and abs(lim[1] - v[-1]) <= 1e-6 * np.ptp(v), "an axis does not span the grid", figure=kind, column=c, axis=lim, grid=(v[0], v[-1]))
        ctx.count("axes")
    if kind == "plot":
        for i, j in itertools.combinations(range(d), 2):
            judge_contours(ctx, pan[j, i], 1000, g, columns[i], columns[j], sigmas, two_d, f"{columns[j]} against {columns[i]}")
    ctx.distinct(kind, tuple(g["sizes"]), g["kind"], tuple(sigmas), two_d, config.flip, second < 0.4, stat)


def tiny(ctx):
    """Histograms of grids of two to four values."""
    rng = ctx.rng
    d = int(rng.choice([1, 2]))
    g = grid(ctx, d, 0, True)
    h = float(rng.uniform(0.3, 2)) if rng.uniform() < 0.4 else 1.0
    chain = gen.chain(ctx.rng, drawn=True, samples=g["df"], name="g", grid=True, color="#1f77b4", zorder=1000, **({} if h == 1.0 else dict(histogram_relative_height=h)))
    how = str(rng.choice(["plot_dist", "plot_distributions"]))
    ctx.describe(figure=how, sizes=g["sizes"], posterior=g["kind"])
    for c in g["names"]:
        if how == "plot_dist":
            fig, ax = plt.subplots()
            plot_dist(ax, chain, c, PlotConfig(summarise=False))
        else:
            cc = ChainConsumer().add_chain(chain)
            cc.set_plot_config(PlotConfig(summarise=False))
            fig = cc.plotter.plot_distributions(columns=[c])
            ax = fig.axes[0]
        cv = figs.curves(ax)
        if ctx.check_that(len(cv) == 1, "the grid's marginal is not drawn once", figure=how, drawn=len(cv)):
            judge_bars(ctx, cv[0], g, c, h, False, how)
            ctx.count("histograms of few values")
    ctx.distinct("tiny", tuple(g["sizes"]), how)


CASES = {"summaries": (summaries, 800, 30000), "figures": (figures, 300, 10000), "tiny": (tiny, 60, 1000)}
REQUIRED = {"histograms": 80, "histograms of few values": 40, "contours": 60, "axes": 80, "histograms turned": 8, **{"summaries " + s.value: 60 for s in S}}
