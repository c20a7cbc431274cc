"""Chains with a power against the same chains without, and against the power of a reference density."""
import itertools

import C26
import matplotlib.pyplot as plt
import numpy as np
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_contour, plot_dist
from chainconsumer.statistics import SummaryStatistic as S
from scipy.stats import norm

from vlib import dens2, figs, gen, summ

ID = "C28"
TITLE = "power"
RULE = (
    "Each case gives a chain of weighted samples (any single-peaked shape and magnitude, weights that move the distribution) a power of 0.5-6, with any statistic, smoothing, bins or KDE. Its drawn marginals are compared with the power of those of the chain without, "
    "its summaries and the samples inside its contours with the power of a reference density (for Gaussians with the formula), gridded marginals and contours with powers of sums over the grid, and everything that must not change with the plain chain's. Distinct by shape, power, statistic, settings and figure."
)
PRELOAD = ["matplotlib.pyplot"]


def power_of(rng, lo=0.5, hi=6.0):
    p = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    return float(rng.choice([p, p, 2.0, 0.5 if lo <= 0.5 else 3.0]))


def settings(rng, n):
    r = rng.uniform()
    if r < 0.5:
        return {}
    if r < 0.75:
        return dict(smooth=int(rng.integers(2, 4)), bins=int(rng.integers(25, 40)))
    if r < 0.87:
        return dict(smooth=0, bins=int(rng.integers(20, 30)))
    return dict(kde=float(rng.choice([1.0, 0.7])), bins=12) if n <= 4000 else {}


def two(rng, kw, p, **more):
    """(plain consumer, powered consumer)"""
    a = ChainConsumer().add_chain(Chain(**kw, **more))
    return a, ChainConsumer().add_chain(Chain(power=p, **kw, **more))


def summaries(ctx):
    rng = ctx.rng
    n = int(10 ** rng.uniform(4, 4.7))
    opts = settings(rng, n)
    if rng.uniform() < 0.1:
        n, opts = 3000, dict(kde=1.0)
    shape = str(rng.choice(["normal", "normal", *gen.SMOOTH_UNIMODAL]))
    x = gen.base_shape(rng, n, shape)
    wk, w = gen.tilted(rng, x, None if shape != "normal" else "none")
    l, s = gen.loc_scale(rng)
    p = power_of(rng)
    stat = list(S)[int(rng.integers(5))]
    area = float(rng.choice([0.6827, 0.5, 0.9]))
    name = gen.names(rng, 1)[0]
    df = gen.frame(rng, {name: l + s * x}, w=w)
    df.index = gen.index(rng, n)[1]
    ctx.describe(shape=shape, n=n, weights=wk, power=p, statistic=stat.value, area=area, settings=opts)
    _, b = two(rng, dict(samples=df, name="c", statistics=stat, summary_area=area), p, **opts)
    got = b.analysis.get_summary()["c"][name]
    blur = summ.resolution(x, w, bins=opts.get("bins"), smooth=opts.get("smooth"), kde=opts.get("kde", False), n=n, ncols=df.shape[1])
    cell = blur if opts.get("smooth") == 0 else 0.0
    # an unsmoothed histogram blurs by its cell, not by a Gaussian of that width
    _, _, c, d = summ.density(x, w, max(blur if not cell else 0.3 * cell, 1e-3))
    dp = (d / d.max()) ** p
    q = np.cumsum(dp)
    q /= q[-1]
    sd = float(np.sqrt(np.sum(dp * (c - np.sum(c * dp) / dp.sum()) ** 2) / dp.sum()))
    if cell > 0.3 * sd:
        ctx.count("the powered peak is lost in a cell of the histogram")
        return
    # noise in the tails counts for more under a power below one, that of the peak under one above
    tol = 0.04 + 0.012 * p if p >= 1 else 0.08
    if opts.get("smooth") == 0:
        tol += 0.05
    centre = {S.CUMULATIVE: 0.5}.get(stat)
    info = dict(power=p, statistic=stat.value, area=area, bound=[None if v is None else (v - l) / s for v in (got.lower, got.center, got.upper)], settings=opts, shape=shape)
    if got.lower is None:
        ctx.count("no interval")
        return
    lo, mid, hi = ((v - l) / s for v in (got.lower, got.center, got.upper))
    at = lambda v: float(np.interp(v, c, q))  # noqa: E731
    mass = at(hi) - at(lo)
    ctx.check_that(abs(mass - area) <= tol, "the interval does not hold the area of the powered density", mass=mass, **info)
    if stat in (S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL):
        ctx.check_that(abs(at(lo) - (1 - area) / 2) <= tol and abs(at(hi) - (1 + area) / 2) <= tol, "the interval is not that of the powered density's quantiles", below=(at(lo), at(hi)), **info)
    if centre is not None:
        ctx.check_that(abs(at(mid) - centre) <= tol, "the centre is not the powered density's median", below=at(mid), **info)
    if stat == S.MEAN:
        ctx.check_that(abs(mid - 0.5 * (lo + hi)) <= 1e-6 * (hi - lo) + 1e-9 * abs(l / s), "the centre is not the midpoint", **info)
    if stat in (S.MAX, S.MAX_CENTRAL):
        f = float(np.interp(mid, c, d) / d.max())
        ctx.check_that(f >= (0.9 if opts.get("smooth") != 0 else 0.75), "the centre is not where the density peaks", density=f, **info)
    if stat in (S.MAX, S.HDI):
        widths = np.interp(np.minimum(q + area, 1), q, c) - c
        best = float(np.min(widths[q + area <= 0.9999]))
        ctx.check_that(hi - lo <= best * (1.1 + 0.02 * p) + 0.1 * sd, "the interval is not the narrowest of the powered density", width=hi - lo, best=best, **info)
    ctx.count("summaries compared with a powered density")
    if shape == "normal" and wk == "none" and p >= 0.9 and opts.get("smooth") != 0 and "kde" not in opts:
        z = norm.ppf((1 + area) / 2)
        want = z * np.sqrt(1 / p + blur**2 * (0 if p < 1 else 1))
        ctx.check_that(abs((hi - lo) / (2 * want) - 1) <= 0.1 + 0.015 * p and abs(0.5 * (lo + hi)) <= (0.12 if stat not in (S.MAX, S.HDI) else 0.25) * want + 0.05, "the interval of a Gaussian does not shrink by the square root of the power", width=hi - lo, want=2 * want, **info)
        ctx.count("Gaussian summaries")
    ctx.distinct("summaries", shape, wk, round(p, 2), stat, tuple(opts.items()), area)


def curves(ctx):
    """The drawn marginal is the plain one to the power."""
    rng = ctx.rng
    n = int(rng.integers(2000, 8000))
    opts = settings(rng, n)
    if opts.get("kde"):
        n = min(n, 2500)
    names = gen.names(rng, 2)
    data = {c: gen.shape(rng, n, str(rng.choice(gen.SMOOTH_UNIMODAL))) for c in names}
    wk, w = gen.tilted(rng, data[names[0]])
    df = gen.frame(rng, data, w=w)
    df.index = gen.index(rng, n)[1]
    p = power_of(rng)
    h = float(rng.uniform(0.3, 2)) if rng.uniform() < 0.4 else None
    if h:
        opts["histogram_relative_height"] = h
    alone = rng.uniform() < 0.4
    kind = str(rng.choice(["plot", "distributions", "summary"]))
    flip = bool(rng.uniform() < 0.5)
    ctx.describe(figure="plot_dist" if alone else kind, power=p, settings=opts, weights=wk, n=n)
    got = []
    if alone:
        for q in ({}, dict(power=p)):
            fig, ax = plt.subplots()
            plot_dist(ax, gen.chain(rng, drawn=True, samples=df, name="c", color="red", **opts, **q), names[0])
            got.append([figs.curves(ax)])
    else:
        a, b = two(rng, dict(samples=df, name="c"), p, **opts)
        for cc in (a, b):
            cc.set_plot_config(PlotConfig(flip=flip, summarise=False))
            if kind == "plot":
                pan = figs.panels(cc.plotter.plot(columns=names))
                got.append([figs.curves(pan[i, i]) for i in range(2)])
            elif kind == "distributions":
                pan = figs.panels(cc.plotter.plot_distributions(columns=names, col_wrap=2))
                got.append([figs.curves(pan[0, i]) for i in range(2)])
            else:
                pan = figs.panels(cc.plotter.plot_summary(columns=names))
                got.append([figs.curves(pan[0, i + 1]) for i in range(2)])
    for i, (u, v) in enumerate(zip(*got)):
        turned = kind == "plot" and flip and i == 1 and not alone
        if not ctx.check_that(len(u) == len(v) == 1, "a marginal is not drawn once", plain=len(u), powered=len(v)):
            continue
        (u,), (v,) = u, v
        ux, uy = (u["y"], u["x"]) if turned else (u["x"], u["y"])
        vx, vy = (v["y"], v["x"]) if turned else (v["x"], v["y"])
        g = np.linspace(max(ux.min(), vx.min()), min(ux.max(), vx.max()), 400)
        if u["kind"] == "step":
            e, _ = figs.step_heights(u, turned)
            g = e.mean(axis=1)
        a, b = figs.evaluate(u, g, turned), figs.evaluate(v, g, turned)
        a = (a / a.max()) ** p
        b = b / b.max()
        tol = 1e-9 if u["kind"] == "step" else 0.03 + 0.003 * p
        ctx.check_that(np.abs(a - b).max() <= tol, "the drawn marginal is not the power of the plain one", figure=ctx.desc["figure"], off=np.abs(a - b).max(), power=p, settings=opts)
        if u["kind"] == "line" and opts.get("kde") and alone:
            area = figs.curve_area(vx, vy) / (h or 1)
            ctx.check_that(abs(area - 1) <= 0.02, "a powered kernel density estimate does not have unit area", area=area)
        ctx.count("curves compared")
    ctx.distinct("curves", alone, kind, round(p, 2), tuple(opts.items()), wk, flip)


def contours(ctx):
    rng = ctx.rng
    opts = settings(rng, 3000)
    if opts.get("smooth") == 0:
        opts = {}
    n = 3000 if opts.get("kde") else int(rng.integers(8000, 25000))
    kind = str(rng.choice(["normal", "banana", "skewed", "wedge"]))
    x, y = dens2.joint(rng, n, kind)
    wk, w = dens2.tilt(rng, x, y)
    (lx, sx), (ly, sy) = gen.loc_scale(rng), gen.loc_scale(rng)
    x, y = lx + sx * x, ly + sy * y
    p = power_of(rng, 0.7, 3.0)
    names = gen.names(rng, 2)
    df = gen.frame(rng, {names[0]: x, names[1]: y}, w=w)
    df.index = gen.index(rng, n)[1]
    sigmas = [[0, 1, 2], [0, 1], [0, 0.8, 1.6]][int(rng.integers(3))]
    two_d = bool(rng.uniform() < 0.4)
    ctx.describe(kind=kind, n=n, weights=wk, power=p, settings=opts, sigmas=sigmas, sigma2d=two_d)
    cfg = PlotConfig(sigma2d=two_d)
    if rng.uniform() < 0.5:
        fig, ax = plt.subplots()
        plot_contour(ax, gen.chain(rng, drawn=True, samples=df, name="c", color="blue", sigmas=sigmas, shade=True, shade_alpha=0.3, power=p, **opts), names[0], names[1], cfg)
    else:
        _, b = two(rng, dict(samples=df, name="c", sigmas=sigmas, shade=True), p, **opts)
        b.set_plot_config(cfg)
        ax = figs.panels(b.plotter.plot(columns=names))[1, 0]
    s = np.asarray(sigmas, float)
    levels = 1 - np.exp(-0.5 * s**2) if two_d else 2 * norm.cdf(s) - 1
    ref = dens2.reference(x, y, w, bins=opts.get("bins"), smooth=opts.get("smooth"), kde=opts.get("kde", False), power=p, ncols=2)
    f = ref.at(x, y)
    ww = (np.ones(n) if w is None else w) * np.maximum(f, 1e-12) ** (1 - 1 / p)
    ww = ww / ww.sum()
    mine = [c for c in figs.contours(ax) if c.filled]
    if not ctx.check_that(len(mine) == 1, "the contours are not drawn once", drawn=len(mine)):
        return
    got = figs.filled_regions(mine[0], np.column_stack([x, y]))
    if not ctx.check_that(len(got) == len(levels) - 1, "wrong number of filled contours", got=len(got)):
        return
    for lv, g in zip(levels[1:], got):
        want = f >= ref.level(lv)
        m, mr, d = ww[g].sum(), ww[want].sum(), ww[g != want].sum()
        tol = 0.05 + 0.01 * p if p >= 1 else 0.08  # noise counts p times
        ctx.check_that(abs(m - mr) <= tol and d <= 1.6 * tol + 0.01, "a contour does not enclose the region of the powered density", level=lv, held=m, reference=mr, differ=d, power=p, settings=opts, kind=kind, weights=wk)
        ctx.count("contours compared")
    ctx.distinct("contours", kind, wk, round(p, 2), tuple(opts.items()), tuple(sigmas), two_d)


def grids(ctx):
    rng = ctx.rng
    d = int(rng.choice([1, 2]))
    g = C26.grid(ctx, d, {1: 60, 2: 30}[d])
    p = power_of(rng, 0.15) if rng.uniform() < 0.5 else power_of(rng)
    stat = list(S)[int(rng.integers(5))]
    ctx.describe(sizes=g["sizes"], posterior=g["kind"], power=p, statistic=stat.value)
    chain = gen.chain(rng, drawn=True, samples=g["df"], name="g", grid=True, power=p, statistics=stat, zorder=1000, sigmas=[0, 1, 2], shade=True, color="#1f77b4", shade_alpha=0.3)
    cc = ChainConsumer().add_chain(chain)
    out = cc.analysis.get_summary()["g"]
    for c in g["names"]:
        if not (g["kind"] == "two" and stat in (S.HDI, S.MAX)):
            C26.judge_summary(ctx, out[c], C26.Line(g["axes"][c], (g["marg"][c] / g["marg"][c].max()) ** p), stat, 0.6827, f"{c} power {p:.2f}")
    fig = cc.plotter.plot(columns=g["names"]) if d == 2 else cc.plotter.plot_distributions()
    pan = figs.panels(fig)
    for i, c in enumerate(g["names"]):
        cv = figs.curves(pan[(i, i) if d == 2 else (0, 0)])
        turned = d == 2 and i == 1 and cc.plotter.config.flip
        if ctx.check_that(len(cv) == 1, "a marginal is not drawn once", drawn=len(cv)):
            e, h = figs.step_heights(cv[0], turned)
            want = (g["marg"][c] / g["marg"][c].max()) ** p
            ctx.check_that(len(h) == len(want) and np.allclose(h / h.max(), want, atol=1e-6), "a gridded marginal is not the power of the sums", column=c, power=p)
            ctx.count("gridded marginals")
    fig, ax = plt.subplots()
    plot_dist(ax, chain, g["names"][-1])
    cv = figs.curves(ax)
    if ctx.check_that(len(cv) == 1, "plot_dist does not draw a marginal once", drawn=len(cv)):
        _, h = figs.step_heights(cv[0], False)
        want = (g["marg"][g["names"][-1]] / g["marg"][g["names"][-1]].max()) ** p
        ctx.check_that(len(h) == len(want) and np.allclose(h / h.max(), want, atol=1e-6), "a gridded marginal of plot_dist is not the power of the sums", power=p)
    if d == 2:
        C26.judge_contours(ctx, pan[1, 0], 1000, g | {"p": (g["p"] / g["p"].max()) ** p}, g["names"][0], g["names"][1], [0, 1, 2], False, f"power {p:.2f}")
    ctx.distinct("grids", tuple(g["sizes"]), g["kind"], round(p, 2), stat)


def unchanged(ctx):
    rng = ctx.rng
    n = 2 * int(rng.integers(300, 2000))
    names = gen.names(rng, int(rng.integers(2, 4)))
    data = {c: gen.shape(rng, n, str(rng.choice(gen.SMOOTH_UNIMODAL))) for c in names}
    wk, w = gen.tilted(rng, data[names[0]])
    lp = -rng.exponential(size=n)
    df = gen.frame(rng, data, w=w, logp=lp)
    df.index = gen.index(rng, n)[1]
    p = power_of(rng)
    kw = dict(samples=df, name="c", walkers=2, num_free_params=3, num_eff_data_points=50, plot_point=True, bins=12)
    ctx.describe(columns=names, n=n, power=p, weights=wk)
    a, b = two(rng, kw, p)
    ca, cb = a.get_chain("c"), b.get_chain("c")
    ctx.check_that(ca.samples.equals(cb.samples), "the samples changed")
    ctx.check_that(np.array_equal(ca.get_covariance().matrix, cb.get_covariance().matrix) and np.array_equal(ca.get_correlation().matrix, cb.get_correlation().matrix), "the covariance or correlation changed")
    ctx.check_that(a.analysis.get_max_posteriors() == b.analysis.get_max_posteriors(), "the maximum posterior changed")
    ctx.check_that(a.comparison.dic() == b.comparison.dic() and a.comparison.aic() == b.comparison.aic() and a.comparison.bic() == b.comparison.bic(), "an information criterion changed")
    ctx.check_that(a.diagnostic.gelman_rubin() == b.diagnostic.gelman_rubin(), "a diagnostic changed")
    ctx.check_that([c.samples.equals(d.samples) for c, d in zip(ca.divide(), cb.divide())] == [True, True], "the walkers changed")
    ctx.check_that(figs.fingerprint(a.plotter.plot_walks()) == figs.fingerprint(b.plotter.plot_walks()), "the walks changed")
    pa, pb = figs.panels(a.plotter.plot(columns=names)), figs.panels(b.plotter.plot(columns=names))
    for where in pa:
        i, j = where
        if j < i:
            u, v = ([np.asarray(s.get_offsets()).tolist() for s in figs.scatters(q[where])] for q in (pa, pb))
            ctx.check_that(u == v and len(u) == 1, "the drawn point moved", panel=where, plain=u, powered=v)
            ctx.check_that(pa[where].get_xlim() == pb[where].get_xlim() and pa[where].get_ylim() == pb[where].get_ylim(), "an axis changed", panel=where)
    # a power of one is none
    one = ChainConsumer().add_chain(Chain(power=float(1) if rng.uniform() < 0.5 else 1, **kw))
    ctx.check_that(figs.fingerprint(one.plotter.plot(columns=names)) == figs.fingerprint(a.plotter.plot(columns=names)), "a power of one changes the figure")
    ctx.check_that(one.analysis.get_summary() == a.analysis.get_summary(), "a power of one changes the summary")
    ctx.count("chains left unchanged")
    ctx.distinct("unchanged", tuple(names), n, round(p, 2), wk)


CASES = {"summaries": (summaries, 400, 12000), "curves": (curves, 90, 2500), "contours": (contours, 60, 1500), "grids": (grids, 120, 3000), "unchanged": (unchanged, 25, 500)}
REQUIRED = {"summaries compared with a powered density": 250, "Gaussian summaries": 50, "curves compared": 80, "contours compared": 60, "gridded marginals": 80, "chains left unchanged": 15}
BATCH = 4
