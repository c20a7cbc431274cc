"""Kernel density estimates against a direct sum over the samples, alone and in what is summarised and drawn."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from chainconsumer.kde import MegKDE
from chainconsumer.plotting import plot_dist
from chainconsumer.statistics import SummaryStatistic as S
from scipy.spatial.distance import cdist

from vlib import dens2, figs, gen

ID = "C25"
TITLE = "kernel density estimates"
RULE = (
    'Estimator cases train on 10-20 000 samples of 1-4 correlated dimensions with any shape, scale and weights, factor, truncation and nmin, and '
    'evaluate at targets inside, at the edge of and far outside the samples (up to 4 000 of them); every value is compared with the sum over all '
    'samples worked out directly, and again after a random invertible affine map and a rescaling of the weights. Drawn cases compare the curves '
    'of plot and plot_dist, the summaries and the contours of a chain with a kde value with the same direct sum. Some samples have over 50 000 '
    'rows. Distinct by dimension, sizes, settings and weights.'
)
PRELOAD = ["matplotlib.pyplot"]


def cloud(rng, n, d):
    x = np.column_stack([gen.base_shape(rng, n, str(rng.choice(gen.SMOOTH_UNIMODAL + ["uniform", "exponential", "bimodal"]))) for _ in range(d)])
    m = rng.normal(size=(d, d)) * 0.5 + np.eye(d)
    while np.linalg.cond(m) > 15:
        m = rng.normal(size=(d, d)) * 0.5 + np.eye(d)
    s = 10 ** rng.uniform(-5, 5, size=d)
    return (x @ m) * s + s * rng.normal(size=d) * rng.choice([0, 1, 30])


def sphere(train, w, targets):
    """Distances of every target from every sample in the metric of the weighted covariance."""
    mean = (train * w[:, None]).sum(axis=0) / w.sum()
    dx = train - mean
    cov = (dx * w[:, None]).T @ dx / (w.sum() - (w * w).sum() / w.sum())
    sd = np.sqrt(np.diag(cov))
    corr = cov / np.outer(sd, sd)
    root = np.linalg.inv(np.linalg.cholesky(corr))
    return cdist((targets - mean) / sd @ root.T, dx / sd @ root.T)


def direct(train, w, targets, factor, truncation, nmin):
    """(lowest, value, highest): samples on the very edge of the radius may or may not count."""
    n, d = train.shape
    bw = 2 * factor * n ** (-1 / (4 + d))
    lo, mid, hi = np.empty((3, len(targets)))
    for s in range(0, len(targets), 200):
        r = sphere(train, w, targets[s : s + 200])
        k = np.exp(-0.5 * (r / bw) ** 2) * w
        cut = truncation * bw
        for out, c in ((lo, cut * (1 - 1e-9)), (mid, cut), (hi, cut * (1 + 1e-9))):
            near = r <= c
            v = np.where(near, k, 0).sum(axis=1)
            few = near.sum(axis=1) < nmin
            if few.any():
                j = np.argpartition(r[few], nmin - 1, axis=1)[:, :nmin]
                v[few] = np.take_along_axis(k[few], j, axis=1).sum(axis=1)
            out[s : s + 200] = v
    return np.minimum(np.minimum(lo, mid), hi), mid, np.maximum(np.maximum(lo, mid), hi)


def agree(ctx, got, ref, what, **info):
    lo, mid, hi = ref
    i = int(np.argmax(mid))
    if mid[i] < 1e-200:
        ctx.check_that(np.all((got >= 0) & (got < 1e-150)), what + ": a density where there is none to speak of", got=got[:3], **info)
        return None
    c = got[i] / mid[i]
    ok = np.isfinite(c) and c > 0
    ctx.check_that(ok, what + ": no density at the densest target", got=got[i], want=mid[i], **info)
    if not ok:
        return None
    g = got / c
    # far values are the exponential of a large number, so its rounding counts
    rel = 1e-7 * (1 + np.abs(np.log(np.maximum(hi, 1e-300) / mid[i])))
    bad = (g < lo * (1 - rel) - 1e-290) | (g > hi * (1 + rel) + 1e-290) | ~np.isfinite(g)
    ctx.check_that(not bad.any(), what, wrong=int(bad.sum()), of=len(g), got=g[bad][:3], want=mid[bad][:3], where=np.flatnonzero(bad)[:3], **info)
    ctx.count("densities compared", len(g))
    return c


def estimator(ctx):
    rng = ctx.rng
    d = int(rng.choice([1, 1, 2, 2, 3, 4]))
    big = rng.uniform() < 0.08
    n = int(rng.integers(8000, 20000)) if big else int(10 ** rng.uniform(1, 3.2))
    n = max(n, 5 * d)
    train = cloud(rng, n, d)
    wk, w = gen.weights(rng, n)
    if rng.uniform() < 0.5:
        wk, w = gen.tilted(rng, train[:, 0])
    nt = int(rng.integers(500, 1500)) if big else int(rng.integers(2, 400))
    if big and rng.uniform() < 0.6:
        # as many pairs of targets and samples as may be worked on at a time, or just about
        nt = max(1, int(rng.choice([1, 2, 3])) * (5_000_000 // n) + int(rng.choice([-1, 0, 1])))
    elif rng.uniform() < 0.05:
        nt = 1
    j = rng.integers(0, n, size=nt)
    s = train.std(axis=0)
    targets = train[j] + s * rng.normal(size=(nt, d)) * rng.choice([0, 0.05, 0.5, 3, 12], size=(nt, 1))
    kw = {}
    if rng.uniform() < 0.6:
        kw["factor"] = float(10 ** rng.uniform(-1.2, 0.5))
    if rng.uniform() < 0.4:
        kw["truncation"] = float(rng.choice([0.7, 2.0, 4.0, 6.0]))
    if rng.uniform() < 0.4:
        kw["nmin"] = int(rng.integers(1, min(n, 15)))
    full = dict(factor=1.0, truncation=3.0, nmin=4) | kw
    flat = d == 1 and rng.uniform() < 0.5
    given = train[:, 0].copy() if flat else train.copy()
    gw = None if w is None else w.copy()
    kde = MegKDE(given, gw, **kw) if w is not None or rng.uniform() < 0.5 else MegKDE(given, **kw)
    ask = targets[:, 0].copy() if d == 1 and (flat or rng.uniform() < 0.5) else targets.copy()
    ctx.describe(dimensions=d, samples=n, weights=wk, targets=nt, settings=kw, one_dimensional_array=flat)
    got = np.asarray(kde.evaluate(ask))
    ww = np.ones(n) if w is None else w
    if not ctx.check_that(got.shape == (nt,), "the estimate does not have a value for each target", shape=got.shape, targets=nt):
        return
    c = agree(ctx, got, direct(train, ww, targets, **full), "the estimate is not the sum of its kernels", dimensions=d, settings=full, weights=wk)
    again = np.asarray(kde.evaluate(ask[: max(1, nt // 2)]))
    a, b = again, got[: len(again)]
    off = np.abs(a - b) > (1e-6 * (1 + np.abs(np.log(np.maximum(b, 1e-300) / b.max())))) * np.maximum(a, b)
    ctx.check_that(not off.any(), "the estimate at a target depends on the other targets", got=a[off][:3], want=b[off][:3])
    # a request of far targets alone, one by one and together
    order = np.argsort(got)[: int(rng.integers(1, 6))]
    for pick in [order, *(order[i : i + 1] for i in range(len(order)))]:
        far, b = np.asarray(kde.evaluate(ask[pick])), got[pick]
        off = np.abs(far - b) > (1e-6 * (1 + np.abs(np.log(np.maximum(b, 1e-300) / got.max())))) * np.maximum(far, b) + 1e-290
        ctx.check_that(not off.any(), "the estimate at far targets depends on the other targets", got=far[off][:3], want=b[off][:3])
    ctx.check_that(np.array_equal(given.reshape(n, -1), train) and (w is None or np.array_equal(gw, w)), "the training samples were changed")
    # another metric for the same samples, and another scale for the same weights
    m = rng.normal(size=(d, d))
    while np.linalg.cond(m) > 30:
        m = rng.normal(size=(d, d))
    unit = train.std(axis=0)
    m = (m / unit[:, None]) * 10 ** rng.uniform(-4, 4, size=d)
    b = rng.normal(size=d) * np.abs(m * unit[:, None]).sum(axis=0)
    a = 10 ** rng.uniform(-8, 8)
    moved = MegKDE(train @ m + b, ww * a, **kw).evaluate(targets @ m + b)
    if c is not None:
        r = direct(train, ww, targets, **full)
        slack = 1e-5
        lo, mid, hi = r
        g = moved / moved.max() * got.max()
        rel = slack * (1 + np.abs(np.log(np.maximum(got, 1e-300) / got.max())))
        edge = (hi - lo) / np.maximum(mid, 1e-300)
        bad = np.abs(g - got) > (rel + 1.01 * edge) * np.maximum(g, got) + 1e-290
        # a sample within rounding of the radius
        ctx.check_that(bad.mean() <= 0.01, "the estimate does not follow an affine map of the samples or a scale of the weights", wrong=int(bad.sum()), of=nt, got=g[bad][:3], want=got[bad][:3], dimensions=d)
        ctx.count("densities compared after an affine map", nt)
    few = (np.sum(sphere(train, ww, targets[:50]) <= full["truncation"] * 2 * full["factor"] * n ** (-1 / (4 + d)), axis=1) < full["nmin"]).sum()
    ctx.count("targets with too few samples near", int(few))
    ctx.count(f"estimators in {d} dimensions")
    ctx.distinct("estimator", d, n, nt, tuple(kw), wk)


def long(ctx):
    """Chains as long as they come, their rows in order."""
    rng = ctx.rng
    d = int(rng.choice([1, 2, 2]))
    n = int(rng.integers(55_000, 125_000))
    train = cloud(rng, n, d)
    wk, w = gen.tilted(rng, train[:, 0])
    o = np.argsort(train[:, int(rng.integers(d))])
    train, w = train[o], None if w is None else w[o]
    j = rng.integers(0, n, size=50)
    targets = train[j] + train.std(axis=0) * rng.normal(size=(50, d)) * rng.choice([0, 0.05, 1], size=(50, 1))
    kw = {} if rng.uniform() < 0.5 else dict(factor=float(rng.uniform(0.1, 0.8)))
    ctx.describe(dimensions=d, samples=n, weights=wk, settings=kw)
    got = np.asarray(MegKDE(train.copy(), None if w is None else w.copy(), **kw).evaluate(targets.copy()))
    agree(ctx, got, direct(train, np.ones(n) if w is None else w, targets, **(dict(factor=1.0, truncation=3.0, nmin=4) | kw)), "the estimate of a long chain is not the sum of its kernels", dimensions=d, settings=kw, weights=wk)
    ctx.count("long chains")
    ctx.distinct("long", d, n, wk, tuple(kw))


def specification(ctx, widest):
    rng = ctx.rng
    n = int(rng.integers(800, 2500))
    x, y = dens2.joint(rng, n, str(rng.choice(["normal", "banana", "skewed", "wedge"])))
    wk, w = dens2.tilt(rng, x, y)
    sx, sy = 10 ** rng.uniform(-4, 4, size=2)
    lx, ly = rng.normal(size=2) * rng.choice([0, 20])
    names = gen.names(rng, 2)
    data = {names[0]: (x + lx) * sx, names[1]: (y + ly) * sy}
    f = min(rng.choice([0.4, 0.7, 1.0, 1.5, 2.2, 3.0]), widest)
    kde = True if f == 1.0 and rng.uniform() < 0.6 else 1 if f == 1.0 and rng.uniform() < 0.5 else float(f)
    if rng.uniform() < 0.15:
        kde, f = 2, 2.0
    df = gen.frame(rng, data, w=w)
    df.index = gen.index(rng, n)[1]
    kw = dict(kde=kde, bins=int(rng.integers(10, 16)))
    if rng.uniform() < 0.4:
        kw["smooth"] = int(rng.choice([0, 2]))
    ctx.describe(samples=n, kde=kde, weights=wk, settings=kw)
    return data, (np.ones(n) if w is None else w), float(f), df, kw, wk


def marginal(v, w, f, at):
    m = np.sum(v * w) / w.sum()
    sd = np.sqrt(np.sum(w * (v - m) ** 2) / (w.sum() - (w * w).sum() / w.sum()))
    bw = 2 * f * len(v) ** (-0.2) * sd
    r = np.abs(at[:, None] - v[None, :]) / bw
    return np.where(r <= 3, w * np.exp(-0.5 * r * r), 0).sum(axis=1), bw, sd


def judge(ctx, at, h, v, w, f, what, **info):
    ref, bw, sd = marginal(v, w, f, at)
    if not ctx.check_that(len(at) >= 15 and h.max() > 0, what + ": nothing drawn", **info):
        return
    g = h * np.dot(h, ref) / np.dot(h, h)
    off = np.abs(g - ref).max() / ref.max()
    ctx.check_that(off <= 0.02, what, off=off, factor=f, bandwidth=bw, spread=sd, **info)
    ctx.count("curves compared")


def drawn(ctx):
    rng = ctx.rng
    data, w, f, df, kw, wk = specification(ctx, 3.0)
    alone = rng.uniform() < 0.35
    columns = [str(c) for c in rng.permutation(list(data))]
    if alone:
        import matplotlib.pyplot as plt

        fig, ax = plt.subplots()
        c = columns[0]
        chain = Chain(samples=df, name="k", color="blue", shade=False, **kw)
        plot_dist(ax, chain, c)
        cv = figs.curves(ax)
        if ctx.check_that(len(cv) == 1, "plot_dist does not draw one curve", drawn=len(cv)):
            judge(ctx, cv[0]["x"], cv[0]["y"], data[c], w, f, "the curve of plot_dist is not the kernel density estimate", column=c, weights=wk)
        ctx.count("plot_dist")
    else:
        cc = ChainConsumer().add_chain(Chain(samples=df, name="k", sigmas=[1, 2], shade=False, **kw))
        fig = cc.plotter.plot(columns=columns)
        pan = figs.panels(fig)
        for i, c in enumerate(columns):
            cv = figs.curves(pan[i, i])
            turned = False
            if not ctx.check_that(len(cv) == 1, "a marginal is not drawn once", column=c, drawn=len(cv)):
                continue
            a, h = cv[0]["x"], cv[0]["y"]
            if pan[i, i].get_ylim()[0] != 0 or (i == 1 and abs(np.mean(cv[0]["y"]) - data[c].mean()) < abs(np.mean(cv[0]["x"]) - data[c].mean()) and cc.plotter.config.flip):
                turned = True
            if turned:
                a, h = h, a
            judge(ctx, a, h, data[c], w, f, "a drawn marginal is not the kernel density estimate", column=c, weights=wk)
        px, py = columns
        ref = dens2.KDensity(data[px], data[py], w, f)
        got = [p for cs in figs.contours(pan[1, 0], filled=False) for p in cs.get_paths()]
        levels = sorted(ref.level(m) for m in (1 - np.exp(-0.5), 1 - np.exp(-2.0))) if False else sorted(ref.level(m) for m in (0.6827, 0.9545))
        values = []
        for p in got:
            v = np.concatenate([q for q in figs.polygons(p)]) if len(p.vertices) else np.empty((0, 2))
            if len(v) >= 8:
                values.append(ref.at(v[:, 0], v[:, 1]))
        if ctx.check_that(len(values) == 2, "a contour is missing", drawn=len(values)):
            for z, want in zip(sorted(values, key=np.median), levels):
                # the grid is coarse
                ctx.check_that(abs(np.median(z) - want) <= (0.03 + 0.06 * want) * (1 if f <= 1 else 1.8) and np.quantile(np.abs(z - np.median(z)), 0.9) <= 0.06, "a contour is not one of the kernel density estimate", at=np.quantile(z, [0.05, 0.5, 0.95]), want=want, factor=f, weights=wk)
                ctx.count("contours compared")
    ctx.distinct("drawn", alone, kw["kde"], kw.get("smooth"), wk)


def summarised(ctx):
    """Quantiles of the estimate, cut off where the samples end."""
    rng = ctx.rng
    data, w, f, df, kw, wk = specification(ctx, 2.2)
    area = float(rng.choice([0.5, 0.6827, 0.9]))
    stat = [S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL, S.MAX][int(rng.integers(4))]
    out = ChainConsumer().add_chain(Chain(samples=df, name="k", statistics=stat, summary_area=area, **kw)).analysis.get_summary()["k"]
    smooth = kw.get("smooth", 3)
    cells = kw["bins"] * (2 * smooth if smooth else 1)
    for c, v in data.items():
        # the estimate is cut off in the middle of the outermost cells
        half = 0.5 * np.ptp(v) / (cells - 1)
        g = np.linspace(v.min() + half, v.max() - half, 1500)
        ref, bw, sd = marginal(v, w, f, g)
        q = np.cumsum(ref) / ref.sum()
        o = np.sort(v)  # or it is cut off at the next samples, as the outermost ones hardly count
        b = out[c]
        ctx.count("summaries compared")
        slack = 0.035 * sd + 0.01 * np.ptp(v)
        if stat != S.MAX:
            inner = (g >= o[2] + half) & (g <= o[-3] - half)
            q2 = np.cumsum(ref[inner]) / ref[inner].sum()
            want = np.array([np.interp([(1 - area) / 2, (1 + area) / 2], q, g), np.interp([(1 - area) / 2, (1 + area) / 2], q2, g[inner])])
            lo, hi = want.min(axis=0) - slack, want.max(axis=0) + slack
            ctx.check_that(lo[0] <= b.lower <= hi[0] and lo[1] <= b.upper <= hi[1], "a summary's interval is not that of the kernel density estimate", column=c, bound=b.array, want=want, factor=f, spread=sd, area=area)
        if stat in (S.MAX, S.MAX_CENTRAL):
            at = np.interp(b.center, g, ref) / ref.max()
            ctx.check_that(at >= 0.97, "a summary's centre is not at the peak of the kernel density estimate", column=c, center=b.center, density=at, peak=g[np.argmax(ref)], factor=f)
        if stat == S.CUMULATIVE:
            ctx.check_that(abs(b.center - np.interp(0.5, q, g)) <= slack, "a summary's centre is not the median of the kernel density estimate", column=c, center=b.center, want=np.interp(0.5, q, g), factor=f)
        if stat == S.MAX and b.lower is not None:
            ends = np.interp([b.lower, b.upper], g, ref) / ref.max()
            inner = abs(ends[0] - ends[1]) <= 0.05 or b.lower <= o[2] + half + slack or b.upper >= o[-3] - half - slack
            mass = np.interp(b.upper, g, q) - np.interp(b.lower, g, q)
            most = mass / (np.interp(o[-3] - half, g, q) - np.interp(o[2] + half, g, q))
            ctx.check_that(inner and mass - 0.05 <= area <= most + 0.05, "a summary's interval is not the one of the kernel density estimate", column=c, bound=b.array, ends=ends, mass=mass, area=area, factor=f)
    ctx.distinct("summarised", stat, kw["kde"], kw.get("smooth"), wk, area)


CASES = {"long": (long, 5, 60), "estimator": (estimator, 320, 9000), "drawn": (drawn, 60, 1200), "summarised": (summarised, 90, 2500)}
REQUIRED = {"long chains": 4, "densities compared": 20000, "targets with too few samples near": 200, "densities compared after an affine map": 20000, "curves compared": 60, "contours compared": 40, "plot_dist": 8, "summaries compared": 120, "estimators in 4 dimensions": 15}
BATCH = 4
