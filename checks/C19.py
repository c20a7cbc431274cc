"""Drawn marginals, shaded intervals, titles and error bars against the weighted samples and the summaries."""
import re

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_dist
from chainconsumer.statistics import SummaryStatistic as S
from matplotlib.mathtext import MathTextParser

from vlib import figs, gen, summ

ID = "C19"
TITLE = "drawn marginals, shading and titles"
RULE = (
    "Each case draws 1-3 chains of 2 000-12 000 weighted samples (weights that move the distribution; single-peaked, cut off or multi-peaked; magnitudes 1e-4..1e4) with any statistic, smoothing, bins, KDE, relative height and "
    "shading, in one of the four plots, flipped or not, or alone with plot_dist. The cumulative integral of every drawn curve is compared with the weighted samples at 60 points, its area with the relative height, every shaded polygon with the "
    "summary's interval and the curve above it, titles with the summary's text and error bars with the summary. Chains of 5 to 400 rows are judged by the area of their marginals and by where they lie. Distinct by plot, statistic, settings, shapes and layout."
)
PRELOAD = ["matplotlib.pyplot"]
SHAPES = gen.SMOOTH_UNIMODAL + gen.CUT + gen.MULTI


def make(ctx, i, pool, color=None):
    rng = ctx.rng
    kw = {}
    r = rng.uniform()
    if r < 0.25:
        kw["smooth"] = 0
    elif r < 0.5:
        kw["smooth"] = int(rng.integers(1, 5))
    if rng.uniform() < 0.3:
        kw["bins"] = int(rng.integers(25, 70))
    if rng.uniform() < 0.15:
        kw.update(kde=float(rng.choice([1.0, 0.6, 1.5])), bins=12)
        kw.pop("smooth", None)
    kw["statistics"] = list(S)[int(rng.integers(5))]
    if rng.uniform() < 0.25:
        kw.update(statistics=S.HDI, multimodal=True)
    if rng.uniform() < 0.4:
        kw["summary_area"] = float(rng.uniform(0.3, 0.96))
    if rng.uniform() < 0.3:
        kw["histogram_relative_height"] = float(rng.uniform(0.2, 2.0))
    if color:
        kw["color"] = color
    n = int(10 ** rng.uniform(3.3, 4.1))
    if kw.get("kde"):
        n = int(rng.integers(1500, 2500))
    shapes = {c: str(rng.choice(SHAPES)) for c in pool}
    data = {c: gen.shape(rng, n, k) for c, k in shapes.items()}
    n = min(len(v) for v in data.values())
    data = {c: v[:n] for c, v in data.items()}
    wk, w = gen.tilted(rng, data[pool[0]])
    df = gen.frame(rng, data, w=w)
    df.index = gen.index(rng, n)[1]
    chain = gen.chain(ctx.rng, drawn=True, samples=df, name=f"chain {i}", zorder=figs.zorder(i), **kw)
    return dict(chain=chain, df=df, data=data, w=w, kw=kw, shapes=shapes, wk=wk, n=n, ncols=df.shape[1])


def cdf(x, w, v):
    o = np.argsort(x)
    c = np.concatenate(([0.0], np.cumsum((np.ones(len(x)) if w is None else w)[o])))
    return c[np.searchsorted(x[o], v, side="right")] / c[-1]


def judge_curve(ctx, cv, spec, col, flip, where, few=False):
    """One drawn marginal against the samples."""
    x, w, kw = spec["data"][col], spec["w"], spec["kw"]
    h = kw.get("histogram_relative_height", 1.0)
    px, py = (cv["y"], cv["x"]) if flip else (cv["x"], cv["y"])
    if cv["kind"] == "line":
        grid = px
        ci = np.concatenate(([0.0], np.cumsum(0.5 * (py[1:] + py[:-1]) * np.diff(px))))
    else:
        e, hh = figs.step_heights(cv, flip)
        grid = np.concatenate((e[:, 0], e[-1:, 1]))
        ci = np.concatenate(([0.0], np.cumsum(hh * (e[:, 1] - e[:, 0]))))
    area = float(ci[-1])
    # a smoothed curve drawn over bin centres can miss half a cell at an edge; one smoothed over a single cell is stepped
    tol = (0.15 if kw.get("smooth") == 1 else 0.04) if few else 0.02 if spec["shapes"][col] not in gen.CUT else 0.06
    if not ctx.check_that(abs(area / h - 1) <= tol, "the drawn marginal does not have the area of its relative height", where=where, area=area, height=h, settings=kw, shape=spec["shapes"][col]):
        return
    if few:
        # half of what the outermost cells hold is left out: with a few rows that is a lot
        pad = 0.45 * np.ptp(x)
        ctx.check_that(px.min() >= x.min() - pad and px.max() <= x.max() + pad, "the drawn marginal of a few rows is away from them", where=where, settings=kw)
        return
    blur = summ.resolution(x, w, bins=kw.get("bins"), smooth=kw.get("smooth"), kde=kw.get("kde", False), n=spec["n"], ncols=spec["ncols"])
    d = (4.2 if kw.get("smooth", 3) != 0 or kw.get("kde") else 1.1) * blur  # padded by 40%, three widths
    v = gen.wquantile(x, w, np.linspace(0.01, 0.99, 60))
    got = np.interp(v, grid, ci / ci[-1])
    eps = 0.012
    lo, hi = cdf(x, w, v - d), cdf(x, w, v + d)
    bad = (got < lo - eps) | (got > hi + eps)
    ctx.check_that(not bad.any(), "the drawn marginal is not the distribution of the samples", where=where, at=v[bad][:3], drawn=got[bad][:3], between=np.column_stack([lo, hi])[bad][:3], settings=kw, shape=spec["shapes"][col], weights=spec["wk"])
    ctx.count("curves")


def intervals(summary, multimodal):
    if isinstance(summary, list):
        return [(b.lower, b.upper) for b in summary]
    if summary is None or summary.lower is None or summary.upper is None:
        return []
    return [(summary.lower, summary.upper)]


def judge_fills(ctx, ax, z, cv, spec, summary, flip, shaded, where):
    want = intervals(summary, spec["kw"].get("multimodal")) if shaded else []
    got = []
    for f in figs.fills(ax):
        if abs(f["z"] - z) > 20:
            continue
        x, y = (f["y"], f["x"]) if flip else (f["x"], f["y"])
        got.append((x, y))
    if not ctx.check_that(len(got) == len(want), "the shaded regions are not those of the summary", where=where, shaded=len(got), summary=want):
        return
    px = cv["y"] if flip else cv["x"]
    lo, hi = px.min(), px.max()
    span = hi - lo
    e = None
    if cv["kind"] == "step":
        e, _ = figs.step_heights(cv, flip)
        # the region ends at the centres of the outer bins
        half = 0.51 * (e[0, 1] - e[0, 0])
        lo, hi = lo + half, hi - half
    for (x, y), (a, b) in zip(sorted(got, key=lambda t: t[0].min()), sorted(want)):
        slack = 2e-3 * span if e is None else half
        ctx.check_that(
            abs(x.min() - max(a, lo)) <= (1e-6 * span if a > lo else slack) and abs(x.max() - min(b, hi)) <= (1e-6 * span if b < hi else slack),
            "the shaded region does not span the summary's interval", where=where, shaded=(x.min(), x.max()), summary=(a, b), settings=spec["kw"])
        top = float(np.max(cv["x"] if flip else cv["y"]))
        up = y > 1e-9 * top
        # (heights are read off the curve, or off the bin a point is in)
        heights = figs.evaluate(cv, x[up], flip)
        if cv["kind"] == "step":
            near = np.min(np.abs(x[up][:, None] - e[:, 0][None, :]), axis=1) < 1e-6 * span
            heights = np.where(near, y[up], heights)
            off = np.abs(heights - y[up])
        else:
            # between its points the curve is straight, unless it is stepped between them
            j = np.clip(np.searchsorted(np.sort(px), x[up]), 1, len(px) - 1)
            o = np.argsort(px)
            cy = (cv["x"] if flip else cv["y"])[o]
            a_, b_ = np.minimum(cy[j - 1], cy[j]), np.maximum(cy[j - 1], cy[j])
            off = np.maximum(0, np.maximum(a_ - y[up], y[up] - b_))
        ctx.check_that(up.sum() >= 100 and np.max(off) <= 1e-6 * top, "the shaded region is not under the curve", where=where, off=float(np.max(off, initial=0)), top=top)
        ctx.count("shaded regions")


def plain(t: str) -> str:
    """A title without what only sets how it looks."""
    return re.sub(r"[$\s]", "", t)


def judge_title(ctx, t, body, label, column):
    """The label and the text of the summary, whichever of it is a formula, in a form that can be drawn."""
    if not body:
        return ctx.check_that(t == "", "a title where there is no summary", title=t, column=column)
    ok = plain(t) in (f"{plain(label)}={plain(body)}", f"{plain(label)}{plain(body)}" if "\n" in body else None)
    ctx.check_that(ok, "the title is not the summary's text", title=t, summary=body, label=label, column=column)
    if len(re.findall(r"(?<!\\)\$", t)) % 2:
        # an odd number of dollar signs is shown as it is
        ctx.check_that("$" not in body and label.count("$") % 2, "the title is shown as source text", title=t, column=column)
    else:
        for line in t.split("\n"):
            try:
                MathTextParser("path").parse(line)
            except ValueError as e:
                ctx.fail("the title cannot be drawn", title=t, column=column, error=str(e)[-200:])
    ctx.count("titles")
    if plain(label) != re.sub(r"\W", "", label):
        ctx.count("titles with a label of several parts")


LABELS = ["$L_1$", "$H_0$ [km/s]", "log_m_star", "50% limit", "$a$ and $b$", "a label", "\\alpha_{x}", "x#1", "{x}", "$\\log_{10} M$", "m_1_2", "y^2", "A & B", "~z", "κ"]


def panels_of(ctx, cc, fig, kind, columns, flip, nchains):
    """(axes, chains shown, column, flipped)"""
    pan = figs.panels(fig)
    if kind == "plot":
        return [(pan[i, i], None, c, flip and len(columns) == 2 and i == 1) for i, c in enumerate(columns)]
    if kind == "distributions":
        wrap = ctx.desc["col_wrap"]
        return [(pan[i // wrap, i % wrap], None, c, False) for i, c in enumerate(columns)]
    return [(pan[k, i + 1], k, c, False) for i, c in enumerate(columns) for k in range(nchains)]


def draw(ctx, kind):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(1 if kind != "plot" else 2, 4)))
    if kind == "plot" and rng.uniform() < 0.5:
        pool = pool[:2]
    nch = int(rng.choice([1, 1, 1, 2, 3]))
    specs, cc = [], ChainConsumer()
    for i in range(nch):
        sub = pool if i == 0 else [c for c in pool if rng.uniform() < 0.75] or pool
        s = make(ctx, i, sub)
        bar = rng.uniform()
        if bar < 0.6:
            s["chain"] = gen.chain(ctx.rng, drawn=True, **(dict(samples=s["df"], name=s["chain"].name, zorder=figs.zorder(i), bar_shade=bool(bar < 0.5), **s["kw"])))
            s["shaded"] = bar < 0.5
        else:
            s["shaded"] = nch < 5
        specs.append(s)
        cc.add_chain(s["chain"])
    chosen = [str(x) for x in rng.choice(LABELS, size=len(pool), replace=False)]
    labels = {c: chosen[i] for i, c in enumerate(pool) if rng.uniform() < 0.5}
    flip = bool(rng.uniform() < 0.5)
    summarise = bool(rng.uniform() < 0.8)
    cc.set_plot_config(PlotConfig(flip=flip, labels=labels, summarise=summarise))
    columns = [str(c) for c in rng.permutation(pool)]
    wrap = int(rng.integers(1, 4))
    ctx.describe(plot=kind, columns=columns, flip=flip, col_wrap=wrap, chains=[dict(settings=s["kw"], shapes=s["shapes"], weights=s["wk"], n=s["n"], shaded=s["shaded"]) for s in specs])
    summary = cc.analysis.get_summary()
    if kind == "plot":
        fig = cc.plotter.plot(columns=columns)
    elif kind == "distributions":
        fig = cc.plotter.plot_distributions(columns=columns, col_wrap=wrap)
    else:
        fig = cc.plotter.plot_summary(columns=columns, errorbar=kind == "errorbar")
    for ax, only, col, turned in panels_of(ctx, cc, fig, kind, columns, flip, nch):
        cvs = figs.curves(ax)
        fl = figs.fills(ax)
        for k, s in enumerate(specs):
            where = f"{kind} {col} chain {k}"
            expected = col in s["data"] and (only is None or only == k) and kind != "errorbar"
            mine = [c for c in cvs if abs(c["z"] - figs.zorder(k)) <= 20]
            if not ctx.check_that(len(mine) == int(expected), "a chain's marginal is not drawn once", where=where, drawn=len(mine)):
                continue
            if expected:
                judge_curve(ctx, mine[0], s, col, turned, where)
                judge_fills(ctx, ax, figs.zorder(k), mine[0], s, summary[s["chain"].name][col], turned, s["shaded"], where)
        if kind == "errorbar":
            s = specs[only]
            bars = figs.errorbars(ax)
            b = summary[s["chain"].name].get(col) if col in s["data"] else None
            if isinstance(b, list):
                b = cc.analysis.get_parameter_summary(s["chain"], col)
            full = b is not None and b.lower is not None and b.upper is not None
            if ctx.check_that(len(bars) == int(full), "a chain's error bar is not drawn once", column=col, chain=only, drawn=len(bars)) and full:
                seg = bars[0]["segments"][0]
                pts = [ln.get_xdata()[0] for ln in ax.lines if len(ln.get_xdata()) == 1]
                got = (seg[:, 0].min(), pts[0] if pts else None, seg[:, 0].max())
                want = (b.lower, b.center, b.upper)
                if not b.lower <= b.center <= b.upper:
                    continue  # such a bound has no error bar
                ctx.check_that(len(pts) == 1 and np.allclose(got, want, rtol=1e-9, atol=1e-9 * (b.upper - b.lower)), "the error bar is not the summary", drawn=got, summary=want)
                ctx.count("error bars")
        if kind in ("plot", "distributions"):
            t = ax.get_title()
            if nch == 1 and summarise and specs[0]["shaded"]:
                b = summary[specs[0]["chain"].name][col]
                judge_title(ctx, t, cc.analysis.get_parameter_text(b, wrap=True) if b is not None else "", labels.get(col, col), col)
            elif nch > 1 or not summarise:
                ctx.check_that(t == "", "a title where none belongs", title=t, column=col)
    ctx.distinct(kind, tuple(columns), flip, tuple((tuple(s["kw"].items()), tuple(s["shapes"].values()), s["wk"]) for s in specs))


def alone(ctx):
    """plot_dist on an axis of the user's own."""
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(1, 3)))
    s = make(ctx, 0, pool, color="#1f77b4")
    kw = {k: v for k, v in s["kw"].items() if k != "multimodal"}
    shade = bool(rng.uniform() < 0.7)
    s["kw"] = kw
    c = gen.chain(ctx.rng, drawn=True, samples=s["df"], name="a", zorder=1000, shade=shade, shade_alpha=0.5, **kw)
    cc = ChainConsumer()
    cc.add_chain(c)
    col = pool[0]
    title = bool(rng.uniform() < 0.5)
    fig, ax = plt.subplots()
    label = str(rng.choice(LABELS)) if rng.uniform() < 0.4 else col
    config = PlotConfig(labels={col: label}) if label != col else None if rng.uniform() < 0.7 else PlotConfig()
    plot_dist(ax, c, col, config=config, summary=title)
    ctx.describe(plot="plot_dist", settings=kw, shapes=s["shapes"], weights=s["wk"], shade=shade)
    b = cc.analysis.get_summary()["a"][col]
    cvs = figs.curves(ax)
    if ctx.check_that(len(cvs) == 1, "plot_dist does not draw one curve", drawn=len(cvs)):
        judge_curve(ctx, cvs[0], s, col, False, "plot_dist")
        judge_fills(ctx, ax, 1000, cvs[0], s, b, False, shade, "plot_dist")
    t = ax.get_title()
    if not title:
        ctx.check_that(t == "", "a title where none belongs", title=t)
    else:
        judge_title(ctx, t, cc.analysis.get_parameter_text(b, wrap=True) or f"${b.center}$", label, col)
    ctx.distinct("dist", tuple(kw.items()), tuple(s["shapes"].values()), s["wk"], shade)


def small(ctx):
    """Chains of few rows: their marginals have the area asked for, where the rows are."""
    rng = ctx.rng
    n = int(10 ** rng.uniform(0.7, 2.6))
    data = {c: gen.shape(rng, n, str(rng.choice(["normal", "uniform", "bimodal"]))) for c in gen.names(rng, 2)}
    wk, w = gen.weights(rng, n)
    kw = dict(statistics=list(S)[int(rng.integers(5))], color="red")
    if rng.uniform() < 0.6:
        kw["smooth"] = int(rng.choice([0, 1, 3]))
    if rng.uniform() < 0.6:
        kw["bins"] = int(rng.integers(10, 40))
    if n > 20 and rng.uniform() < 0.2:
        kw["kde"] = True
    if rng.uniform() < 0.4:
        kw["histogram_relative_height"] = float(rng.uniform(0.2, 2.0))
    spec = dict(data=data, w=w, kw=kw, shapes={c: "uniform" for c in data}, wk=wk, n=n, ncols=len(data) + 1)
    chain = gen.chain(rng, drawn=True, samples=gen.frame(rng, data, w=w, idx=gen.index(rng, n)[1]), name="a", zorder=1000, **kw)
    how = str(rng.choice(["distributions", "summary", "alone"]))
    ctx.describe(rows=n, plot=how, settings=kw, weights=wk)
    col = str(rng.choice(list(data)))
    if how == "alone":
        _, ax = plt.subplots()
        plot_dist(ax, chain, col)
    else:
        cc = ChainConsumer().add_chain(chain)
        ax = figs.panels((cc.plotter.plot_distributions if how == "distributions" else cc.plotter.plot_summary)(columns=[col]))[0, int(how == "summary")]
    cv = figs.curves(ax)
    if ctx.check_that(len(cv) == 1, "a marginal of a few rows is not drawn once", drawn=len(cv), rows=n):
        judge_curve(ctx, cv[0], spec, col, False, f"{how}, {n} rows", few=True)
        ctx.count("chains of few rows")
    ctx.distinct("small", how, n, tuple(kw), wk)


def hostile(ctx):
    """Far rows, tails over many decades, steep edges and a handful of values: all that a histogram resolves badly."""
    rng = ctx.rng
    n = int(10 ** rng.uniform(2.8, 3.8))
    kind, z = summ.hostile(rng, n)
    kw = dict(smooth=int(rng.choice([0, 0, 1, 3])), bins=int(rng.integers(4, 40)), statistics=list(S)[int(rng.integers(5))], summary_area=float(rng.choice([0.05, 0.3, 0.6827, 0.95])))
    if kw["smooth"]:
        kw["bins"] = max(kw["bins"], 10)
    elif rng.uniform() < 0.5:
        kw["statistics"] = S.HDI
    if kw["statistics"] == S.HDI and rng.uniform() < 0.3:
        kw["multimodal"] = True
    s = dict(data={"x": z, "y": rng.normal(size=n)}, w=None, kw=kw, shapes={"x": "uniform", "y": "normal"}, wk="none", n=n, ncols=2)
    how = str(rng.choice(["plot", "distributions", "summary", "alone"]))
    chain = gen.chain(ctx.rng, drawn=True, samples=pd.DataFrame(s["data"]), name="a", zorder=1000, color="red", **kw)
    ctx.describe(kind=kind, n=n, plot=how, settings=kw)
    cc = ChainConsumer().add_chain(chain)
    if how == "alone":
        fig, ax = plt.subplots()
        plot_dist(ax, chain, "x")
        turned = False
    else:
        cc.set_plot_config(PlotConfig(flip=bool(rng.uniform() < 0.5)))
        columns = [str(c) for c in rng.permutation(["x", "y"])]
        pan = figs.panels({"plot": cc.plotter.plot, "distributions": lambda columns: cc.plotter.plot_distributions(columns=columns, col_wrap=2), "summary": cc.plotter.plot_summary}[how](columns=columns))
        i = columns.index("x")
        turned = how == "plot" and i == 1 and cc.plotter.config.flip
        ax = pan[(i, i) if how == "plot" else (0, i + (how == "summary"))]
        if how == "plot":
            ctx.check_that(len([c for c in figs.contours(pan[1, 0]) if not c.filled]) == 1, "the contours are not drawn", kind=kind)
    cv = figs.curves(ax)
    lims = [*ax.get_xlim(), *ax.get_ylim()]
    ctx.check_that(np.all(np.isfinite(lims)), "an axis is not finite", limits=lims)
    if not ctx.check_that(len(cv) == 1 and np.all(np.isfinite(cv[0]["x"])) and np.all(np.isfinite(cv[0]["y"])) and cv[0]["y" if not turned else "x"].max() > 0, "a marginal is not drawn once, or not finite", drawn=len(cv)):
        return
    px, py = (cv[0]["y"], cv[0]["x"]) if turned else (cv[0]["x"], cv[0]["y"])
    # nearly all samples are where the marginal is high, to the resolution of its cells
    blur = summ.resolution(z, None, bins=kw["bins"], smooth=kw["smooth"], kde=False, n=n, ncols=2) * (1 if kw["smooth"] else 1.05 * kw["bins"] / (kw["bins"] - 1))
    if cv[0]["kind"] == "line":
        grid, ci = px, np.concatenate(([0.0], np.cumsum(0.5 * (py[1:] + py[:-1]) * np.diff(px))))
    else:
        e, hh = figs.step_heights(cv[0], turned)
        grid, ci = np.concatenate((e[:, 0], e[-1:, 1])), np.concatenate(([0.0], np.cumsum(hh * (e[:, 1] - e[:, 0]))))
    v = np.linspace(z.min(), z.max(), 50)[1:-1]
    d = (4.2 if kw["smooth"] else 1.0) * blur
    got = np.interp(v, grid, ci / ci[-1])
    lo, hi = cdf(z, None, v - d), cdf(z, None, v + d)
    bad = (got < lo - 0.03) | (got > hi + 0.03)
    ctx.check_that(not bad.any(), "the drawn marginal is not the distribution of the samples", at=v[bad][:3], drawn=got[bad][:3], between=np.column_stack([lo, hi])[bad][:3], kind=kind, settings=kw)
    bounds = cc.analysis.get_summary()["a"]["x"]
    if how == "alone" and kw.get("multimodal"):
        bounds = cc.analysis.get_parameter_summary(chain, "x")
    bounds = bounds if isinstance(bounds, list) else [bounds]
    wide = np.ptp(px)
    for f in figs.fills(ax):
        fx = f["y"] if turned else f["x"]
        inside = any(b.lower is not None and fx.min() >= min(b.lower, px.max()) - 0.02 * wide - blur and fx.max() <= max(b.upper, px.min()) + 0.02 * wide + blur for b in bounds)
        ctx.check_that(inside and fx.min() >= px.min() - 1e-9 * wide and fx.max() <= px.max() + 1e-9 * wide, "the shaded region is not within the summary's interval", shaded=(fx.min(), fx.max()), bounds=[(b.lower, b.upper) for b in bounds], curve=(px.min(), px.max()))
    ctx.count("hostile marginals")
    ctx.distinct("hostile", kind, how, tuple(kw.items()))


def plot(ctx):
    draw(ctx, "plot")


def distributions(ctx):
    draw(ctx, "distributions")


def summary(ctx):
    draw(ctx, "summary")


def errorbar(ctx):
    draw(ctx, "errorbar")


CASES = {"small": (small, 120, 3000), "plot": (plot, 70, 1600), "distributions": (distributions, 70, 1600), "summary": (summary, 60, 1300), "errorbar": (errorbar, 30, 700), "alone": (alone, 160, 4000), "hostile": (hostile, 160, 4000)}
REQUIRED = {"curves": 300, "shaded regions": 200, "titles": 80, "titles with a label of several parts": 20, "error bars": 40, "hostile marginals": 130, "chains of few rows": 100}
BATCH = 4
