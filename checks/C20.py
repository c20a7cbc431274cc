"""Axis limits of every panel of every kind of figure against the samples and the ranges the user set."""
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth

from vlib import figs, gen

ID = "C20"
TITLE = "axis ranges"
RULE = (
    'Each case draws one of the four plots with 1-4 chains of overlapping parameters (samples with weights that move the distribution or with '
    'most of the weight in a few far rows, clouds, grids, markers far away), magnitudes 1e-4..1e4, ranges set by the user for some parameters, '
    'truths outside the range, a selection of chains, flipped or not, linear or logarithmic. The limits of every panel are compared with the '
    "user's range or with the weighted samples of the chains shown, and height axes with the curves in them. The height of plot_summary is "
    'compared with the number of curves. Distinct by plot, kinds of chain, parameters with a range and layout.'
)
PRELOAD = ["matplotlib.pyplot"]


def chain(ctx, i, cols, scale, kind, big, lone=False, logs=()):
    """A chain specification, with what its axes must show."""
    rng = ctx.rng
    kw = dict(bins=12, smooth=int(rng.choice([0, 2])))
    if rng.uniform() < 0.4:
        kw["histogram_relative_height"] = float(rng.uniform(0.2, 3))
    if kind == "marker":
        return dict(kind=kind, at={c: scale[c][0] + scale[c][1] * float(rng.normal() * 6 + rng.choice([-15, 15, -15, 15, 400 if c in logs else -400, 400])) for c in cols})
    if kind == "grid":
        cols = cols[:2]
        axes = [np.linspace(-1, 1, int(rng.integers(12, 18))) * scale[c][1] * rng.uniform(1, 4) + scale[c][0] for c in cols]
        pts = np.array(list(itertools.product(*axes)))
        z = [(pts[:, k] - axes[k].mean()) / np.ptp(axes[k]) * 8 for k in range(len(cols))]
        w = np.exp(-0.5 * sum(v * v for v in z)) + 1e-9
        df = pd.DataFrame({c: pts[:, k] for k, c in enumerate(cols)} | {"weight": w})
        df = df.sample(frac=1, random_state=int(rng.integers(1000)))
        return dict(kind=kind, df=df, kw=dict(grid=True, smooth=0), cols=cols)
    huge = big and rng.uniform() < 0.25
    n = int(rng.integers(102_000, 120_000)) if huge else int(rng.integers(30000, 50000)) if big else int(rng.integers(800, 4000))
    shift = rng.normal() * 1.5
    data = {c: scale[c][0] + scale[c][1] * (gen.base_shape(rng, n, str(rng.choice(gen.SMOOTH_UNIMODAL + gen.CUT))) + shift) for c in cols}
    n = min(len(v) for v in data.values())
    data = {c: v[:n] for c, v in data.items()}
    if huge:
        # one row in k much wider than the others, or the second half elsewhere
        wk, w = "huge", None
        wide = np.arange(n) % int(rng.integers(2, 5)) == 1 if rng.uniform() < 0.6 else np.arange(n) >= n * rng.uniform(0.4, 0.9)
        if rng.uniform() < 0.3:
            wide = wide[::-1]
        for c in cols:
            data[c] = np.where(wide, data[c], scale[c][0] + 0.1 * (data[c] - scale[c][0]))
        ctx.count("chains of more than 100 000 rows")
    elif big:
        wk, w = "spike", np.ones(n)
        far = rng.choice(n, size=2, replace=False)
        for c in cols:
            data[c][far] = data[c].max() + scale[c][1] * rng.uniform(2, 5) if rng.uniform() < 0.5 else data[c].min() - scale[c][1] * rng.uniform(2, 5)
        w[far] = n / 3
    else:
        wk, w = gen.tilted(rng, data[cols[0]])
    if lone:
        # one row far away that hardly counts: all the other weight is in the first or last thousandth of the range
        wk, w = "lone", np.ones(n) if w is None else w / w.mean()
        for c in cols:
            data[c] = np.array(data[c])
            data[c][n // 2] = scale[c][0] + scale[c][1] * float((1 if c in logs else rng.choice([-1, 1])) * 10 ** rng.uniform(4, 6))
        w[n // 2] = 1e-9
        ctx.count("chains with one far row that hardly counts")
    df = gen.frame(rng, data, w=w, logp=-rng.exponential(size=n))
    df.index = gen.index(rng, n)[1]
    kw.update(gen.fashion(rng, n))
    if kind == "cloud":
        kw.update(plot_cloud=True, plot_contour=bool(rng.uniform() < 0.5), num_cloud=300)
    if kind == "point":
        kw["plot_point"] = True
    return dict(kind=kind, df=df, kw=kw, cols=cols, wk=wk)


def bounds(spec, col, eps):
    """(lowest, highest allowed), and what the range must reach down and up to."""
    if spec["kind"] == "marker":
        v = spec["at"][col]
        return v, v, v, v
    x = spec["df"][col].to_numpy()
    w = spec["df"]["weight"].to_numpy() if "weight" in spec["df"] else np.ones(len(x))
    if spec["kind"] == "grid":
        return x.min(), x.max(), x.min(), x.max()
    cell = np.ptp(x) / 1000
    o = np.argsort(x)
    c = np.cumsum(w[o]) / w.sum()
    lo = x[o][np.searchsorted(c, eps)]
    hi = x[o][min(np.searchsorted(c, 1 - eps), len(x) - 1)]
    return x.min(), x.max(), lo + cell, hi - cell


def run(ctx, kind):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(1 if kind not in ("plot",) else 2, 5)))
    if kind == "plot" and rng.uniform() < 0.4:
        pool = pool[:2]
    logs = [c for c in pool if rng.uniform() < 0.15]
    scale = {c: (lambda l, s: (l, s))(*gen.loc_scale(rng)) for c in pool}
    scale = {c: (abs(v[0]) + 60 * v[1], v[1]) if c in logs else v for c, v in scale.items()}
    cc, specs = ChainConsumer(), {}
    nch = int(rng.integers(1, 5))
    called = gen.chain_names(rng, nch)
    menu = ["plain", "plain", "plain", "cloud", "grid", "marker", "point"]
    for i in range(nch):
        k = "plain" if i == 0 else str(rng.choice(menu))
        sub = pool if i == 0 else [c for c in pool if rng.uniform() < 0.8] or pool
        if k == "grid" and kind == "plot" and len(sub) < 2:
            k = "plain"
        big = k == "plain" and rng.uniform() < 0.12
        s = chain(ctx, i, sub, scale, k, big, kind == "walks" and k == "plain" and not big and rng.uniform() < 0.15, logs)
        name = called[i]
        if k == "marker":
            cc.add_marker(s["at"], name=name, zorder=figs.zorder(i))
            s["cols"] = list(s["at"])
        else:
            cc.add_chain(gen.chain(rng, drawn=True, samples=s["df"], name=name, zorder=figs.zorder(i), **s["kw"]))
        specs[name] = s
    names = list(specs)
    chosen = None
    if nch > 1 and rng.uniform() < 0.4:
        chosen = [names[0], *[str(c) for c in rng.permutation(names[1:])[: rng.integers(0, nch)]]]
        chosen = [str(c) for c in rng.permutation(chosen)]
    shown = {k: specs[k] for k in (chosen or names)}
    user = {}
    for c in pool:
        if rng.uniform() < 0.3:
            l, s = scale[c]
            a = l + s * rng.uniform(-6, 1) if c not in logs else 0.5 * l
            user[c] = (float(a), float(a + s * rng.uniform(1, 8) + (l if c in logs else 0)))
            if c not in logs and rng.uniform() < 0.12:
                user[c] = user[c][::-1]  # an axis that runs the other way
                ctx.count("ranges the other way round")
    for _ in range(int(rng.choice([0, 1]))):
        cc.add_truth(Truth(location={c: float(scale[c][0] + scale[c][1] * rng.normal() * 60) for c in pool if c not in logs}, marker="x" if rng.uniform() < 0.3 else None))
    flip = bool(rng.uniform() < 0.5)
    hists = bool(rng.uniform() < 0.75)
    cc.set_plot_config(PlotConfig(extents=user, flip=flip, plot_hists=hists, log_scales=logs, summarise=bool(rng.uniform() < 0.5)))
    columns = [str(c) for c in rng.permutation(pool)] if rng.uniform() < 0.6 else None
    if columns and len(columns) > 2 and rng.uniform() < 0.3:
        columns = columns[:2]
    final = columns or [c for c in dict.fromkeys(c for s in shown.values() for c in (s["df"].columns if "df" in s else s["cols"]) if c in pool)]
    errorbar = kind == "summary" and bool(rng.uniform() < 0.4)
    ctx.describe(plot=kind, columns=final, chains={k: dict(kind=s["kind"], weights=s.get("wk"), columns=list(s["cols"])) for k, s in shown.items()}, user=user, flip=flip, hists=hists, logs=logs, errorbar=errorbar)
    if kind == "plot":
        fig = cc.plotter.plot(chains=chosen, columns=columns)
    elif kind == "walks":
        fig = cc.plotter.plot_walks(chains=chosen, columns=columns)
    elif kind == "distributions":
        fig = cc.plotter.plot_distributions(chains=chosen, columns=columns, col_wrap=2)
    else:
        fig = cc.plotter.plot_summary(chains=chosen, columns=columns, errorbar=errorbar)
    pan = figs.panels(fig)
    axes = []  # (column, limits, panel)
    heights = []  # (axes, flipped)
    if kind == "plot":
        turned = flip and hists and len(final) == 2
        rows, cols = (final, final) if hists else (final[1:], final[:-1])
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                if j > i:
                    continue
                ax = pan[i, j]
                if hists and i == j:
                    if turned and i == 1:
                        axes.append((r, ax.get_ylim(), (i, j)))
                        heights.append((ax, True, r))
                    else:
                        axes.append((c, ax.get_xlim(), (i, j)))
                        heights.append((ax, False, c))
                else:
                    axes += [(c, ax.get_xlim(), (i, j)), (r, ax.get_ylim(), (i, j))]
    elif kind == "walks":
        extra = len(pan) - len(final)
        axes = [(c, pan[extra + i, 0].get_ylim(), (extra + i, 0)) for i, c in enumerate(final)]
    elif kind == "distributions":
        for i, c in enumerate(final):
            ax = pan[i // min(2, len(final)), i % min(2, len(final))]
            axes.append((c, ax.get_xlim(), i))
            heights.append((ax, False, c))
    else:
        for k in range(len(shown)):
            for i, c in enumerate(final):
                ax = pan[k, i + 1]
                axes.append((c, ax.get_xlim(), (k, i)))
                if not errorbar:
                    heights.append((ax, False, c))
    first = {}
    for c, (lo, hi), where in axes:
        if c in user:
            s = abs(user[c][1] - user[c][0])
            ctx.check_that(abs(lo - user[c][0]) <= 1e-9 * s + 1e-12 * abs(lo) and abs(hi - user[c][1]) <= 1e-9 * s + 1e-12 * abs(hi), "an axis does not span the range set for it", column=c, panel=where, axis=(lo, hi), user=user[c])
            ctx.count("axes with a range of the user's")
            continue
        b = np.array([bounds(s, c, 0.055 if errorbar else 3e-4) for s in shown.values() if c in s["cols"]])
        span = b[:, 1].max() - b[:, 0].min()
        tol = 1e-9 * span + 1e-12 * np.abs(b).max()
        ctx.check_that(lo <= b[:, 2].min() + tol and hi >= b[:, 3].max() - tol, "an axis leaves out part of a chain", column=c, panel=where, axis=(lo, hi), needed=(b[:, 2].min(), b[:, 3].max()))
        ctx.check_that(lo >= b[:, 0].min() - tol and hi <= b[:, 1].max() + tol, "an axis reaches further than the data", column=c, panel=where, axis=(lo, hi), data=(b[:, 0].min(), b[:, 1].max()))
        ctx.check_that(first.setdefault(c, (lo, hi)) == (lo, hi), "the axes of a parameter differ between panels", column=c, panel=where, axis=(lo, hi), other=first[c])
        ctx.count("axes with an automatic range")
    for ax, turned, c in heights:
        cv = figs.curves(ax)
        if not cv:
            continue
        lo, hi = ax.get_xlim() if turned else ax.get_ylim()
        top = max(np.max(v["x"] if turned else v["y"]) for v in cv)
        ctx.check_that(lo == 0 and hi >= top * (1 - 1e-9), "a height axis does not show its curves from zero to their top", column=c, axis=(lo, hi), top=top, curves=len(cv))
        ctx.check_that(hi <= 12 * top or kind == "summary", "a height axis dwarfs its curves", column=c, axis=(lo, hi), top=top)
        ctx.count("height axes" + (" turned" if turned else ""))
    if kind == "summary" and not errorbar:
        for i, c in enumerate(final):
            tops = {pan[k, i + 1].get_ylim() for k in range(len(shown)) if figs.curves(pan[k, i + 1])}
            most = [np.max(v["y"]) for k in range(len(shown)) for v in figs.curves(pan[k, i + 1])]
            if tops:
                ctx.check_that(max(t[1] for t in tops) <= 12 * max(most), "the height axes of a parameter dwarf its curves", column=c, tops=sorted(tops), highest=max(most))
            ctx.check_that(len(tops) <= 1, "the rows of a summary show a parameter's curves at different heights", column=c, tops=sorted(tops))
    ctx.distinct(kind, tuple((s["kind"], tuple(s["cols"])) for s in shown.values()), tuple(user), flip, hists, tuple(logs), errorbar)


def plot(ctx):
    run(ctx, "plot")


def walks(ctx):
    run(ctx, "walks")


def distributions(ctx):
    run(ctx, "distributions")


def summary(ctx):
    run(ctx, "summary")


CASES = {"plot": (plot, 80, 1800), "walks": (walks, 60, 1300), "distributions": (distributions, 80, 1800), "summary": (summary, 70, 1500)}
REQUIRED = {"axes with a range of the user's": 150, "axes with an automatic range": 500, "height axes": 150, "height axes turned": 8, "chains with one far row that hardly counts": 4, "chains of more than 100 000 rows": 2, "ranges the other way round": 8}
BATCH = 4
