"""Every truth line and marker of a figure attributed to a truth, and every truth to its lines and markers."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth
from matplotlib.colors import to_rgba
from matplotlib.lines import Line2D

from vlib import figs, gen

ID = "C21"
TITLE = "truths"
RULE = (
    "Each case draws one of the four plots (flipped, with or without marginals, linear or logarithmic, with a selection of columns in any order) of 1-2 chains and 1-4 truths giving any subset of the parameters (and others), as dict or Series, at values inside "
    "or outside the range, zero and negative values included, with every style and with or without markers. Every straight line and marker carrying a truth's zorder is compared, both ways, with what that truth gives for the panel. Distinct by plot, layout, truths and parameters."
)
PRELOAD = ["matplotlib.pyplot"]


def run(ctx, kind):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(2, 5)))
    if kind == "plot" and rng.uniform() < 0.45:
        pool = pool[:2]
    logs = [c for c in pool if rng.uniform() < 0.12]
    cc = ChainConsumer()
    nch = int(rng.choice([1, 1, 2]))
    called = gen.chain_names(rng, nch)
    scale = {c: float(10 ** rng.uniform(-3, 3)) for c in pool}
    for i in range(nch):
        cols = pool if i == 0 else [c for c in pool if rng.uniform() < 0.6] or pool[:1]
        n = 500
        data = {c: scale[c] * (np.exp(0.3 * rng.normal(size=n)) - (0 if c in logs else 1)) for c in cols}
        kw = dict(bins=10, smooth=int(rng.choice([0, 2])))
        if rng.uniform() < 0.3:
            kw.update(plot_cloud=True, num_cloud=60)
        kw.update(gen.fashion(rng, n))
        cc.add_chain(gen.chain(rng, drawn=True, samples=gen.frame(rng, data, w=rng.uniform(0.5, 1, n), logp=-rng.exponential(size=n)), name=called[i], zorder=figs.zorder(i), **kw))
    truths = []
    for t in range(int(rng.integers(1, 5))):
        loc = {}
        for c in pool:
            if rng.uniform() < 0.6:
                v = rng.normal() * (0.3 if rng.uniform() < 0.7 else 5)
                loc[c] = float(scale[c] * (np.exp(v) if c in logs else (0.0 if rng.uniform() < 0.2 else v)))
        if rng.uniform() < 0.25:
            loc["not a parameter"] = 0.1
        if not loc:
            loc = {pool[0]: 1.0 if pool[0] in logs else 0.0}
        st = dict(zorder=200000 + 100 * t)
        if rng.uniform() < 0.6:
            st["color"] = str(rng.choice(["red", "#1234ab", "black", "tab:green"]))
        if rng.uniform() < 0.5:
            st["line_style"] = str(rng.choice(["-", "--", ":", "-."]))
        if rng.uniform() < 0.5:
            st["line_width"] = float(rng.uniform(0.3, 3))
        if rng.uniform() < 0.4:
            st["alpha"] = float(rng.uniform(0.2, 1))
        if rng.uniform() < 0.45:
            st["marker"] = str(rng.choice(["x", "o", "*", "+", "s"]))
            st["marker_size"] = float(rng.uniform(20, 200))
            if st["marker"] in Line2D.filled_markers and rng.uniform() < 0.5:
                st.update(edge_color=str(rng.choice(["blue", "#00ff00"])), marker_edge_width=float(rng.uniform(0.5, 3)))
        series = bool(rng.uniform() < 0.35)
        given = pd.Series(loc) if series else dict(loc)
        tr = Truth(location=given, **st)
        cc.add_truth(tr)
        truths.append(dict(loc=loc, st=st, series=series))
    flip, hists = bool(rng.uniform() < 0.5), bool(rng.uniform() < 0.75)
    cc.set_plot_config(PlotConfig(flip=flip, plot_hists=hists, log_scales=logs, summarise=bool(rng.uniform() < 0.5)))
    final = [str(c) for c in rng.permutation(pool)]
    if len(final) > 2 and rng.uniform() < 0.4:
        final = final[:2]
    errorbar = bool(rng.uniform() < 0.4)
    ctx.describe(plot=kind, columns=final, truths=truths, flip=flip, hists=hists, logs=logs)
    wanted = {}  # panel -> (x parameter, y parameter)
    if kind == "plot":
        fig = cc.plotter.plot(columns=final)
        turned = flip and hists and len(final) == 2
        rows, cols = (final, final) if hists else (final[1:], final[:-1])
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                if j <= i:
                    wanted[i, j] = (c, r) if not (hists and i == j) else (None, r) if turned and i == 1 else (c, None)
    elif kind == "walks":
        fig = cc.plotter.plot_walks(columns=final, plot_weights=bool(rng.uniform() < 0.5), plot_posterior=bool(rng.uniform() < 0.5))
        extra = len(figs.panels(fig)) - len(final)
        wanted = {(extra + i, 0): (None, c) for i, c in enumerate(final)}
    elif kind == "distributions":
        fig = cc.plotter.plot_distributions(columns=final, col_wrap=2)
        wanted = {(i // 2, i % 2): (c, None) for i, c in enumerate(final)}
    else:
        fig = cc.plotter.plot_summary(columns=final, errorbar=errorbar)
        wanted = {(k, i + 1): (c, None) for k in range(nch) for i, c in enumerate(final)}
    pan = figs.panels(fig)
    ctx.check_that(set(wanted) <= set(pan), "panels are missing", panels=sorted(pan))
    for key, ax in pan.items():
        px, py = wanted.get(key, (None, None))
        lines = [s for s in figs.straight(ax) if s["line"].get_zorder() >= 200000]
        marks = [s for s in figs.scatters(ax) if s.get_zorder() >= 200000]
        total_lines = total_marks = 0
        for t, tr in enumerate(truths):
            z = tr["st"]["zorder"]
            vx, vy = tr["loc"].get(px), tr["loc"].get(py)
            marker = tr["st"].get("marker") is not None and vx is not None and vy is not None
            want = [] if marker else [a for a in (("x", vx), ("y", vy)) if a[1] is not None]
            mine = [s for s in lines if s["line"].get_zorder() == z]
            total_lines += len(mine)
            got = sorted((s["axis"], s["value"]) for s in mine)
            if ctx.check_that(got == sorted(want), "a truth is not drawn at its values on this panel", plot=kind, panel=key, axes=(px, py), truth=tr, drawn=got, wanted=want):
                for s in mine:
                    ln, st = s["line"], tr["st"]
                    a = to_rgba(ln.get_color())
                    ok = (figs.hexcol(ln.get_color()) == figs.hexcol(st.get("color", "black")) and figs.linestyle(ln.get_linestyle()) == st.get("line_style", "--")
                          and ln.get_linewidth() == st.get("line_width", 1.0) and (ln.get_alpha() if ln.get_alpha() is not None else a[3]) == st.get("alpha", 1.0))
                    ctx.check_that(ok, "a truth line does not have the truth's style", truth=tr, drawn=(ln.get_color(), ln.get_linestyle(), ln.get_linewidth(), ln.get_alpha()))
                    # the line crosses the whole panel
                    lim = (0, 1)
                    ctx.check_that(min(s["span"]) <= lim[0] and max(s["span"]) >= lim[1], "a truth line does not cross its panel", span=s["span"])
                    ctx.count("truth lines")
            ms = [s for s in marks if s.get_zorder() == z]
            total_marks += len(ms)
            pts = [tuple(np.asarray(o, float)) for s in ms for o in s.get_offsets()]
            if ctx.check_that(pts == ([(vx, vy)] if marker else []), "a truth's marker is not at its values", panel=key, axes=(px, py), truth=tr, drawn=pts):
                for s in ms:
                    st = tr["st"]
                    fc = s.get_facecolor()
                    ec = s.get_edgecolor()
                    col = figs.hexcol(st.get("color", "black"))
                    shown = fc[0] if len(fc) else ec[0]
                    ok = figs.hexcol(shown) == col and s.get_sizes()[0] == st["marker_size"] and abs(shown[3] - st.get("alpha", 1.0)) < 1e-9
                    if "edge_color" in st:
                        ok = ok and figs.hexcol(ec[0]) == figs.hexcol(st["edge_color"]) and abs(s.get_linewidths()[0] - st["marker_edge_width"]) < 1e-9
                    ctx.check_that(ok, "a truth marker does not have the truth's style", truth=tr, face=fc, edge=ec, size=s.get_sizes())
                    ctx.count("truth markers")
        ctx.check_that(total_lines == len(lines) and total_marks == len(marks), "a line or marker belongs to no truth", panel=key)
    for tr in truths:
        if tr["series"]:
            ctx.count("truths from a Series")
    if kind == "plot" and flip and hists and len(final) == 2:
        ctx.count("flipped layouts")
    ctx.count(f"figures {kind}")
    ctx.distinct(kind, tuple(final), flip, hists, tuple(logs), tuple((tuple(t["loc"]), t["series"], t["st"].get("marker")) for t in truths))


def plot(ctx):
    run(ctx, "plot")


def walks(ctx):
    run(ctx, "walks")


def distributions(ctx):
    run(ctx, "distributions")


def summary(ctx):
    run(ctx, "summary")


CASES = {"plot": (plot, 90, 1800), "walks": (walks, 60, 1200), "distributions": (distributions, 60, 1200), "summary": (summary, 60, 1200)}
REQUIRED = {"truth lines": 400, "truth markers": 40, "truths from a Series": 80, "flipped layouts": 8}
BATCH = 4
