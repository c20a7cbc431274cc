"""Every artist of a triangle plot attributed to a chain and a panel, both ways; labels and legend."""
import re

import numpy as np
from chainconsumer import Chain, ChainConsumer, PlotConfig

from vlib import figs, gen

ID = "C22"
TITLE = "triangle layout, style and legend"
RULE = (
    'Each case plots 1-5 chains with overlapping parameters (every parameter at a place of its own, so any artist tells which parameters it '
    'shows), drawn as contours, clouds, points or all of them, with colours, line styles and widths, a selection of chains and columns in any '
    'order, marginals or not, flipped or not, labels and legend options. In every panel the artists are attributed to chains by zorder and to '
    "parameters by position, and compared both ways with what should be there; axis labels and the legend's texts, colours and styles are read. A "
    'kind with many parameters has small panels. Distinct by layout, chains, parameters and selection.'
)
PRELOAD = ["matplotlib.pyplot"]
# hues far apart, none of which is at its limit when lightened or darkened
COLOURS = ["#804020", "#208040", "#203080", "#787020", "#702878", "#207078"]


def hue(c):
    from matplotlib.colors import to_rgb

    v = np.array(to_rgb(c))
    v = v - v.min() + 1e-3
    return v / np.linalg.norm(v)


def nearest(c):
    return int(np.argmax([hue(c) @ hue(k) for k in COLOURS]))


def build(ctx, wide=False):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(11, 14) if wide else rng.choice([1, 2, 2, 3, 4])))
    place = {c: 100.0 * (k + 1) * rng.choice([-1, 1]) for k, c in enumerate(pool)}
    cc, chains = ChainConsumer(), []
    order = rng.permutation(len(COLOURS))
    for i in range(int(rng.integers(1, 3 if wide else 6))):
        cols = [str(c) for c in rng.permutation(pool)] if i == 0 else [str(c) for c in rng.permutation([c for c in pool if rng.uniform() < 0.7] or pool)]
        n = 500
        data = {c: place[c] + rng.normal(size=n) * rng.uniform(0.6, 1.4) + rng.normal() * 0.5 for c in cols}
        lp = -rng.exponential(size=n)
        kw = dict(bins=8, smooth=int(rng.choice([0, 1])), color=COLOURS[order[i]])
        if rng.uniform() < 0.4:
            kw["linestyle"] = str(rng.choice(["--", ":", "-."]))
        if rng.uniform() < 0.4:
            kw["linewidth"] = float(rng.uniform(0.5, 3))
        if rng.uniform() < 0.3:
            kw["shade"] = bool(rng.uniform() < 0.3)
        draw = str(rng.choice(["contour", "contour", "contour", "cloud", "point", "contour+cloud", "contour+point", "contour+cloud+point", "cloud+point", "nothing" if i else "contour"]))
        if "contour" not in draw:
            kw["plot_contour"] = False
        if "cloud" in draw:
            kw.update(plot_cloud=True, num_cloud=50)
        if "point" in draw:
            kw.update(plot_point=True, marker_style=str(rng.choice(["o", "s", "^"])), marker_size=float(rng.uniform(10, 50)))
        if rng.uniform() < 0.2:
            kw["show_label_in_legend"] = False
        kw.update(gen.fashion(rng, n))
        name = f"chain {'abcde'[i]}"
        c = gen.chain(rng, drawn=True, samples=gen.frame(rng, data, w=rng.uniform(0.5, 1, n), logp=lp), name=name, zorder=figs.zorder(i), **kw)
        cc.add_chain(c)
        best = {k: v[np.argmax(lp)] for k, v in data.items()}
        chains.append(dict(name=name, cols=cols, kw=kw, draw=draw, data=data, best=best, k=i, obj=c))
    return cc, chains, pool, place


def near(v, lo, hi, pad=0.35):
    s = hi - lo
    return np.all((np.asarray(v) >= lo - pad * s) & (np.asarray(v) <= hi + pad * s))


def wide(ctx):
    return case(ctx, True)


def case(ctx, wide=False):
    rng = ctx.rng
    cc, chains, pool, place = build(ctx, wide)
    labels = {c: f"label of {chr(65 + k)}" for k, c in enumerate(pool) if rng.uniform() < 0.6}
    cfg = dict(labels=labels, flip=bool(rng.uniform() < 0.5), plot_hists=bool(rng.uniform() < 0.75) or len(pool) == 1, show_legend=[None, None, True, False][int(rng.integers(4))], summarise=bool(rng.uniform() < 0.5))
    if rng.uniform() < 0.3:
        cfg["legend_color_text"] = False
    if rng.uniform() < 0.3:
        cfg["legend_artists"] = bool(rng.uniform() < 0.5)
    if rng.uniform() < 0.2:
        cfg["legend_kwargs"] = {"loc": "lower left", "fontsize": 7}
    if rng.uniform() < 0.2:
        cfg["spacing"] = float(rng.uniform(0, 2))
    chosen = None
    if len(chains) > 1 and rng.uniform() < 0.4:
        sub = [chains[0]] + [c for c in chains[1:] if rng.uniform() < 0.6]
        chosen = [sub[q] for q in rng.permutation(len(sub))]
    shown = [c for c in (chosen or chains) if c["draw"] != "nothing"]
    columns = None
    if rng.uniform() < 0.6:
        columns = [str(c) for c in rng.permutation(pool)]
        if len(columns) > 2 and rng.uniform() < 0.5:
            columns = columns[: int(rng.integers(2, len(columns)))]
    def columns_of(c):
        return [p for p in c["obj"].samples.columns if p in c["data"]]

    final = columns or list(dict.fromkeys(p for c in shown for p in columns_of(c)))
    if len(final) == 1:
        cfg["plot_hists"] = True
    hists = cfg["plot_hists"]
    m = len(final) - (0 if hists else 1)
    if rng.uniform() < 0.25:
        i = int(rng.integers(m))
        cfg["legend_location"] = (i, int(rng.integers(m)))
    cc.set_plot_config(PlotConfig(**cfg))
    arg = None if chosen is None else [c["obj"] if rng.uniform() < 0.4 else c["name"] for c in chosen]
    ctx.describe(columns=final, config=cfg, chains=[dict(name=c["name"], columns=c["cols"], draw=c["draw"]) for c in shown], selected=chosen is not None)
    fig = cc.plotter.plot(chains=arg, columns=columns)
    pan = figs.panels(fig)
    turned = cfg["flip"] and hists and len(final) == 2
    rows, cols = (final, final) if hists else (final[1:], final[:-1])
    ctx.check_that(set(pan) == {(i, j) for i in range(m) for j in range(m)}, "the grid of panels is not square in the columns", panels=sorted(pan), columns=final)
    for (i, j), ax in pan.items():
        px, py = cols[j], rows[i]
        where = dict(panel=(i, j), x=px, y=py)
        cs, cv, sc = figs.contours(ax), figs.curves(ax), figs.scatters(ax)
        if j > i:
            ctx.check_that(not (cs or cv or sc or figs.fills(ax)) and not ax.get_frame_on(), "something is drawn above the diagonal", **where)
            continue
        diag = hists and i == j
        counted = [0, 0, 0]
        for c in shown:
            z = figs.zorder(c["k"])
            has = px in c["cols"] and py in c["cols"]
            mcs = [q for q in cs if abs(q.get_zorder() - z) <= 20]
            mcv = [q for q in cv if abs(q["z"] - z) <= 20]
            msc = [q for q in sc if abs(q.get_zorder() - z) <= 20]
            counted = [a + len(b) for a, b in zip(counted, (mcs, mcv, msc))]
            lines = [q for q in mcs if not q.filled]
            contour = "contour" in c["draw"]
            n_sc = 0 if diag or not has else ("cloud" in c["draw"]) + ("point" in c["draw"])
            ok = ctx.check_that(
                len(mcv) == int(diag and has and contour) and len(lines) == int(not diag and has and contour) and len(mcs) - len(lines) <= len(lines) and len(msc) == n_sc,
                "a panel does not show exactly what is asked of a chain", chain=c["name"], draw=c["draw"], curves=len(mcv), contours=len(lines), scatters=len(msc), **where)
            if not ok:
                continue
            w = dict(chain=c["name"], **where)
            col, ls, lw = c["kw"]["color"], c["kw"].get("linestyle", "-"), c["kw"].get("linewidth", 1.0)
            for q in mcv:
                v = q["y"] if turned and i == 1 else q["x"]
                d = c["data"][px]
                ctx.check_that(near(v, d.min(), d.max(), 0.6), "a marginal is not that of its column", **w)
                ctx.check_that(q["color"] == col and figs.linestyle(q["ls"]) == ls and q["lw"] == lw, "a marginal is not in its chain's style", drawn=(q["color"], q["ls"], q["lw"]), style=(col, ls, lw), **w)
                ctx.count("marginals")
            for q in mcs:
                v = np.vstack([p.vertices for p in q.get_paths() if len(p.vertices)])
                dx, dy = c["data"][px], c["data"][py]
                ctx.check_that(near(v[:, 0], dx.min(), dx.max()) and near(v[:, 1], dy.min(), dy.max()), "contours are not those of their row and column", **w)
                fc = q.get_facecolor() if q.filled else q.get_edgecolor()
                ctx.check_that(all(COLOURS[nearest(k)] == col for k in fc), "contours are not in their chain's colour", drawn=[figs.hexcol(k) for k in fc], colour=col, **w)
                if not q.filled:
                    ctx.check_that(figs.linestyle(q.get_linestyle()[0]) == ls and float(np.ravel(q.get_linewidth())[0]) == lw, "contour lines are not in their chain's style", **w)
                ctx.count("contours")
            for q in msc:
                o = np.asarray(q.get_offsets(), float)
                d = {p: c["data"][p] for p in (px, py)}
                if len(o) == 1:
                    ctx.check_that(o[0, 0] == c["best"][px] and o[0, 1] == c["best"][py], "a point is not at its row and column", **w)
                    ctx.check_that(nearest(q.get_facecolor()[0]) == COLOURS.index(col) and abs(q.get_sizes()[0] - c["kw"]["marker_size"]) < 1e-9, "a point is not in its chain's style", **w)
                    ctx.count("points")
                else:
                    ctx.check_that(np.isin(o[:, 0], d[px]).all() and np.isin(o[:, 1], d[py]).all(), "a cloud is not that of its row and column", **w)
                    ctx.check_that(figs.hexcol(q.get_facecolor()[0]) == col, "a cloud is not in its chain's colour", **w)
                    ctx.count("clouds")
        ctx.check_that(counted == [len(cs), len(cv), len(sc)], "an artist belongs to no chain shown", counted=counted, drawn=[len(cs), len(cv), len(sc)], **where)
        # labels on the outer axes only
        strip = lambda t: figs.split_label(t)[0]  # noqa: E731
        wantx = labels.get(px, px) if i == m - 1 and not (turned and j == m - 1) else ""
        wanty = labels.get(py, py) if j == 0 and not (hists and i == 0) else ""
        ctx.check_that(strip(ax.get_xlabel()) == wantx, "a column is not labelled with its parameter", label=ax.get_xlabel(), expected=wantx, **where)
        ctx.check_that(strip(ax.get_ylabel()) == wanty, "a row is not labelled with its parameter", label=ax.get_ylabel(), expected=wanty, **where)
    # places on the page: rows go down, columns to the right
    for (i, j), ax in pan.items():
        b = ax.get_position()
        if (i + 1, j) in pan:
            ctx.check_that(pan[i + 1, j].get_position().y1 <= b.y0 + 1e-6, "panels overlap", panel=(i, j))
        if (i, j + 1) in pan:
            ctx.check_that(pan[i, j + 1].get_position().x0 >= b.x1 - 1e-6, "panels overlap", panel=(i, j))
    # legend
    wanted = cfg["show_legend"] if cfg["show_legend"] is not None else len(shown) > 1
    legs = {k: ax.get_legend() for k, ax in pan.items() if ax.get_legend() is not None}
    entries = [c for c in shown if c["kw"].get("show_label_in_legend", True)]
    if ctx.check_that(len(legs) == int(wanted), "the legend is not shown as asked", legends=len(legs), show=cfg["show_legend"], chains=len(shown)) and wanted:
        (key, leg), = legs.items()
        if "legend_location" in cfg:
            ctx.check_that(key == tuple(cfg["legend_location"]), "the legend is not where it was asked for", panel=key)
        texts = [t.get_text().strip() for t in leg.get_texts()]
        if ctx.check_that(texts == [c["name"] for c in entries], "the legend does not list the chains shown", legend=texts, chains=[c["name"] for c in entries]):
            for t, h, c in zip(leg.get_texts(), leg.legend_handles, entries):
                tc = figs.hexcol(t.get_color())
                ctx.check_that(figs.hexcol(h.get_color()) == c["kw"]["color"] and tc == (c["kw"]["color"] if cfg.get("legend_color_text", True) else "#000000"), "a legend entry is not in its chain's colour", chain=c["name"], handle=h.get_color(), text=tc)
                if "contour" in c["draw"]:
                    ctx.check_that(figs.linestyle(h.get_linestyle()) == c["kw"].get("linestyle", "-") and h.get_linewidth() == c["kw"].get("linewidth", 1.0), "a legend entry is not in its chain's line style", chain=c["name"])
                if "point" in c["draw"]:
                    ctx.check_that(str(h.get_marker()) == c["kw"]["marker_style"], "a legend entry does not have its chain's marker", chain=c["name"], marker=h.get_marker())
                if c["draw"] == "point":
                    ctx.check_that(h.get_linestyle().lower() == "none", "a chain drawn as a point has a line in the legend", chain=c["name"])
                if c["draw"] == "contour":
                    ctx.check_that(str(h.get_marker()).lower() in ("none", ""), "a chain drawn as contours has a marker in the legend", chain=c["name"])
                ctx.count("legend entries")
    ctx.distinct(tuple(final), tuple((c["k"], tuple(c["cols"]), c["draw"]) for c in shown), hists, cfg["flip"], cfg["show_legend"], cfg.get("legend_location"))


CASES = {"triangle": (case, 170, 4000), "wide": (wide, 6, 60)}
REQUIRED = {"marginals": 150, "contours": 200, "points": 20, "clouds": 30, "legend entries": 100}
BATCH = 4
