"""Every text of a rendered figure attributed to a parameter: none of a blinded one may carry its values."""
import io
import re

import numpy as np
from chainconsumer import Chain, ChainConsumer, PlotConfig, Truth
from chainconsumer.statistics import SummaryStatistic as S
from matplotlib.text import Text

from vlib import figs, gen, latex

ID = "C17"
TITLE = "blinding"
RULE = (
    "Each case draws one of the four plot types with 1-4 chains (clouds with colour bars, markers, any statistic) of 1-4 parameters at magnitudes 1e-6..1e6 (offset texts), blinded by list or altogether, "
    "linear or logarithmic, flipped or not, with or without marginals, titles, truths and a legend; after rendering (and saving) every text artist of the figure is attributed. Distinct by plot type, blinding, scales and layout."
)


def build(ctx, kind):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(1 if kind != "plot" else 2, 5)))
    if rng.uniform() < 0.25:
        # names contained in one another
        pool = [str(x) for x in rng.permutation(["m", "Omega_m", "mass", "m_b", "Om"])[: len(pool)]]
    if kind == "plot" and rng.uniform() < 0.35:
        pool = pool[:2]
    scale = {c: float(10 ** rng.uniform(-6, 6)) if rng.uniform() < 0.6 else 1.0 for c in pool}
    off = {c: float(rng.choice([0, 0, 50])) for c in pool}
    labels = {c: f"label of {i}" for i, c in enumerate(pool) if rng.uniform() < 0.6}
    cc, chains = ChainConsumer(), []
    for i in range(int(rng.choice([1, 1, 2, 3, 4]))):
        cols = pool if i == 0 else [c for c in pool if rng.uniform() < 0.8] or pool
        n = int(rng.integers(600, 900))
        data = {c: scale[c] * (off[c] + np.exp(0.4 * rng.normal(size=n)) * (1 + 0.1 * i)) for c in cols}
        df = gen.frame(rng, data, w=gen.weights(rng, n)[1], lp=None) if False else gen.frame(rng, data, w=rng.uniform(0.5, 1, n), logp=-rng.exponential(size=n))
        kw = dict(bins=10, statistics=list(S)[int(rng.integers(5))], smooth=int(rng.choice([0, 2])))
        if kw["statistics"] is S.HDI and rng.uniform() < 0.5:
            kw["multimodal"] = True
        if kind == "plot" and rng.uniform() < 0.45:
            kw.update(plot_cloud=True, num_cloud=100, color_param=str(rng.choice([*cols, "weight", "log_posterior"])))
        if rng.uniform() < 0.2:
            kw["show_contour_labels"] = True
        if rng.uniform() < 0.2:
            kw["plot_point"] = True
        c = gen.chain(rng, drawn=True, samples=df, name=f"chain {'abcdef'[i]}", **kw)
        chains.append(c)
        cc.add_chain(c)
    if kind != "summary" and rng.uniform() < 0.2:
        cc.add_marker({c: scale[c] * (off[c] + 1.1) for c in pool}, name="marker")
        chains.append(cc.get_chain("marker"))
    for _ in range(int(rng.choice([0, 1]))):
        cc.add_truth(Truth(location={c: scale[c] * (off[c] + 1) for c in pool}))
    shown = []
    for c in chains:
        hidden = c.color_param if c.plot_cloud else None
        shown += [p for p in c.data_columns if p != hidden and p not in shown]
    every = list(pool)
    r = rng.uniform()
    if r < 0.35:
        blind = True
    else:
        blind = [c for c in every if rng.uniform() < 0.5] or [str(rng.choice(every))]
        if rng.uniform() < 0.2:
            blind += ["weight", "log_posterior"]
    logs = [c for c in every if rng.uniform() < 0.35]
    cfg = dict(labels=labels, blind=blind, log_scales=logs, flip=bool(rng.uniform() < 0.5), plot_hists=bool(rng.uniform() < 0.8), summarise=bool(rng.uniform() < 0.8), diagonal_tick_labels=bool(rng.uniform() < 0.7), show_legend=[None, True, False][int(rng.integers(3))])
    if len(shown) == 1:
        cfg["plot_hists"] = True
    if rng.uniform() < 0.15:
        cfg["watermark"] = "PRELIMINARY"
    if rng.uniform() < 0.2:
        c = str(rng.choice(every))
        cfg["extents"] = {c: (scale[c] * (off[c] + 0.3), scale[c] * (off[c] + 3))}
    cc.set_plot_config(PlotConfig(**cfg))
    return cc, chains, shown, labels, blind, logs, cfg


def ticks(axis) -> list[str]:
    """The texts a reader sees along an axis."""
    out = []
    lo, hi = sorted(axis.get_view_interval())
    for major in (True, False):
        for t in axis.get_major_ticks() if major else axis.get_minor_ticks():
            if not t.get_visible() or not lo <= t.get_loc() <= hi:
                continue
            for lab in (t.label1, t.label2):
                if lab.get_visible() and lab.get_text().strip():
                    out.append(lab.get_text().strip())
    o = axis.get_offset_text()
    if o.get_visible() and o.get_text().strip():
        out.append("offset " + o.get_text().strip())
    return out


def attribute(kind, fig, shown, cfg, n_chains, has_posterior):
    """axes -> (parameter along x, parameter along y); None for no parameter."""
    out = {}
    hists = cfg["plot_hists"]
    if kind == "plot":
        flip = len(shown) == 2 and hists and cfg["flip"]
        for (r, c), ax in figs.panels(fig).items():
            if hists and r == c:
                out[ax] = (None, shown[r]) if flip and r == 1 else (shown[c], None)
            elif r > c or (not hists and r == c):
                out[ax] = (shown[c], shown[r if hists else r + 1])
            else:
                out[ax] = (None, None)
    elif kind == "walks":
        for (r, _), ax in figs.panels(fig).items():
            out[ax] = (None, shown[r - 2] if r >= 2 else None)
    elif kind == "distributions":
        ncol = min(4, len(shown))
        for (r, c), ax in figs.panels(fig).items():
            i = r * ncol + c
            out[ax] = (shown[i] if i < len(shown) else None, None)
    else:
        for (_, c), ax in figs.panels(fig).items():
            out[ax] = (shown[c - 1] if c > 0 else None, None)
    return out


def outer(kind, ax_pos, cfg, shown, n_chains):
    """Which axes of a panel carry tick labels when not blinded: (x, y)."""
    r, c = ax_pos
    if kind == "plot":
        n = len(shown) - (0 if cfg["plot_hists"] else 1)
        flip = len(shown) == 2 and cfg["plot_hists"] and cfg["flip"]
        if r < c:
            return False, False
        return r == n - 1 and not (flip and c == n - 1), c == 0 and not (cfg["plot_hists"] and r == 0)
    if kind == "walks":
        return False, True
    if kind == "distributions":
        return True, False
    return r == n_chains - 1, False


def case(ctx):
    rng = ctx.rng
    kind = str(rng.choice(["plot", "plot", "plot", "walks", "distributions", "summary"]))
    cc, chains, shown, labels, blind, logs, cfg = build(ctx, kind)
    kw = {"errorbar": bool(rng.uniform() < 0.5)} if kind == "summary" else {}
    fig = getattr(cc.plotter, {"plot": "plot", "walks": "plot_walks", "distributions": "plot_distributions", "summary": "plot_summary"}[kind])(**kw)
    if rng.uniform() < 0.25:
        fig.savefig(io.BytesIO(), format=str(rng.choice(["svg", "pdf"])), dpi=200)
        ctx.count("saved")
    fig.canvas.draw()
    hidden = set(shown) | {c.color_param for c in chains if c.color_param} if blind is True else set(blind)
    name = lambda p: labels.get(p, p)  # noqa: E731
    ctx.describe(kind=kind, shown=shown, blind=blind, config={k: v for k, v in cfg.items() if k != "labels"}, chains=len(chains))
    ctx.distinct(kind, len(shown), blind is True, tuple(p in hidden for p in shown), tuple(p in logs for p in shown), cfg["flip"], cfg["plot_hists"], len(chains))
    where = attribute(kind, fig, shown, cfg, len(chains), True)
    pos = {ax: k for k, ax in figs.panels(fig).items()}
    contours = [c for c in chains if c.plot_contour]
    summarised = cfg["summarise"] and kind in ("plot", "distributions") and len(contours if kind == "plot" else chains) == 1
    solo = cc.analysis.get_summary() if summarised else None
    allowed = {name(p) for p in shown} | {c.name for c in chains} | {"PRELIMINARY", "Weight", "$\\log(P)$"}
    seen: list[Text] = []
    for ax, (px, py) in where.items():
        for axis, p, letter in ((ax.xaxis, px, 0), (ax.yaxis, py, 1)):
            shown_ticks = ticks(axis)
            if p in hidden:
                ctx.check_that(not shown_ticks, f"tick labels of a blinded parameter show in {kind}", parameter=p, axis="xy"[letter], texts=shown_ticks, panel=pos[ax], log=p in logs)
                ctx.count("blinded axes")
                lab = axis.get_label_text().strip()
                ctx.check_that(lab in ("", name(p)), f"the axis label of a blinded parameter carries more than its name in {kind}", parameter=p, text=lab)
            elif p is not None and outer(kind, pos[ax], cfg, shown, len(chains))[letter] and p not in logs:
                ctx.check_that(shown_ticks, f"a parameter that is not blinded lost its tick labels in {kind}", parameter=p, axis="xy"[letter], panel=pos[ax])
                ctx.count("open axes")
        title = ax.get_title().strip()
        p = px if px is not None else py
        if kind == "summary":
            ctx.check_that(title in ("", name(p)) if p else not title, "a panel of plot_summary is titled with more than its parameter", text=title)
        elif p in hidden or py in hidden:
            ctx.check_that(not re.search(r"\d", title.replace(name(p), "")), f"the summary of a blinded parameter is written in {kind}", parameter=p, text=title)
            ctx.count("blinded titles")
        elif summarised and p is not None and (kind != "plot" or pos[ax][0] == pos[ax][1]) and kind in ("plot", "distributions") and cfg["plot_hists"]:
            c = (contours if kind == "plot" else chains)[0]
            b = solo[c.name].get(p)
            if p in c.plotting_columns and c.plot_contour and not isinstance(b, list) and b is not None and b.lower is not None and b.upper is not None:
                ctx.check_that(title, f"a parameter that is not blinded lost its summary in {kind}", parameter=p)
                ctx.count("open titles")
        for t in ax.texts:
            s = t.get_text().strip()
            ok = s in allowed or (kind == "plot" and re.fullmatch(r"\d+(\.\d)?%", s))
            ctx.check_that(ok, f"a text of unknown origin stands in a panel of {kind}", text=s, panel=pos[ax])
        leg = ax.get_legend()
        if leg is not None:
            ctx.check_that(all(t.get_text().strip() in allowed for t in leg.get_texts()) and not leg.get_title().get_text().strip(), "the legend carries more than the names of chains", texts=[t.get_text() for t in leg.get_texts()])
    for t in fig.texts:
        ctx.check_that(t.get_text().strip() in ("", "PRELIMINARY"), f"a text of unknown origin stands in {kind}", text=t.get_text())
    for ax in fig.axes:
        if ax in where:
            continue
        # the colour bars
        p = [c for c in [*shown, *{c.color_param for c in chains if c.color_param}] if {"weight": "Weights"}.get(c, name(c)) == ax.get_ylabel().strip()]
        if not ctx.check_that(p, "a colour bar is not labelled with its parameter", label=ax.get_ylabel()):
            continue
        got = ticks(ax.yaxis) + ticks(ax.xaxis)
        if blind is True or p[0] in hidden:
            ctx.check_that(not got, "the colour bar of a blinded parameter shows its values", parameter=p[0], texts=got)
            ctx.count("blinded colour bars")
        else:
            ctx.check_that(got, "the colour bar of a parameter that is not blinded shows no values", parameter=p[0])
            ctx.count("open colour bars")
    ctx.count(f"figures {kind}")


def table(ctx):
    rng = ctx.rng
    cc, chains, shown, labels, blind, logs, cfg = build(ctx, "distributions")
    kw = {}
    if rng.uniform() < 0.5:
        kw["columns"] = [str(c) for c in rng.permutation(shown)]
    kw["transpose"] = bool(rng.uniform() < 0.5)
    text = cc.analysis.get_latex_table(**kw)
    t = latex.parse(text)
    cols = kw.get("columns", shown)
    left = [] if blind is True else [labels.get(c, c) for c in cols if c not in blind]
    got = [r[0] for r in t["rows"][1:]] if kw["transpose"] else t["rows"][0][1:]
    ctx.check_that(got == left, "the table does not leave out exactly the blinded parameters", got=got, want=left, blind=blind)
    width = len(chains) if kw["transpose"] else len(left)
    ctx.check_that(all(len(r) == width + 1 for r in t["rows"]) and latex.columns(t["spec"]) == width + 1, "the table has cells beside those of the parameters shown", rows=t["rows"][:2])
    ctx.count("tables")
    ctx.distinct("table", blind is True, len(left), len(chains), kw["transpose"])


CASES = {"case": (case, 200, 2500), "table": (table, 60, 600)}
REQUIRED = {"blinded axes": 300, "open axes": 40, "blinded titles": 40, "open titles": 8, "blinded colour bars": 5, "open colour bars": 5, "tables": 40, "figures walks": 10, "figures summary": 10, "figures distributions": 10}
