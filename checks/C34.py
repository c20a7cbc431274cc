"""Every text of a figure: labels, tick labels read back as numbers, font sizes, spacing, watermark."""
import re

import numpy as np
from chainconsumer import Chain, ChainConsumer, PlotConfig
from matplotlib.colors import to_hex
from matplotlib.contour import ContourSet

from vlib import figs, gen

ID = "C34"
TITLE = "labels, ticks, fonts and watermark"
RULE = (
    "Each case draws 1-3 chains whose parameters lie at any magnitude and offset (ranges of 1e-9 to 1e9 about values up to 1e5 times larger, on linear or logarithmic axes, with or without "
    "ranges of the user's) with plot, plot_distributions, plot_walks or plot_summary and random text settings. After a draw, every tick label of every axis is read back as a number, with the "
    "offset and power of ten written with it, and compared with its position; labels, font sizes, rotations, the number of ticks, panel spacing, legend and watermark are read from the figure. "
    "Distinct by method, settings and magnitudes."
)
PRELOAD = ["matplotlib.pyplot"]
BATCH = 2


def number(text: str) -> float:
    """A number as matplotlib writes it, in plain text or math text."""
    t = text.replace("\u2212", "-").replace("$", "").replace("\\mathdefault", "").replace("{", "").replace("}", "").replace(" ", "").replace("\\times", "*")
    m = re.fullmatch(r"([-+]?[\d.]+\*)?([-+]?)10\^([-+]?[\d.]+)", t)
    if m:
        lead = float(m.group(1)[:-1]) if m.group(1) else 1.0
        return (-1.0 if m.group(2) == "-" else 1.0) * lead * 10.0 ** float(m.group(3))
    return float(t)


def offset(text: str) -> tuple[float, float]:
    """(factor, shift) of an offset text such as 1e-3+1e3 or +1.25e2."""
    t = text.replace("\u2212", "-").replace("$", "").replace("\\mathdefault", "").replace("{", "").replace("}", "").replace(" ", "").replace("\\times", "x").replace("10^", "1e")
    if not t:
        return 1.0, 0.0
    m = re.fullmatch(r"x?(\d[\d.]*(?:e[-+]?\d+)?)?((?:[-+]\d[\d.]*(?:e[-+]?\d+)?)?)", t)
    if not m:
        raise ValueError(text)
    return float(m.group(1) or 1.0), float(m.group(2) or 0.0)


def precision(text: str) -> float:
    t = text.replace("\u2212", "-")
    m = re.search(r"\.(\d+)", t)
    return 10.0 ** -(len(m.group(1)) if m else 0)


def ticks(axis):
    lo, hi = sorted(axis.get_view_interval())
    out = []
    for pos, lab in zip(axis.get_majorticklocs(), axis.get_ticklabels()):
        if lo <= pos <= hi and lab.get_visible() and lab.get_text():
            out.append((float(pos), lab.get_text(), lab.get_fontsize(), lab.get_rotation()))
    return out


def truthful(ctx, ax, axis, label, bracketed, **info):
    """Each tick label with the offset states the position of its tick."""
    got = ticks(axis)
    if not got:
        return 0
    text = axis.get_label_text()
    off = axis.get_offset_text()
    written = off.get_text() if off.get_visible() else ""
    if bracketed:
        text, inside = figs.split_label(text)
        written = inside or written
    if label is not None:
        ctx.check_that(text.strip() == label.strip(), "an axis does not carry its parameter's label", got=axis.get_label_text(), want=label, **info)
        ctx.count("axis labels")
    try:
        f, s = offset(written)
        vals = [number(t) for _, t, _, _ in got]
    except ValueError as e:
        ctx.fail("a tick label or offset is not a number", text=str(e), labels=[t for _, t, _, _ in got], offset=written, **info)
        return len(got)
    lo, hi = sorted(axis.get_view_interval())
    # the number is written to so many digits; ten-thousandths of the range go unseen anyway
    for (pos, t, _, _), v in zip(got, vals):
        tol = 0.55 * precision(t) * abs(f) if axis.get_scale() == "linear" else 1e-9 * abs(pos)
        tol = min(tol, 0.02 * (hi - lo)) if len(got) > 1 else tol
        ctx.check_that(abs(v * f + s - pos) <= tol + 1e-4 * (hi - lo) * (axis.get_scale() == "linear") + 1e-12 * abs(pos), "a tick label does not state its tick's position", label=t, offset=written, position=pos, range=(lo, hi), **info)
    ctx.count("tick labels read", len(got))
    if f != 1 or s != 0:
        ctx.count("offsets read")
    return len(got)


def build(rng, wide=False):
    cols = gen.names(rng, int(rng.integers(6, 9)) if wide else int(rng.choice([1, 2, 2, 3, 3, 4])))
    where = {}
    for c in cols:
        scale = float(10 ** rng.uniform(-9, 9)) if wide or rng.uniform() < 0.6 else float(10 ** rng.uniform(-2, 2))
        loc = float(rng.choice([0, 0, 1, -3, 30, -1000, 1e5])) * scale * rng.uniform(0.5, 1)
        where[c] = (loc, scale)
    logs = [c for c in cols if rng.uniform() < 0.2]
    cc, n = ChainConsumer(), 400
    decades = float(rng.choice([0.3, 0.7, 2.0, 4.0]))
    nch = 1 if wide else int(rng.choice([1, 1, 2, 3]))
    for i in range(nch):
        data = {}
        for c in cols:
            loc, scale = where[c]
            z = rng.normal(size=n) + 0.3 * i
            data[c] = scale * 10 ** (z * decades) if c in logs else loc + scale * z
        kw = dict(bins=12, smooth=1)
        if rng.uniform() < 0.4:
            kw.update(show_contour_labels=True, sigmas=[0, 1, 2])
        cc.add_chain(Chain(samples=gen.frame(rng, data, logp=-rng.exponential(size=n) if rng.uniform() < 0.4 else None), name=f"chain {'abc'[i]}", **kw))
    return cc, cc.get_chain("chain a").data_columns, where, logs, nch


def settings(rng, cols, where, logs):
    cfg = dict(labels={c: f"quantity {chr(65 + k)}" for k, c in enumerate(cols) if rng.uniform() < 0.6}, log_scales=logs)
    # distinct sizes tell where each of them went
    sizes = [int(s) for s in rng.choice(np.arange(5, 24), size=4, replace=False)]
    for key, size in zip(["label_font_size", "tick_font_size", "summary_font_size", "contour_label_font_size"], sizes):
        if rng.uniform() < 0.7:
            cfg[key] = size
    if rng.uniform() < 0.6:
        cfg["max_ticks"] = int(rng.integers(3, 11))
    if rng.uniform() < 0.5:
        cfg["diagonal_tick_labels"] = bool(rng.uniform() < 0.3)
    if rng.uniform() < 0.5:
        cfg["spacing"] = float(rng.choice([0, 0, 0.5, 1, 3, 6]))
    if rng.uniform() < 0.5:
        cfg["flip"] = True
    if rng.uniform() < 0.5:
        cfg["watermark"] = str(rng.choice(["Preliminary", "Do not use", "v 2", "DRAFT"]))
        if rng.uniform() < 0.6:
            cfg["watermark_text_kwargs"] = {k: v for k, v in dict(color=str(rng.choice(["#aa1100", "#0033aa"])), alpha=float(rng.choice([0.2, 0.5])), weight=str(rng.choice(["bold", "normal"]))).items() if rng.uniform() < 0.7}
    if rng.uniform() < 0.4:
        cfg["legend_kwargs"] = {k: v for k, v in dict(fontsize=int(rng.integers(25, 30)), title="the title", frameon=True).items() if rng.uniform() < 0.6}
    if rng.uniform() < 0.3:
        cfg["extents"] = {}
        for c in cols:
            if c not in logs and rng.uniform() < 0.6:
                loc, scale = where[c]
                cfg["extents"][c] = (loc - scale * float(rng.uniform(0.5, 4)), loc + scale * float(rng.uniform(0.5, 4)))
    return cfg


def watermark(ctx, fig, cfg, how):
    texts = [t for t in fig.texts] + [t for ax in fig.axes for t in ax.texts]
    want = cfg.get("watermark")
    marks = [t for t in texts if want is not None and t.get_text() == want]
    if want is None:
        ctx.check_that(not fig.texts, "a figure without a watermark has a text across it", texts=[t.get_text() for t in fig.texts], how=how)
        return
    ctx.count("watermarks")
    if not ctx.check_that(len(marks) == 1, "the watermark is not written exactly once", times=len(marks), how=how):
        return
    t = marks[0]
    kw = dict(color="#333333", alpha=0.7, weight="bold") | cfg.get("watermark_text_kwargs", {})
    ctx.check_that(to_hex(t.get_color()) == kw["color"] and t.get_alpha() == kw["alpha"] and t.get_weight() == kw["weight"] and t.get_visible(), "the watermark is not in its style", got=(to_hex(t.get_color()), t.get_alpha(), t.get_weight()), want=kw, how=how)
    ctx.check_that(t.get_fontsize() > 0 and t.get_position() == (0.5, 0.5), "the watermark is not in the middle of the figure", size=t.get_fontsize(), position=t.get_position(), how=how)
    # along the falling diagonal
    w, h = fig.get_size_inches()
    ctx.check_that(abs((t.get_rotation() - np.degrees(np.arctan2(-h, w)) + 180) % 360 - 180) < 1.0, "the watermark does not run along the diagonal", rotation=t.get_rotation(), size=(w, h), how=how)


def wide(ctx):
    case(ctx, True)


def case(ctx, wide=False):
    rng = ctx.rng
    cc, cols, where, logs, nch = build(rng, wide)
    cfg = settings(rng, cols, where, logs)
    how = str(rng.choice(["plot", "plot", "plot_distributions", "plot_walks", "plot_summary"]))
    if rng.uniform() < 0.25 or len(cols) == 1:
        cfg["plot_hists"] = len(cols) == 1
    cc.set_plot_config(PlotConfig(**cfg))
    ctx.describe(method=how, places={c: where[c] for c in cols}, logs=logs, chains=nch, settings=cfg)
    kw = {}
    if how == "plot" and not wide and rng.uniform() < 0.3:
        side = float(rng.uniform(5, 11))
        kw["figsize"] = (side, side * float(rng.choice([0.93, 1.0, 1.08, 1.4])))
        ctx.count("figure sizes given")
    fig = getattr(cc.plotter, how)(**kw)
    fig.canvas.draw()
    full = PlotConfig(**cfg)
    name = {c: cfg["labels"].get(c, c) for c in cols}
    grid = figs.panels(fig)
    info = dict(how=how)
    flip = how == "plot" and len(cols) == 2 and full.plot_hists and full.flip
    seen = 0
    styled = []  # (axis, ticks) to which font sizes, rotation and max_ticks apply
    if how == "plot":
        rows, columns = (cols, cols) if full.plot_hists else (cols[1:], cols[:-1])
        for (i, j), ax in grid.items():
            if i < j:
                continue
            for axis, c in ((ax.xaxis, columns[j]), (ax.yaxis, rows[i])):
                if ticks(axis):
                    seen += truthful(ctx, ax, axis, name[c], True, panel=(i, j), **info)
                    styled.append(axis)
            if i == len(rows) - 1 and not (flip and j == 1):
                ctx.check_that(figs.split_label(ax.get_xlabel())[0] == name[columns[j]].strip(), "a column does not carry its label", got=ax.get_xlabel(), want=name[columns[j]], **info)
                ctx.check_that(ax.xaxis.label.get_fontsize() == full.label_font_size, "an axis label is not in the label font size", got=ax.xaxis.label.get_fontsize(), want=full.label_font_size, **info)
                ctx.check_that(len(ticks(ax.xaxis)) > 0 or full.max_ticks <= 3 or columns[j] in logs, "a column has no tick labels", **info)
            if j == 0 and not (full.plot_hists and i == 0):
                ctx.check_that(figs.split_label(ax.get_ylabel())[0] == name[rows[i]].strip(), "a row does not carry its label", got=ax.get_ylabel(), want=name[rows[i]], **info)
                ctx.check_that(ax.yaxis.label.get_fontsize() == full.label_font_size, "an axis label is not in the label font size", got=ax.yaxis.label.get_fontsize(), want=full.label_font_size, **info)
                ctx.check_that(len(ticks(ax.yaxis)) > 0 or full.max_ticks <= 3 or rows[i] in logs, "a row has no tick labels", **info)
        p = fig.subplotpars
        if "spacing" in cfg:
            boxes = {k: a.get_position() for k, a in grid.items()}
            nr = max(i for i, _ in boxes) + 1
            if nr > 1:
                ctx.count("spacings")
                for k in range(nr - 1):
                    gap = boxes[(nr - 1, k + 1)].x0 - boxes[(nr - 1, k)].x1
                    mean = np.mean([boxes[(nr - 1, m)].width for m in range(nr)])
                    ctx.check_that(abs(gap / mean - 0.05 * cfg["spacing"]) < 2e-3, "panels are not spaced as asked", gap=gap / mean, spacing=cfg["spacing"], **info)
                    gap = boxes[(k, 0)].y0 - boxes[(k + 1, 0)].y1
                    mean = np.mean([boxes[(m, 0)].height for m in range(nr)])
                    ctx.check_that(abs(gap / mean - 0.05 * cfg["spacing"]) < 2e-3, "panels are not spaced as asked", gap=gap / mean, spacing=cfg["spacing"], **info)
        # contour labels
        for ax in grid.values():
            for cs in ax.collections:
                if isinstance(cs, ContourSet) and getattr(cs, "labelTexts", None):
                    for t in cs.labelTexts:
                        ctx.check_that(t.get_fontsize() == full.contour_label_font_size, "a contour label is not in its font size", got=t.get_fontsize(), want=full.contour_label_font_size, **info)
                        ctx.count("contour labels")
        legends = [a.get_legend() for a in fig.axes if a.get_legend() is not None]
        for leg in legends:
            want = cfg.get("legend_kwargs", {})
            size = want.get("fontsize", full.label_font_size)
            ctx.check_that(all(t.get_fontsize() == size for t in leg.get_texts()), "a legend text is not in the font size asked for", got=[t.get_fontsize() for t in leg.get_texts()], want=size, **info)
            ctx.check_that(leg.get_title().get_text() in ("the title",) if "title" in want else leg.get_title().get_text() in ("", "None"), "the legend's title is not the one asked for", got=leg.get_title().get_text(), **info)
            ctx.check_that(bool(leg.get_frame_on()) == bool(want.get("frameon", False)), "the legend's frame is not as asked for", **info)
            ctx.count("legends")
    elif how == "plot_distributions":
        for ax in fig.axes:
            if not ax.axison:
                continue
            c = cols[fig.axes.index(ax)]
            seen += truthful(ctx, ax, ax.xaxis, name[c], False, **info)
            ctx.check_that(ax.get_xlabel() == name[c], "a panel does not carry its label", got=ax.get_xlabel(), want=name[c], **info)
            ctx.check_that(ax.xaxis.label.get_fontsize() == full.label_font_size, "an axis label is not in the label font size", got=ax.xaxis.label.get_fontsize(), want=full.label_font_size, **info)
            styled.append(ax.xaxis)
            ctx.check_that(not ticks(ax.yaxis), "the height of a marginal has tick labels", **info)
    elif how == "plot_walks":
        axes = fig.axes
        for c, ax in zip(cols, axes[len(axes) - len(cols) :]):
            ctx.check_that(ax.get_ylabel() == name[c], "a panel does not carry its label", got=ax.get_ylabel(), want=name[c], **info)
            ctx.check_that(len(ticks(ax.yaxis)) <= full.max_ticks + (c in logs), "an axis has more ticks than asked for", got=len(ticks(ax.yaxis)), want=full.max_ticks, **info)
        for ax in axes:
            seen += truthful(ctx, ax, ax.yaxis, None, False, **info)
        seen += truthful(ctx, axes[-1], axes[-1].xaxis, None, False, **info)
    else:
        for (i, j), ax in grid.items():
            if j == 0:
                texts = [t for t in ax.texts]
                ctx.check_that([t.get_fontsize() for t in texts] == [full.label_font_size], "a chain's name is not in the label font size", got=[t.get_fontsize() for t in texts], **info)
                continue
            seen += truthful(ctx, ax, ax.xaxis, None, False, **info)
            if i == 0:
                ctx.check_that(ax.get_title() == name[cols[j - 1]], "a column does not carry its label", got=ax.get_title(), want=name[cols[j - 1]], **info)
                ctx.check_that(ax.title.get_fontsize() == full.label_font_size, "a column's label is not in the label font size", got=ax.title.get_fontsize(), want=full.label_font_size, **info)
            ctx.check_that(bool(ticks(ax.xaxis)) <= (i == nch - 1), "a row other than the last has tick labels", **info)
    for axis in styled:
        got = ticks(axis)
        ctx.check_that(all(s == full.tick_font_size for _, _, s, _ in got), "a tick label is not in the tick font size", got=[s for _, _, s, _ in got], want=full.tick_font_size, **info)
        ctx.check_that(all(r == (45 if full.diagonal_tick_labels else 0) for *_, r in got), "tick labels are not turned as asked", got=[r for *_, r in got], diagonal=full.diagonal_tick_labels, **info)
        extra = 1 if axis.get_scale() == "log" else 0
        ctx.check_that(len(got) <= full.max_ticks + extra, "an axis has more ticks than asked for", got=[t for _, t, _, _ in got], want=full.max_ticks, **info)
        ctx.count("axes with styled ticks")
    if how in ("plot", "plot_distributions"):
        for ax in fig.axes:
            if ax.get_title():
                ctx.check_that(ax.title.get_fontsize() == full.summary_font_size, "a summary is not in the summary font size", got=ax.title.get_fontsize(), want=full.summary_font_size, **info)
                ctx.count("summaries")
    watermark(ctx, fig, cfg, how)
    ctx.check_that(seen > 0 or full.max_ticks <= 3 or len(logs) == len(cols), "a figure has no tick labels at all", **info)
    ctx.distinct(how, len(cols), nch, tuple(sorted(cfg)), round(np.log10(max(s for _, s in where.values())), 1))


CASES = {"texts": (case, 260, 5000), "wide": (wide, 10, 200)}
REQUIRED = {"tick labels read": 800, "offsets read": 120, "axis labels": 150, "watermarks": 50, "summaries": 30, "contour labels": 60, "legends": 20, "spacings": 20}
