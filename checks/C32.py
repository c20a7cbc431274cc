"""Every output for a selection of chains and columns, against a reference selection."""
import itertools

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.color_finder import colors

from vlib import figs, gen, latex

ID = "C32"
TITLE = "selection"
RULE = (
    'Each case is 2-7 chains over a pool of 2-4 parameters (contours, clouds, points, markers, and chains with nothing to draw; automatic and own '
    'colours, overlapping parameters in different orders), a selection of them by name, by object or mixed, in any order, or none, and of columns '
    'in any order, or none. Triangle, walks, distributions and summary plots, tables and summaries are read back: which chains, in which order '
    'and colour, which columns, in which order; then everything is compared for a second selection. One kind has colour parameters of one chain '
    'that are columns of another. Distinct by chains, selections and output.'
)
PRELOAD = ["matplotlib.pyplot"]


def subset(rng, items, least=1):
    k = int(rng.integers(least, len(items) + 1))
    return [items[i] for i in rng.permutation(len(items))[:k]]


def consumer(ctx, few=2, many=5):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(few, many)))
    cc = ChainConsumer()
    chains, auto = [], colors.next_colour()
    spec = []
    nch = int(rng.integers(2, 8 if few < 5 else 4))
    called = gen.chain_names(rng, nch)
    if rng.uniform() < 0.1:
        called[int(rng.integers(nch))] = ""
        ctx.count("chains with blank names")
    for i in range(nch):
        cols = subset(rng, pool, 1)
        if i == 0:
            cols = [pool[j] for j in rng.permutation(len(pool))]
        draw = str(rng.choice(["contour"] * 5 + ["point", "cloud", "nothing", "contour point"]))
        if i == 0:
            draw = "contour"
        n = int(rng.integers(120, 300))
        df = pd.DataFrame({c: rng.normal(size=n) + j for j, c in enumerate(cols)})
        # the log posterior tells which chain a point belongs to
        df["log_posterior"] = -rng.exponential(size=n)
        kw = dict(plot_contour="contour" in draw, plot_point="point" in draw, plot_cloud="cloud" in draw, bins=8, marker_size=float(20 + i), num_cloud=50)
        kw.update(gen.fashion(rng, n))
        if kw.get("smooth") == 0:  # bars and curves are not drawn in one order
            del kw["smooth"]
        own = rng.uniform() < 0.3
        if own:
            kw["color"] = f"#{i + 1:02x}4080"
        name = called[i]
        c = gen.chain(rng, drawn=True, samples=df, name=name, **kw)
        cc.add_chain(c)
        colour = figs.hexcol(kw["color"]) if own else figs.hexcol(next(auto))
        chains.append(dict(name=name, cols=cols, draw=draw, colour=colour, obj=c, df=df, own=own, i=i))
    return pool, cc, chains


def union(chains):
    return list(dict.fromkeys(itertools.chain.from_iterable(c["cols"] for c in chains)))


def selection(ctx, pool, chains):
    """(chains argument, columns argument, chains expected, columns expected)"""
    rng = ctx.rng
    drawn = lambda cs: [c for c in cs if c["draw"] != "nothing"]  # noqa: E731
    if rng.uniform() < 0.2:
        picked, arg = chains, None
    else:
        while True:
            picked = subset(rng, chains)
            if drawn(picked):
                break
        style = str(rng.choice(["names", "objects", "mixed"]))
        arg = [c["name"] if style == "names" or (style == "mixed" and rng.uniform() < 0.5) else c["obj"] for c in picked]
    shown = drawn(picked)
    everywhere = union(shown)
    columns = None if rng.uniform() < 0.4 else subset(rng, everywhere)
    return arg, columns, shown, columns or everywhere


def curve_colours(ax):
    return [c["color"] for c in figs.curves(ax)]


def triangle(ctx, cc, arg, columns, shown, want, info):
    fig = cc.plotter.plot(chains=arg, columns=columns)
    pan = figs.panels(fig)
    k = len(want)
    if not ctx.check_that(set(pan) == {(i, j) for i in range(k) for j in range(k)}, "the triangle does not have a row for every column", got=sorted(pan), **info):
        return
    strip = lambda t: figs.split_label(t)[0]  # noqa: E731
    got = [strip(pan[k - 1, j].get_xlabel()) for j in range(k)]
    ctx.check_that(got == want, "the columns of the triangle are not those asked for, in that order", got=got, want=want, **info)
    for i, j in pan:
        if i < j:
            continue
        has = [c for c in shown if want[i] in c["cols"] and want[j] in c["cols"]]
        if i == j:
            got = curve_colours(pan[i, j])
            ref = [c["colour"] for c in has if "contour" in c["draw"]]
            ctx.check_that(got == ref, "the marginals of a panel are not those of the chains selected", column=want[i], got=got, want=ref, **info)
        else:
            lines = [c for c in figs.contours(pan[i, j]) if not c.filled]
            ctx.check_that(len(lines) == sum("contour" in c["draw"] for c in has), "a panel has the contours of other chains", columns=(want[j], want[i]), got=len(lines), **info)
            sizes = sorted(float(s.get_sizes()[0]) for s in figs.scatters(pan[i, j]) if len(s.get_offsets()) == 1)
            ref = sorted(20.0 + c["i"] for c in has if "point" in c["draw"])
            ctx.check_that(sizes == ref, "a panel has the points of other chains", columns=(want[j], want[i]), got=sizes, want=ref, **info)
            clouds = [figs.hexcol(s.get_facecolor()[0]) for s in figs.scatters(pan[i, j]) if len(s.get_offsets()) > 1]
            ref = [c["colour"] for c in has if "cloud" in c["draw"]]
            ctx.check_that(clouds == ref, "a panel has the clouds of other chains", columns=(want[j], want[i]), got=clouds, want=ref, **info)
            fills = [c for c in figs.contours(pan[i, j]) if c.filled]
            for f in fills:
                ctx.check_that(abs(f.get_alpha() - 1 / np.sqrt(info["contour_chains"])) < 1e-9, "the opacity of a fill depends on the selection", got=f.get_alpha(), **info)
            ctx.check_that(len(fills) == (len(lines) if info["contour_chains"] < 5 else 0), "whether contours are filled depends on the selection", got=len(fills), **info)
    legs = [ax.get_legend() for ax in fig.axes if ax.get_legend() is not None]
    if len(shown) > 1:
        got = [t.get_text().strip() for t in legs[0].get_texts()] if legs else []
        ctx.check_that(got == [c["name"] for c in shown], "the legend does not list the chains selected, in that order", got=got, **info)
        cols = [figs.hexcol(t.get_color()) for t in legs[0].get_texts()] if legs else []
        ctx.check_that(cols == [c["colour"] for c in shown], "a chain's colour in the legend depends on the selection", got=cols, want=[c["colour"] for c in shown], **info)
    else:
        ctx.check_that(not legs, "a legend for a single chain", **info)


def walks(ctx, cc, arg, columns, shown, want, info):
    fig = cc.plotter.plot_walks(chains=arg, columns=columns, plot_posterior=False, plot_weights=False)
    pan = figs.panels(fig)
    got = [pan[k].get_ylabel() for k in sorted(pan)]
    ctx.check_that(got == want, "the panels of the walks are not the columns asked for, in that order", got=got, want=want, **info)
    for (i, _), ax in pan.items():
        if i >= len(want):
            continue
        got = [figs.hexcol(s.get_facecolor()[0]) for s in figs.scatters(ax)]
        ref = [c["colour"] for c in shown if want[i] in c["cols"]]
        ctx.check_that(got == ref, "the walks of a panel are not those of the chains selected, in that order", column=want[i], got=got, want=ref, **info)


def distributions(ctx, cc, arg, columns, shown, want, info):
    wrap = int(ctx.rng.integers(1, 5))
    fig = cc.plotter.plot_distributions(chains=arg, columns=columns, col_wrap=wrap)
    pan = figs.panels(fig)
    used = [k for k in sorted(pan) if pan[k].axison]
    got = [pan[k].get_xlabel() for k in used]
    ctx.check_that(got == want, "the panels of the distributions are not the columns asked for, in that order", got=got, want=want, wrap=wrap, **info)
    ctx.check_that(used == [(i // wrap, i % wrap) for i in range(len(want))], "the panels do not wrap as asked", got=used, wrap=wrap, **info)
    for k, c in zip(used, want):
        got = curve_colours(pan[k])
        ref = [x["colour"] for x in shown if c in x["cols"] and "contour" in x["draw"]]
        ctx.check_that(got == ref, "the marginals of a panel are not those of the chains selected, in that order", column=c, got=got, want=ref, **info)


def summary(ctx, cc, arg, columns, shown, want, info):
    error = bool(ctx.rng.uniform() < 0.4)
    fig = cc.plotter.plot_summary(chains=arg, columns=columns, errorbar=error)
    pan = figs.panels(fig)
    if not ctx.check_that(set(pan) == {(i, j) for i in range(len(shown)) for j in range(len(want) + 1)}, "the summary does not have a row for every chain and a panel for every column", got=sorted(pan), **info):
        return
    got = [pan[i, 0].texts[0].get_text() for i in range(len(shown))]
    ctx.check_that(got == [c["name"] for c in shown], "the rows of the summary are not the chains selected, in that order", got=got, **info)
    got = [figs.hexcol(pan[i, 0].texts[0].get_color()) for i in range(len(shown))]
    ctx.check_that(got == [c["colour"] for c in shown], "a chain's colour depends on the selection", got=got, want=[c["colour"] for c in shown], **info)
    got = [pan[0, j + 1].get_title() for j in range(len(want))]
    ctx.check_that(got == want, "the columns of the summary are not those asked for, in that order", got=got, want=want, **info)
    for (i, c), (j, p) in itertools.product(enumerate(shown), enumerate(want)):
        ax = pan[i, j + 1]
        has = p in c["cols"] and "contour" in c["draw"]
        if error:
            e = figs.errorbars(ax)
            marks = [ln for ln in ax.lines if len(ln.get_xdata()) == 1]
            ctx.check_that(bool(e) <= has and len(e) <= 1 and all(b["color"] == c["colour"] for b in e), "a panel of the summary has another chain's error bar", chain=c["name"], column=p, drawn=len(e), **info)
            ctx.check_that(len(marks) == len(e), "an error bar without its centre", chain=c["name"], column=p)
        else:
            ctx.check_that(curve_colours(ax) == [c["colour"]] * has, "a panel of the summary has another chain's marginal", chain=c["name"], column=p, got=curve_colours(ax), **info)


def tables(ctx, cc, arg, columns, shown, want, info):
    rng = ctx.rng
    flip = bool(rng.uniform() < 0.5)
    t = latex.parse(cc.analysis.get_latex_table(chains=arg, columns=columns, transpose=flip))
    rows = t["rows"] if not flip else [list(r) for r in zip(*t["rows"])]
    ctx.check_that(rows[0][1:] == want, "the columns of the table are not those asked for, in that order", got=rows[0], want=want, transposed=flip, **info)
    ctx.check_that([r[0] for r in rows[1:]] == [c["name"] for c in shown], "the rows of the table are not the chains selected, in that order", got=[r[0] for r in rows[1:]], transposed=flip, **info)
    for r, c in zip(rows[1:], shown):
        for p, cell in zip(want, r[1:]):
            ctx.check_that((cell == "--") <= (p not in c["cols"]) or not cell, "a cell of a parameter the chain has is left blank", chain=c["name"], column=p)
            if p not in c["cols"]:
                ctx.check_that(cell == "--", "a cell of a parameter the chain lacks is filled", chain=c["name"], column=p, cell=cell)


def summaries(ctx, cc, arg, columns, shown, want, info, chains):
    # a summary is of all chains, or of the chain objects given, drawn or not
    everything = cc.analysis.get_summary()
    ctx.check_that(list(everything) == [c["name"] for c in chains], "the summary does not have every chain in order", got=list(everything))
    for c in chains:
        ctx.check_that(list(everything[c["name"]]) == [p for p in union(chains) if p in c["cols"]], "the summary of a chain does not have its parameters", chain=c["name"], got=list(everything[c["name"]]))
    picked = subset(ctx.rng, chains)
    cols = subset(ctx.rng, union(picked))
    part = cc.analysis.get_summary(chains=[c["obj"] for c in picked], columns=cols)
    ctx.check_that(list(part) == [c["name"] for c in picked], "the summary does not have the chains asked for, in that order", got=list(part), want=[c["name"] for c in picked])
    for c in picked:
        ctx.check_that(list(part[c["name"]]) == [p for p in cols if p in c["cols"]], "the summary of a chain does not have the columns asked for, in that order", got=list(part[c["name"]]), want=cols)
        for p, b in part[c["name"]].items():
            ctx.check_that(b == everything[c["name"]][p], "the summary of a parameter depends on the selection", chain=c["name"], column=p, got=b, want=everything[c["name"]][p])
    names = [c["name"] for c in subset(ctx.rng, chains)]
    best = cc.analysis.get_max_posteriors(names)
    ctx.check_that(list(best) == names, "the maximum posteriors are not those of the chains asked for, in that order", got=list(best), want=names)
    ctx.check_that(list(cc.analysis.get_max_posteriors()) == [c["name"] for c in chains], "the maximum posteriors are not those of all chains")
    one = chains[int(ctx.rng.integers(len(chains)))]
    cols = subset(ctx.rng, one["cols"])
    who = one["name"] if ctx.rng.uniform() < 0.5 else one["obj"]
    full = one["obj"].get_covariance().matrix
    got = one["obj"].get_covariance(columns=cols)
    idx = [one["cols"].index(c) for c in cols]
    ctx.check_that(list(got.columns) == cols and np.allclose(got.matrix, full[np.ix_(idx, idx)], rtol=1e-9, atol=1e-12), "the covariance is not that of the columns asked for, in that order", got=got.columns, want=cols)
    got = one["obj"].get_correlation(columns=cols)
    d = np.sqrt(np.diag(full))
    ctx.check_that(list(got.columns) == cols and np.allclose(got.matrix, (full / np.outer(d, d))[np.ix_(idx, idx)], atol=1e-9), "the correlation is not that of the columns asked for, in that order", got=got.columns, want=cols)
    for table in (cc.analysis.get_covariance_table, cc.analysis.get_correlation_table):
        t = latex.parse(table(who, columns=cols))
        ctx.check_that([c for c in t["rows"][0] if c] == cols and [r[0] for r in t["rows"][1:]] == cols, "the matrix table is not of the columns asked for, in that order", got=t["rows"][0], want=cols)


OUTPUTS = dict(triangle=triangle, walks=walks, distributions=distributions, summary=summary, tables=tables)


def case(ctx):
    rng = ctx.rng
    pool, cc, chains = consumer(ctx)
    if rng.uniform() < 0.2:
        # an override of something else leaves the selection alone
        cc.set_override(ChainConfig(linewidth=2.0))
    cc.set_plot_config(PlotConfig(flip=False, summarise=bool(rng.uniform() < 0.5)))
    which = list(rng.permutation(list(OUTPUTS))[:2])
    log = []
    for what in which:
        for _ in range(2):
            arg, columns, shown, want = selection(ctx, pool, chains)
            keep = (None if arg is None else list(arg), None if columns is None else list(columns))
            info = dict(output=str(what), contour_chains=sum("contour" in c["draw"] for c in chains), chains=None if arg is None else [c["name"] for c in shown], columns_given=columns)
            log.append(dict(output=str(what), chains=info["chains"], columns=columns))
            ctx.describe(chains=[dict(name=c["name"], columns=c["cols"], draw=c["draw"], colour=c["colour"]) for c in chains], calls=log)
            OUTPUTS[str(what)](ctx, cc, arg, columns, shown, want, info)
            same = (arg is None or (len(arg) == len(keep[0]) and all(a is b for a, b in zip(arg, keep[0])))) and columns == keep[1]
            ctx.check_that(same, "the lists given were changed", **info)
            ctx.count(str(what))
            if arg is not None:
                ctx.count("selections of chains")
            if columns is not None:
                ctx.count("selections of columns")
            ctx.distinct(str(what), tuple(c["draw"] for c in chains), tuple(c["i"] for c in shown), arg is None, tuple(want), columns is None)
    if rng.uniform() < 0.5:
        summaries(ctx, cc, None, None, None, None, {}, chains)
        ctx.count("summaries")


def wide(ctx):
    """Many parameters."""
    rng = ctx.rng
    pool, cc, chains = consumer(ctx, 11, 16)
    cc.set_plot_config(PlotConfig(flip=False, summarise=False))
    what = str(rng.choice(["walks", "distributions", "summary", "tables", "tables", "triangle" if rng.uniform() < 0.3 else "walks"]))
    columns = None if rng.uniform() < 0.5 else [str(c) for c in rng.permutation(pool)]
    shown = [c for c in chains if c["draw"] != "nothing"]
    info = dict(output=what, contour_chains=sum("contour" in c["draw"] for c in chains), columns_given=columns)
    ctx.describe(chains=[dict(name=c["name"], columns=c["cols"], draw=c["draw"]) for c in chains], output=what, columns=columns)
    OUTPUTS[what](ctx, cc, None, columns, shown, columns or union(shown), info)
    got = cc.analysis.get_summary()
    ctx.check_that(all(list(got[c["name"]]) == [p for p in union(chains) if p in c["cols"]] for c in chains), "the summary of a chain of many parameters does not have them all", got={k: list(v) for k, v in got.items()})
    ctx.count("wide")
    ctx.distinct("wide", what, len(pool), columns is None, len(chains))


def coloured(ctx):
    """A parameter that only gives the points of a cloud their colours takes no panel, unless it is a parameter of another chain."""
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(3, 6)))
    cc, spec = ChainConsumer(), []
    for i in range(int(rng.integers(1, 5))):
        cols = [str(c) for c in rng.permutation(pool)[: rng.integers(2 if i else len(pool), len(pool) + 1)]]
        n = 150
        kw = {}
        if rng.uniform() < 0.6 or i == 0:
            kw = dict(color_param=str(rng.choice(cols)), plot_cloud=bool(rng.uniform() < 0.8 or i == 0), num_cloud=40)
        cc.add_chain(gen.chain(rng, drawn=True, samples=pd.DataFrame({c: rng.normal(size=n) + j for j, c in enumerate(cols)}), name=f"chain {i}", bins=8, **kw))
        spec.append((f"chain {i}", [c for c in cols if not (kw.get("plot_cloud") and c == kw["color_param"])], kw))
    cc.set_plot_config(PlotConfig(flip=False, summarise=False))
    some = [spec[j] for j in rng.permutation(len(spec))[: rng.integers(1, len(spec) + 1)]]
    arg = None if rng.uniform() < 0.4 else [c[0] for c in some]
    want = list(dict.fromkeys(itertools.chain.from_iterable(c[1] for c in (spec if arg is None else some))))
    what = str(rng.choice(["triangle", "walks", "distributions", "summary", "table"]))
    ctx.describe(chains=spec, selected=arg, output=what)
    if what == "table":
        got = latex.parse(cc.analysis.get_latex_table(chains=arg))["rows"][0][1:]
    elif what == "walks":
        pan = figs.panels(cc.plotter.plot_walks(chains=arg, plot_posterior=False, plot_weights=False))
        got = [pan[k].get_ylabel() for k in sorted(pan)]
    elif what == "distributions":
        pan = figs.panels(cc.plotter.plot_distributions(chains=arg))
        got = [pan[k].get_xlabel() for k in sorted(pan) if pan[k].axison]
    elif what == "summary":
        pan = figs.panels(cc.plotter.plot_summary(chains=arg))
        got = [pan[0, j].get_title() for j in range(1, 1 + max(k[1] for k in pan))]
    else:
        pan = figs.panels(cc.plotter.plot(chains=arg))
        k = 1 + max(i for i, _ in pan)
        got = [figs.split_label(pan[k - 1, j].get_xlabel())[0] for j in range(k)]
    ctx.check_that(got == want, "the columns shown are not the parameters of the chains selected", output=what, got=got, want=want, chains=spec, selected=arg)
    ctx.count("coloured")
    ctx.distinct("coloured", what, arg is None, len(spec), tuple(want))


CASES = {"coloured": (coloured, 60, 1500), "case": (case, 220, 9000), "wide": (wide, 20, 300)}
REQUIRED = {"triangle": 50, "walks": 50, "distributions": 50, "summary": 50, "tables": 50, "wide": 15, "coloured": 30, "summaries": 30, "selections of chains": 200, "selections of columns": 150}
