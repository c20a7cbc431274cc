"""LaTeX parameter tables parsed and compared cell by cell with the summaries of each chain on its own."""
import os
import tempfile
from pathlib import Path

import numpy as np
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.statistics import SummaryStatistic as S

from vlib import gen, latex, ptext

ID = "C16"
TITLE = "LaTeX parameter tables"
RULE = (
    "Each case is 1-5 chains and markers with overlapping parameters, every statistic, multimodal and unconstrained parameters, weights and labels, in tables with random selection and order of chains and "
    "columns, transposed or not, with captions, labels, fills, rules and files; each cell is compared with the summary of that chain alone. Distinct by shape, selection and options."
)


def build(rng, i, pool):
    k = int(rng.integers(1, len(pool) + 1))
    cols = [str(c) for c in rng.permutation(pool)[:k]]
    if rng.uniform() < 0.15:
        return None, cols, {c: float(rng.normal() * 10 ** rng.uniform(-3, 3)) for c in cols}
    n = int(rng.choice([600, 2500]))
    data = {}
    for c in cols:
        data[c] = gen.shape(rng, n, str(rng.choice(["normal", "gamma", "uniform", "bimodal", "exponential"])))[:n]
    wk, w = gen.weights(rng, n)
    lp = -rng.exponential(size=n) if rng.uniform() < 0.4 else None
    kw = {}
    r = rng.uniform()
    if r < 0.6:
        kw["statistics"] = list(S)[int(rng.integers(5))]
    elif r < 0.8:
        kw["multimodal"] = True
    if rng.uniform() < 0.3:
        kw["summary_area"] = float(rng.choice([0.5, 0.9, 0.9545]))
    if rng.uniform() < 0.3:
        kw["smooth"] = int(rng.choice([0, 2]))
    if rng.uniform() < 0.2:
        kw["plot_cloud"] = True
        if rng.uniform() < 0.6 and len(cols) > 1:
            kw["color_param"] = cols[0]
    df = gen.frame(rng, data, w, lp, gen.index(rng, n)[1])
    return Chain(samples=df, name=str(rng.choice(["M", "model A", "Ünï", "$\\Lambda$CDM"])) + f" {i}", **kw), cols, None


def case(ctx):
    rng = ctx.rng
    cc, chains, solo = ChainConsumer(), [], {}
    pool = gen.names(rng, int(rng.integers(1, 5) if rng.uniform() < 0.9 else rng.integers(5, 15)))
    over = None
    if rng.uniform() < 0.25:
        over = ChainConfig(summary_area=0.8, bins=int(rng.integers(20, 50)))
        cc.set_override(over)
    for i in range(int(rng.integers(1, 6))):
        c, cols, loc = build(rng, i, pool)
        if c is None:
            cc.add_marker(loc, name=f"marker {i}")
            c = cc.get_chain(f"marker {i}")
        else:
            cc.add_chain(c)
        chains.append(c)
        alone = ChainConsumer().add_chain(c)
        if over is not None:
            alone.set_override(over)
        # all its columns, the colour parameter included
        solo[c.name] = alone.analysis.get_summary(columns=list(pool))[c.name]
    labels = {c: f"$P_{{{i}}}$" for i, c in enumerate(pool) if rng.uniform() < 0.4}
    cc.set_plot_config(PlotConfig(labels=labels))
    kw, want_chains, want_cols = {}, chains, None
    if rng.uniform() < 0.5:
        want_chains = [chains[j] for j in rng.permutation(len(chains))[: rng.integers(1, len(chains) + 1)]]
        kw["chains"] = [c.name if rng.uniform() < 0.6 else c for c in want_chains]
    if rng.uniform() < 0.5:
        want_cols = [str(c) for c in rng.permutation(pool)[: rng.integers(1, len(pool) + 1)]]
        kw["columns"] = list(want_cols)
    else:
        want_cols = []
        for c in want_chains:
            cloud_color = c.color_param if c.plot_cloud else None
            want_cols += [p for p in c.samples.columns if p in pool and p != cloud_color and p not in want_cols]
    given = {k: list(v) for k, v in kw.items()}
    transpose = bool(rng.uniform() < 0.5)
    if transpose or rng.uniform() < 0.3:
        kw["transpose"] = transpose
    hl = bool(rng.uniform() < 0.6)
    if not hl or rng.uniform() < 0.5:
        kw["hlines"] = hl
    fill = "--"
    if rng.uniform() < 0.4:
        fill = kw["blank_fill"] = str(rng.choice(["n/a", "$-$", ""]))
    caption, label = "", None
    if rng.uniform() < 0.6:
        caption = kw["caption"] = str(rng.choice(["All 100% of $x$", "plain", "%s %d"]))
    if rng.uniform() < 0.6:
        label = kw["label"] = str(rng.choice(["tab:one", "tab:5%", "tab: my params"]))
    path = None
    if rng.uniform() < 0.4:
        path = Path(tempfile.mkdtemp()) / "table.tex"
        kw["filename"] = path if rng.uniform() < 0.5 else str(path)
        if rng.uniform() < 0.5:
            path.write_text("an older table\n" * 500)
            ctx.count("tables over older ones")
    text = cc.analysis.get_latex_table(**kw)
    ctx.describe(chains=[c.name for c in want_chains], columns=want_cols, options={k: str(v)[:60] for k, v in kw.items() if k != "chains"})
    ctx.distinct(len(chains), len(want_chains), len(want_cols), tuple(sorted(kw)), transpose, hl)
    ctx.check_that(all(list(kw[k]) == v for k, v in given.items()), "a list of the user was changed")
    if path is not None:
        ctx.check_that(path.read_text() == text, "the file does not hold the text returned")
        os.unlink(path)
        os.rmdir(path.parent)
        ctx.count("files")
    t = latex.parse(text)
    ctx.check_that(t["caption"] == caption, "the caption is not the one given", got=t["caption"], want=caption)
    ctx.check_that(t["label"] == (label if label is not None else "tab:model_params"), "the label is not the one given", got=t["label"], want=label)
    ctx.check_that((t["hlines"] > 0) == hl, "horizontal lines are not as asked", got=t["hlines"])
    names = [c.name for c in want_chains]
    heads = [labels.get(c, c) for c in want_cols]
    across, down = (names, heads) if transpose else (heads, names)
    ctx.check_that(latex.columns(t["spec"]) == len(across) + 1, "the column specification does not fit the table", spec=t["spec"], columns=len(across) + 1)
    ctx.check_that(t["rows"][0] == ["Parameter" if transpose else "Model", *across], "the header is not what is shown, in order", got=t["rows"][0], want=across)
    body = t["rows"][1:]
    if not ctx.check_that([r[0] for r in body] == down and all(len(r) == len(across) + 1 for r in body), "the rows are not what is shown, in order", got=[r[0] for r in body], want=down):
        return
    for i, d in enumerate(down):
        for j, a in enumerate(across):
            cell = body[i][j + 1]
            ch, col = (want_chains[j], want_cols[i]) if transpose else (want_chains[i], want_cols[j])
            b = solo[ch.name].get(col)
            cellwise(ctx, cell, b, ch, col, fill)
    ctx.count("tables")


def cellwise(ctx, cell, b, ch, col, fill):
    where = dict(chain=ch.name, column=col, cell=cell)
    if col not in ch.samples.columns:
        ctx.check_that(cell == fill, "a cell of a chain without the parameter is not the fill text", want=fill, **where)
        ctx.count("filled cells")
        return
    if isinstance(b, list):
        lines = cell.split("\n")
        ok = len(lines) == len(b) and all(
            ln.startswith(f"I{i}: $") and ln.endswith("$") and ptext.judge(ln[len(f"I{i}: $") : -1], x.lower, x.center, x.upper) in (None, "equal errors are not given once")
            for i, (ln, x) in enumerate(zip(lines, b), 1))
        ctx.check_that(ok, "a cell is not the text of the bands of that chain", want=str(b), **where)
        ctx.count("cells of several bands")
    elif b is None or b.lower is None or b.upper is None:
        ctx.check_that(cell == "", "a cell of a parameter without limits is not empty", want=str(b), **where)
        ctx.count("cells without limits")
    elif b.lower <= b.center <= b.upper:
        wrong = ptext.judge(ptext.unwrap(cell) or "", b.lower, b.center, b.upper)
        ctx.check_that(wrong is None, f"a cell is not the text of that chain's summary: {wrong}", want=str(b), **where)
        ctx.count("cells")


CASES = {"case": (case, 500, 9000)}
REQUIRED = {"tables": 150, "cells": 300, "filled cells": 50, "cells of several bands": 20, "cells without limits": 20, "files": 30}
