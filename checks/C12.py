"""Covariance, correlation and their tables against direct weighted sums in extended precision."""
import re

import numpy as np
from chainconsumer import Chain, ChainConsumer, PlotConfig

from vlib import gen, latex

ID = "C12"
TITLE = "covariance and correlation"
RULE = (
    "matrix: chains of 2-120000 rows and 1-6 correlated or independent columns at scales 1e-8..1e8 and offsets up to 1e4 spreads, any weights, labels, renamed and reserved columns; all, some or one "
    "column(s) in any order, compared with direct weighted sums. table: the same parsed from the LaTeX tables, by name or chain, with labels, captions and several chains. Distinct by shape, weights and columns."
)


def reference(cols, w):
    x = np.array([np.asarray(c, np.longdouble) for c in cols])
    w = np.ones(x.shape[1], np.longdouble) if w is None else np.asarray(w, np.longdouble)
    v1, v2 = w.sum(), (w * w).sum()
    mean = (x * w).sum(axis=1) / v1
    d = x - mean[:, None]
    # the unbiased estimate for importance weights
    return ((d * w) @ d.T) / (v1 - v2 / v1), mean


def build(rng, big=True):
    k = int(rng.integers(1, 7))
    n = int(rng.choice([max(3, k + 2), 20, 300, 20000, 120000], p=[0.24, 0.24, 0.24, 0.25, 0.03])) if big else int(rng.choice([20, 500]))
    if rng.uniform() < 0.7:
        x, _, _ = gen.correlated(rng, n, k)
    else:
        x = np.array([gen.shape(rng, n, str(rng.choice(["normal", "uniform", "gamma", "bimodal"])), extreme=False) for _ in range(k)]).T
    if not big and rng.uniform() < 0.4:
        x = x * 10 ** rng.uniform(0, 5, size=k)
    if big:
        x = x * 10 ** rng.uniform(-8, 8)
        if rng.uniform() < 0.2:
            x = x + x.std(axis=0) * rng.uniform(-1e4, 1e4, size=k)
    if k > 1 and rng.uniform() < 0.2:
        # columns that are all but the same, or the opposite
        i, j = rng.choice(k, size=2, replace=False)
        x = np.array(x, float)
        x[:, j] = rng.choice([-1, 1]) * (x[:, i] - x[:, i].mean()) + 10 ** rng.uniform(-5, -1) * x[:, i].std() * rng.normal(size=n)
    names = gen.names(rng, k)
    data = dict(zip(names, x.T))
    wk, w = gen.weights(rng, n)
    if w is not None and rng.uniform() < 0.25:
        w = w * 10 ** rng.uniform(-25, 25)
    kw = {}
    wn = "weight"
    if w is not None and rng.uniform() < 0.3:
        wn = kw["weight_column"] = "my_w"
    pn = "log_posterior"
    lp = -rng.exponential(size=n) if rng.uniform() < 0.5 else None
    if lp is not None and rng.uniform() < 0.3:
        pn = kw["posterior_column"] = "lnL"
    df = gen.frame(rng, data, w, lp, gen.index(rng, n)[1], weight_name=wn, post_name=pn)
    if rng.uniform() < 0.2 and wn == "weight":
        df["log_weights"] = np.log(df["weight"]) if "weight" in df else 0.0
    order = [c for c in df.columns if c in data]
    return df, data, order, w, wk, kw


def sub(rng, order):
    r = rng.uniform()
    if r < 0.4:
        return None
    k = int(rng.integers(1, len(order) + 1))
    return [str(c) for c in rng.permutation(order)[:k]]


def compare(ctx, got, want, mean, what, **kw):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    sd = np.sqrt(np.diag(want))
    # rounding of the inputs about their mean
    rel = 1e-9 + 1e-14 * float(np.max(np.abs(mean) / sd))
    ok = got.shape == want.shape and np.all(np.abs(got - want) <= rel * np.outer(sd, sd))
    ctx.check_that(ok, what, got=got, want=want, **kw)


def matrix(ctx):
    rng = ctx.rng
    df, data, order, w, wk, kw = build(rng)
    chain = gen.chain(rng, samples=df, name="c", **kw)
    if not all(np.ptp(v) > 0 for v in data.values()):
        return
    for _ in range(3):
        cols = sub(rng, order)
        want_cols = cols or order
        given = None if cols is None else list(cols)
        cov, cor = chain.get_covariance(cols) if rng.uniform() < 0.5 else chain.get_covariance(columns=cols), chain.get_correlation(columns=cols)
        ctx.check_that(cols == given, "the list of columns was changed")
        ref, mean = reference([data[c] for c in want_cols], w)
        for m, name in ((cov, "covariance"), (cor, "correlation")):
            ctx.check_that(list(m.columns) == want_cols, f"the {name} is not for the columns asked for, in order", got=m.columns, want=want_cols)
            a = np.asarray(m.matrix)
            if not ctx.check_that(a.shape == (len(want_cols),) * 2, f"the {name} is not a square matrix of the columns", shape=a.shape, columns=want_cols):
                return
            s = np.sqrt(np.abs(np.diag(a)))
            ctx.check_that(np.all(np.abs(a - a.T) <= 1e-11 * np.outer(s, s)), f"the {name} is not symmetric", got=a)
            ctx.check_that(np.linalg.eigvalsh(a / np.outer(s, s)).min() > -1e-9, f"the {name} is not positive semi-definite", got=a)
        compare(ctx, cov.matrix, ref, mean, "the covariance is not that of the weighted samples", weights=wk, columns=want_cols)
        sd = np.sqrt(np.diag(ref))
        compare(ctx, cor.matrix, ref / np.outer(sd, sd), mean / sd, "the correlation is not that of the weighted samples", weights=wk, columns=want_cols)
        ctx.check_that(np.allclose(np.diag(cor.matrix), 1, rtol=1e-12), "the correlation has no unit diagonal", got=np.diag(cor.matrix))
        ctx.count("matrices")
        if len(want_cols) == 1:
            ctx.count("single columns")
        ctx.distinct(len(df), wk, len(order), cols is None, len(want_cols))
    ctx.describe(rows=len(df), columns=order, weights=wk, options=kw)


def table(ctx):
    rng = ctx.rng
    cc, chains = ChainConsumer(), []
    for name in gen.chain_names(rng, int(rng.integers(1, 4))):
        df, data, order, w, wk, kw = build(rng, big=False)
        if not all(np.ptp(v) > 0 for v in data.values()):
            return
        chains.append((gen.chain(rng, samples=df, name=name, **kw), data, order, w))
        cc.add_chain(chains[-1][0])
    labels = {c: f"$L_{{{i}}}$ of" for i, c in enumerate(gen.NAMES) if rng.uniform() < 0.3}
    cc.set_plot_config(PlotConfig(labels=labels))
    chain, data, order, w = chains[int(rng.integers(len(chains)))]
    cols = sub(rng, order)
    want_cols = cols or order
    kind = str(rng.choice(["covariance", "correlation"]))
    kw = {}
    if cols is not None:
        kw["columns"] = cols
    if rng.uniform() < 0.5:
        kw["caption"] = str(rng.choice(["A caption", "100% of $x_1$", ""]))
    if rng.uniform() < 0.5:
        kw["label"] = str(rng.choice(["tab:mine", "tab:50%"]))
    f = getattr(cc.analysis, f"get_{kind}_table")
    if rng.uniform() < 0.15:
        try:
            t = f(None)
        except AssertionError:
            ctx.check_that(len(chains) > 1, "the only chain has to be named")
        else:
            # the documentation takes the first where none is named
            ctx.check_that(t == f(chains[0][0].name), "without a name, the table is not that of the first chain")
        ctx.count("tables of no chain in particular")
    t = latex.parse(f(chain.name if rng.uniform() < 0.5 else chain, **kw))
    want = (chain.get_covariance if kind == "covariance" else chain.get_correlation)(columns=cols).matrix
    ref, mean = reference([data[c] for c in want_cols], w)
    sd = np.sqrt(np.diag(ref))
    if kind == "correlation":
        ref = ref / np.outer(sd, sd)
    names = [labels.get(c, c) for c in want_cols]
    ctx.check_that(latex.columns(t["spec"]) == len(names) + 1, "the column specification does not fit the table", spec=t["spec"], columns=len(names))
    ctx.check_that(len(t["rows"]) == len(names) + 1 and t["rows"][0] == ["", *names], "the header is not the labels of the columns", got=t["rows"][0], want=names)
    ctx.check_that([r[0] for r in t["rows"][1:]] == names, "the rows are not headed by the labels of the columns", got=[r[0] for r in t["rows"][1:]], want=names)
    for i, r in enumerate(t["rows"][1:]):
        if not ctx.check_that(len(r) == len(names) + 1, "a row has another number of cells", row=r):
            continue
        for j, cell in enumerate(r[1:]):
            v = float(ref[i, j])
            ok = re.fullmatch(r"-?\d+\.\d\d", cell) is not None and abs(float(cell) - v) <= 0.005 + 1e-9 * (1 + abs(v)) + 1e-9 * sd[i] * sd[j]
            ctx.check_that(ok, f"a cell is not the {kind} to two decimals", row=names[i], column=names[j], cell=cell, want=v, chain=float(want[i, j]))
            ctx.count("cells")
    ctx.check_that("caption" not in kw or t["caption"] == kw["caption"], "the caption is not the one given", got=t["caption"])
    ctx.check_that("label" not in kw or t["label"] == kw["label"], "the label is not the one given", got=t["label"])
    ctx.count("tables")
    ctx.describe(kind=kind, columns=want_cols, options=kw)
    ctx.distinct(kind, len(want_cols), cols is None, tuple(sorted(kw)), len(labels))


CASES = {"matrix": (matrix, 1500, 40000), "table": (table, 600, 6000)}
REQUIRED = {"matrices": 800, "single columns": 50, "tables": 150, "tables of no chain in particular": 20, "cells": 1000}
