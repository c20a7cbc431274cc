"""AIC, BIC, DIC and the comparison table against a reference written from the documented formulas."""
import re

import numpy as np
from chainconsumer import Chain, ChainConfig, ChainConsumer

from vlib import gen, latex

ID = "C13"
TITLE = "information criteria"
RULE = (
    "Each case is 1-7 chains of 1-3000 rows with any subset of posterior, data points and free parameters, weights, labels, column names, magnitudes (scales differing by up to 1e6 between columns), "
    "log posteriors of any size (or infinite dynamic range), with posteriors that need not follow the samples; criteria compared with the formulas, the table parsed for every option. "
    "Distinct by which inputs each chain carries and the table's options."
)


def build(rng, i):
    k = int(rng.integers(1, 5))
    n = int(rng.choice([5, 30, 300, 3000]))
    names = gen.names(rng, k)
    scale = 10 ** rng.uniform(-3, 3, size=k)
    x = rng.normal(size=(n, k)) * scale + rng.normal(size=k) * scale * 3
    wk, w = gen.weights(rng, n)
    kw = {}
    lp = None
    if rng.uniform() < 0.8:
        r = rng.uniform()
        if r < 0.5:
            lp = -0.5 * (((x - x.mean(0)) / x.std(0)) ** 2).sum(axis=1) * float(rng.choice([1, 0.3, 10]))
        else:
            lp = rng.normal(size=n) * 10 ** rng.uniform(-1, 2)
        lp = lp + float(rng.choice([0, -50, 300, -5e4]))
    pn = str(rng.choice(["log_posterior", "lnL"]))
    if lp is not None and pn != "log_posterior":
        kw["posterior_column"] = pn
    wn = str(rng.choice(["weight", "w1"])) if w is not None else "weight"
    if wn != "weight":
        kw["weight_column"] = wn
    if rng.uniform() < 0.8:
        kw["num_free_params"] = int(rng.integers(0, 12))
    if rng.uniform() < 0.8:
        kw["num_eff_data_points"] = float(rng.choice([rng.integers(20, 400), rng.uniform(15, 3000), 3, 1, 0.4]))
        if kw["num_eff_data_points"] == kw.get("num_free_params", -9) + 1:
            kw["num_eff_data_points"] += 0.5
    if rng.uniform() < 0.15:
        kw["grid"] = True
    if rng.uniform() < 0.3:
        kw.update([("power", 2.0), ("color", "red"), ("plot_contour", False), ("walkers", n if rng.uniform() < 0.3 else 1)][int(rng.integers(4)) :][:1])
    df = gen.frame(rng, dict(zip(names, x.T)), w, lp, gen.index(rng, n)[1], weight_name=wn, post_name=pn)
    name = str(rng.choice(["M", "model", "lcdm ", "Ü"])).strip() + f" {i}"
    return Chain(samples=df, name=name, **kw), x, (np.ones(n) if w is None else w), lp


def dic_values(x, w, lp):
    """DIC with the deviance at the sample nearest the mean; ties and near ties give several."""
    mean = np.sum(x * w[:, None], axis=0) / w.sum()
    d = -2 * lp
    dist = np.sqrt(((x - mean) ** 2).sum(axis=1))
    near = dist <= dist.min() * (1 + 1e-9) + 1e-12 * np.abs(x).max()
    dbar = np.sum(d * w) / w.sum()
    return [2 * dbar - v for v in np.unique(d[near])]


def relative(v):
    m = min(v.values())
    return {k: x - m for k, x in v.items()}


def case(ctx):
    rng = ctx.rng
    cc, parts = ChainConsumer(), []
    for i in range(int(rng.choice([1, 2, 3, 4, 5, 7]))):
        c, x, w, lp = build(rng, i)
        parts.append((c, x, w, lp))
        cc.add_chain(c)
    if rng.uniform() < 0.2:
        cc.set_override(ChainConfig(statistics=None) if rng.uniform() < 0.5 else ChainConfig(linewidth=2))
    has = [(c, x, w, lp) for c, x, w, lp in parts if lp is not None]
    full = [p for p in has if p[0].num_free_params is not None and p[0].num_eff_data_points is not None]
    want = {}
    want["bic"] = {c.name: c.num_free_params * np.log(c.num_eff_data_points) - 2 * lp.max() for c, x, w, lp in full}
    want["aic"] = {c.name: 2 * c.num_free_params - 2 * lp.max() + 2 * c.num_free_params * (c.num_free_params + 1) / (c.num_eff_data_points - c.num_free_params - 1) for c, x, w, lp in full}
    got = {k: getattr(cc.comparison, k)() for k in ("aic", "bic", "dic")}
    again = {k: getattr(cc.comparison, k)() for k in ("aic", "bic", "dic")}
    ctx.check_that(got == again, "asking twice gives another answer")
    for k in ("aic", "bic"):
        ctx.check_that(list(got[k]) == list(want[k]), f"{k} does not cover exactly the chains with the inputs it needs", got=list(got[k]), want=list(want[k]))
        if want[k] and list(got[k]) == list(want[k]):
            ref = relative(want[k])
            big = 1 + max(abs(v) for v in want[k].values())
            for name, v in ref.items():
                ctx.check_that(abs(got[k][name] - v) <= 1e-10 * big, f"{k} is not the documented value", chain=name, got=got[k][name], want=v)
                ctx.count(k)
            ctx.check_that(min(got[k].values()) == 0, f"the lowest {k} is not zero", got=got[k])
    opts = {c.name: dic_values(x, w, lp) for c, x, w, lp in has}
    ctx.check_that(list(got["dic"]) == list(opts), "dic does not cover exactly the chains with a posterior", got=list(got["dic"]), want=list(opts))
    if opts and list(got["dic"]) == list(opts):
        ctx.check_that(min(got["dic"].values()) == 0, "the lowest dic is not zero", got=got["dic"])
        if all(len(v) == 1 for v in opts.values()):
            ref = relative({k: v[0] for k, v in opts.items()})
            big = 1 + max(abs(v[0]) + 2 * np.abs(lp).max() for v, (_, _, _, lp) in zip(opts.values(), has))
            for name, v in ref.items():
                ctx.check_that(abs(got["dic"][name] - v) <= 1e-9 * big, "dic is not the documented value", chain=name, got=got["dic"][name], want=v)
                ctx.count("dic")
    ctx.describe(chains=[(c.name, len(x), lp is not None, c.num_free_params, c.num_eff_data_points) for c, x, w, lp in parts])
    table(ctx, cc, got)


def table(ctx, cc, got):
    rng = ctx.rng
    on = {k: bool(rng.uniform() < 0.75) for k in ("aic", "bic", "dic")}
    if not any(on.values()):
        on["bic"] = True
    sort = str(rng.choice([k for k in on if on[k]]))
    desc = bool(rng.uniform() < 0.5)
    hl = bool(rng.uniform() < 0.5)
    kw = dict(on, sort=sort, descending=desc, hlines=hl)
    if rng.uniform() < 0.5:
        kw["caption"] = "Best 10% of models"
    if rng.uniform() < 0.5:
        kw["label"] = "tab:x"
    cols = [k for k in ("aic", "bic", "dic") if on[k]]
    names = [k for k in cc.get_names() if any(k in got[c] for c in cols)]
    if not got[sort]:
        return  # nothing to sort by
    t = latex.parse(cc.comparison.comparison_table(**kw))
    ctx.count("tables")
    ctx.distinct(tuple(sorted(kw.items(), key=str)), len(names), tuple(len(got[c]) for c in cols))
    ctx.check_that(t["rows"][0] == ["Model"] + [c.upper() for c in cols], "the table's header is not the criteria asked for", got=t["rows"][0], want=cols)
    ctx.check_that(latex.columns(t["spec"]) == len(cols) + 1, "the column specification does not fit the table", spec=t["spec"], want=len(cols) + 1)
    ctx.check_that((t["hlines"] > 0) == hl, "horizontal lines are not as asked", got=t["hlines"], want=hl)
    rows = t["rows"][1:]
    shown = [r[0] for r in rows]
    ctx.check_that(sorted(shown) == sorted(names), "the table's rows are not the chains with any of the criteria", got=shown, want=names)
    for r in rows:
        if not ctx.check_that(len(r) == len(cols) + 1, "a row has another number of cells", row=r):
            return
        for c, cell in zip(cols, r[1:]):
            if r[0] in got[c]:
                v = got[c][r[0]]
                ok = re.fullmatch(r"-?\d+\.\d", cell) is not None and abs(float(cell) - v) <= 0.05 + 1e-9 * (1 + abs(v))
                ctx.check_that(ok, f"a cell is not the chain's {c} to one decimal", row=r, want=v)
            else:
                ctx.check_that(not re.search(r"\d", cell), "a value is given for a chain without that criterion", row=r, criterion=c)
            ctx.count("cells")
    order = [got[sort][k] for k in shown if k in got[sort]]
    ctx.check_that(order == sorted(order, reverse=desc), "the rows are not sorted as asked", sort=sort, descending=desc, order=order)
    ctx.check_that(t["caption"] == kw.get("caption", ""), "the caption is not the one given", got=t["caption"])
    ctx.check_that("label" not in kw or t["label"] == kw["label"], "the label is not the one given", got=t["label"])


def refused(ctx):
    """A table cannot be sorted by a criterion that is turned off."""
    rng = ctx.rng
    cc = ChainConsumer()
    for i in range(2):
        cc.add_chain(build(rng, i)[0])
    sort = str(rng.choice(["aic", "bic", "dic", "cic"]))
    try:
        cc.comparison.comparison_table(sort=sort, **({sort: False} if sort != "cic" else {}))
    except Exception:  # noqa: BLE001
        ctx.count("rejections")
    else:
        ctx.fail("a table sorted by a criterion it does not have was made", sort=sort)
    ctx.distinct(sort)


CASES = {"case": (case, 600, 20000), "refused": (refused, 12, 60)}
REQUIRED = {"aic": 400, "bic": 400, "dic": 600, "tables": 200, "cells": 1000}
