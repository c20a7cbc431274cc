"""Random histories of additions and removals, checked step by step against an ordered-dictionary model."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth

from vlib import figs, gen, latex

ID = "C09"
TITLE = "the registry of chains"
RULE = (
    "Each case is a history of 12-30 calls of add_chain, add_marker, remove_chain (by name or object), get_chain, set_override, set_plot_config and add_truth, a third of them "
    "invalid (name present or unknown), checked after every step against an ordered dictionary; every few steps summaries, tables, criteria, maximum posteriors and a legend "
    "must cover exactly the chains of the model in order. Distinct by the sequence of operations."
)
NAMES = ["a", "b", "model A", "0", "Ünïcode", "x Walker 0", "c1", "c10", "A"]
MORE = [f"run {k}" for k in (10, 9, 3, 27, 1, 5, 11, 2)]


def new_chain(rng, name, n=None):
    n = n or int(rng.integers(40, 120))
    df = pd.DataFrame({"x": rng.normal(size=n) + rng.uniform(-50, 50), "y": rng.normal(size=n) + 3})
    if rng.uniform() < 0.7:
        df["log_posterior"] = -rng.exponential(size=n)
    return Chain(samples=df, name=name, bins=10, color=f"#{int(rng.integers(0, 0xffffff)):06x}", num_free_params=2, num_eff_data_points=30)


def observe(ctx, cc, model, full, trace):
    names = list(model)
    ctx.check_that(cc.get_names() == names, "get_names is not the chains in the order they were added", got=cc.get_names(), want=names, history=trace)
    for k, c in model.items():
        ctx.check_that(cc.get_chain(k) is c, "get_chain does not return the chain added under that name", name=k, history=trace)
    if not full or not names:
        return
    real = {k: c for k, c in model.items() if len(c.samples) > 1}
    summ = cc.analysis.get_summary()
    ctx.check_that(list(summ) == names, "the summaries are not those of the chains present", got=list(summ), want=names, history=trace)
    for k in names:
        col = next(iter(model[k].data_columns))
        b = summ[k][col]
        lo, hi = model[k].samples[col].min(), model[k].samples[col].max()
        ctx.check_that(lo <= b.center <= hi, "a summary is of other data than the chain present under that name", name=k, center=b.center, data=[lo, hi], history=trace)
    rows = [r[0] for r in latex.parse(cc.analysis.get_latex_table())["rows"][1:]]
    ctx.check_that(rows == names, "the table's rows are not the chains present", got=rows, want=names, history=trace)
    have = [k for k in names if "log_posterior" in model[k].samples.columns]
    mp = cc.analysis.get_max_posteriors()
    ctx.check_that(list(mp) == have and all(mp[k].log_posterior == model[k].samples["log_posterior"].max() for k in have), "the maximum posteriors are not those of the chains present", got=list(mp), want=have, history=trace)
    # markers have a posterior but neither data points nor parameters
    both = [k for k in have if k in real]
    for crit in ("aic", "bic"):
        got = getattr(cc.comparison, crit)()
        ctx.check_that(list(got) == both, f"{crit} does not cover exactly the chains present", got=list(got), want=both, history=trace)
    if both and rng_ok(ctx):
        rows = {r[0] for r in latex.parse(cc.comparison.comparison_table(dic=False))["rows"][1:]}
        ctx.check_that(rows == set(both), "the comparison does not cover exactly the chains present", got=sorted(rows), want=both, history=trace)
    ctx.count("full observations")


def rng_ok(ctx):
    return ctx.rng.uniform() < 0.5


def fails(ctx, f, what, trace):
    try:
        f()
    except Exception:  # noqa: BLE001
        ctx.count("rejections")
        return True
    ctx.fail(f"{what} was accepted", history=trace)
    return False


def history(ctx):
    rng = ctx.rng
    cc, model, trace, dead = ChainConsumer(), {}, [], []
    many = bool(rng.uniform() < 0.12)  # registries of ten and more
    known = NAMES + MORE if many else NAMES
    for step in range(int(rng.integers(12, 31))):
        op = str(rng.choice(["add"] * (12 if many else 2) + [ "marker", "remove", "remove object", "again", "duplicate", "duplicate marker", "unknown", "unknown object", "get unknown", "override", "config", "truth"]))
        free = [n for n in known if n not in model]
        ret = cc
        if op == "add" and free:
            c = new_chain(rng, str(rng.choice(free)))
            ret = cc.add_chain(c)
            model[c.name] = c
        elif op == "marker" and free:
            k = str(rng.choice(free))
            loc = {"x": float(rng.normal()), "y": float(rng.normal() + 3)}
            given = dict(loc)
            ret = cc.add_marker(loc, name=k, color=None if rng.uniform() < 0.3 else "#00ff00", marker_size=30)
            model[k] = m = cc.get_chain(k)
            p = m.get_max_posterior_point()
            ctx.check_that(loc == given and m.name == k and p.coordinate == given and not m.plot_contour and m.plot_point and m.marker_size == 30, "the marker added is not the one asked for", history=trace)
            ctx.count("markers")
        elif op == "remove" and model:
            k = str(rng.choice(list(model)))
            ret = cc.remove_chain(k)
            dead.append(model.pop(k))
        elif op == "remove object" and model:
            k = str(rng.choice(list(model)))
            ret = cc.remove_chain(model[k])
            dead.append(model.pop(k))
        elif op == "again" and dead:
            # a removed chain, or new data under its name
            old = dead[int(rng.integers(len(dead)))]
            if old.name in model:
                continue
            c = old if rng.uniform() < 0.4 else new_chain(rng, old.name, n=len(old.samples) if len(old.samples) > 1 and rng.uniform() < 0.5 else None)
            ret = cc.add_chain(c)
            model[c.name] = c
            ctx.count("names reused")
        elif op == "duplicate" and model:
            k = str(rng.choice(list(model)))
            fails(ctx, lambda: cc.add_chain(new_chain(rng, k) if rng.uniform() < 0.5 else model[k]), "a second chain of the same name", trace)
        elif op == "duplicate marker" and model:
            k = str(rng.choice(list(model)))
            fails(ctx, lambda: cc.add_marker({"x": 1.0}, name=k), "a marker with the name of a chain", trace)
        elif op == "unknown":
            fails(ctx, lambda: cc.remove_chain(str(rng.choice([n for n in free] + ["nobody"]))), "removal of an unknown name", trace)
        elif op == "unknown object":
            c = new_chain(rng, str(rng.choice([n for n in free] + ["nobody"])))
            fails(ctx, lambda: cc.remove_chain(c), "removal of an unknown chain", trace)
        elif op == "get unknown":
            fails(ctx, lambda: cc.get_chain(str(rng.choice([n for n in free] + ["nobody"]))), "getting an unknown name", trace)
        elif op == "override":
            ret = cc.set_override(ChainConfig(linewidth=2.0))
        elif op == "config":
            ret = cc.set_plot_config(PlotConfig(max_ticks=3))
        elif op == "truth":
            ret = cc.add_truth(Truth(location={"x": 0.1}))
        trace.append(op)
        ctx.count("steps")
        ctx.check_that(ret is cc, f"{op} does not return the consumer itself", history=trace)
        observe(ctx, cc, model, full=rng.uniform() < 0.25, trace=trace)
    observe(ctx, cc, model, True, trace)
    real = [k for k in model if len(model[k].samples) > 1]
    if len(real) > 1 and rng.uniform() < 0.35:
        fig = cc.plotter.plot()
        legs = [ax.get_legend() for ax in fig.axes if ax.get_legend() is not None]
        got = [t.get_text().strip() for leg in legs for t in leg.get_texts()]
        ctx.check_that(got == list(model), "the legend is not the chains present in order", got=got, want=list(model), history=trace)
        ctx.count("legends")
    ctx.describe(history=trace, left=list(model))
    ctx.distinct(tuple(trace))


CASES = {"history": (history, 240, 8000)}
REQUIRED = {"steps": 2000, "rejections": 300, "full observations": 200, "names reused": 50, "markers": 100, "legends": 15}
