"""Chain.divide against a reference partition of the raw rows."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.statistics import SummaryStatistic as S

from vlib import figs, gen

ID = "C11"
TITLE = "dividing a chain by its walkers"
RULE = (
    "Each case is a chain of 2-40 walkers x 1-300 steps with 1-5 parameters, any row labels, weights, posterior, renamed columns, integer columns and two to ten settings off their "
    "default; the pieces must be the consecutive blocks of raw rows, carry the settings, and (use) be summarised and drawn like chains built from those blocks. Invalid divisions must fail. "
    "Distinct by labels, shape and settings."
)
OPTS = {
    "statistics": lambda r: list(S)[int(r.integers(5))],
    "summary_area": lambda r: float(r.uniform(0.2, 0.95)),
    "sigmas": lambda r: [0, 1, 3],
    "linestyle": lambda r: "--",
    "linewidth": lambda r: 2.5,
    "show_contour_labels": lambda r: True,
    "shade": lambda r: bool(r.integers(2)),
    "shade_alpha": lambda r: 0.25,
    "shade_gradient": lambda r: 0.4,
    "bar_shade": lambda r: bool(r.integers(2)),
    "bins": lambda r: int(r.integers(8, 30)),
    "kde": lambda r: 0.8,
    "smooth": lambda r: int(r.integers(0, 5)),
    "cmap": lambda r: "plasma",
    "num_cloud": lambda r: 77,
    "plot_cloud": lambda r: True,
    "plot_contour": lambda r: bool(r.integers(2)),
    "plot_point": lambda r: True,
    "marker_style": lambda r: "*",
    "marker_size": lambda r: 33,
    "marker_alpha": lambda r: 0.6,
    "zorder": lambda r: 17,
    "num_free_params": lambda r: 4,
    "num_eff_data_points": lambda r: 120.0,
    "power": lambda r: 2.0,
    "show_label_in_legend": lambda r: False,
    "histogram_relative_height": lambda r: 0.5,
}


def build(rng, walkers, steps, opts, names):
    n = walkers * steps
    data = {}
    for j, c in enumerate(names):
        v = rng.normal(size=n) * 10 ** rng.uniform(-3, 3) + rng.normal() * 3
        if rng.uniform() < 0.15:
            v = rng.integers(-4, 9, size=n)
        data[c] = v
    wk, w = gen.weights(rng, n)
    wn = str(rng.choice(["weight", "weight", "w8"])) if w is not None else "weight"
    lp = -rng.exponential(size=n) * 5 if rng.uniform() < 0.6 else None
    pn = str(rng.choice(["log_posterior", "lnP"]))
    if wn != "weight":
        opts["weight_column"] = wn
    if lp is not None and pn != "log_posterior":
        opts["posterior_column"] = pn
    ik, idx = gen.index(rng, n)
    df = gen.frame(rng, data, w, lp, idx, weight_name=wn, post_name=pn)
    for extra in ("weights", "Posterior", "log_weights"):
        if rng.uniform() < 0.08:
            df.insert(int(rng.integers(len(df.columns) + 1)), extra, rng.normal(size=n))  # reserved names, neither used nor parameters
    return df, wk, ik, wn


def case(ctx):
    rng = ctx.rng
    walkers = int(rng.choice([2, 3, 4, 7, 16, 40]))
    steps = int(rng.choice([1, 2, 3, 10, 50, 300]))
    names = gen.names(rng, int(rng.integers(1, 6)))
    opts = {}
    for o in rng.permutation(list(OPTS))[: rng.integers(1, 9)]:
        opts[str(o)] = OPTS[str(o)](rng)
    if rng.uniform() < 0.2:
        opts["color_param"] = str(rng.choice(names))
    if rng.uniform() < 0.4:
        opts["color"] = str(rng.choice(["red", "#123456"]))
    if rng.uniform() < 0.15:
        opts["multimodal"], opts["statistics"] = True, S.HDI
    df, wk, ik, wn = build(rng, walkers, steps, opts, names)
    shift = bool(rng.uniform() < 0.15)
    chain = Chain(samples=df, name=str(rng.choice(["a", "my chain", "Ünï %"])), walkers=walkers, shift_params=shift, **opts)
    raw = chain.samples.copy()
    if not shift:
        for c in df.columns:
            ctx.check_that(np.array_equal(raw[c].to_numpy(), df[c].to_numpy()), "the chain does not hold the user's rows", column=c)
    pieces = chain.divide()
    ctx.describe(walkers=walkers, steps=steps, labels=ik, weights=wk, options=opts, shift=shift)
    ctx.distinct(ik, walkers, steps, len(names), tuple(sorted(opts)))
    ctx.count(f"labels {ik}")
    if not ctx.check_that(len(pieces) == walkers, "not one chain per walker", got=len(pieces), want=walkers):
        return
    for i, p in enumerate(pieces):
        ctx.count("pieces")
        ctx.check_that(p.name == f"{chain.name} Walker {i}", "a piece has another name", got=p.name, index=i)
        ctx.check_that(list(p.samples.columns) == list(raw.columns), "a piece has other columns", got=list(p.samples.columns), want=list(raw.columns))
        ctx.check_that(len(p.samples) == steps, "a piece has another number of rows", got=len(p.samples), want=steps)
        for c in raw.columns:
            want = raw[c].to_numpy()[i * steps : (i + 1) * steps]
            ctx.check_that(p.samples[c].dtype == raw[c].dtype, "a piece holds its rows in another type", piece=i, column=c, got=str(p.samples[c].dtype), want=str(raw[c].dtype))
            ctx.check_that(np.array_equal(p.samples[c].to_numpy(), want), "a piece does not hold its block of rows", piece=i, column=c, labels=ik)
        ctx.check_that(p.walkers == 1 and not p.shift_params, "a piece still counts as several walkers, or is shifted again", piece=i)
        ctx.check_that("color" not in p.get_user_specified_dump() or p.color is None, "a piece carries the colour of the whole", piece=i)
        for o, v in opts.items():
            if o != "color":
                ctx.check_that(getattr(p, o) == v, "a setting is not carried over", option=o, got=getattr(p, o), want=v)
    ctx.check_that(np.array_equal(chain.samples.to_numpy(), raw.to_numpy()) and chain.walkers == walkers, "dividing changed the chain divided")


def invalid(ctx):
    rng = ctx.rng
    n = 24
    df = pd.DataFrame({"x": rng.normal(size=n), "y": rng.normal(size=n)}, index=gen.index(rng, n)[1])
    kind = str(rng.choice(["one walker", "grid"]))
    if kind == "one walker":
        chain = Chain(samples=df, name="a")
    else:
        xx, yy = np.meshgrid(np.linspace(0, 1, 4), np.linspace(0, 1, 6))
        chain = Chain(samples=pd.DataFrame({"x": xx.ravel(), "y": yy.ravel(), "weight": rng.uniform(0.1, 1, n)}), name="a", grid=True, walkers=int(rng.choice([1, 2, 4])))
    try:
        chain.divide()
    except Exception:  # noqa: BLE001
        ctx.count("rejections")
    else:
        ctx.fail("dividing a single-walker or grid chain did not fail", kind=kind)
    ctx.distinct(kind)


def use(ctx):
    """The pieces behave like chains built by hand from those rows."""
    rng = ctx.rng
    walkers, steps = int(rng.integers(2, 5)), int(rng.choice([400, 900]))
    names = gen.names(rng, 2)
    opts = {"bins": 12, "smooth": int(rng.choice([0, 2])), "statistics": list(S)[int(rng.integers(5))], "shade": True, "shade_alpha": 0.4, "bar_shade": True, "sigmas": [0, 1, 2]}
    df, wk, ik, wn = build(rng, walkers, steps, opts, names)
    whole = Chain(samples=df, name="w", walkers=walkers, **opts)
    pieces = whole.divide()
    a, b = ChainConsumer(), ChainConsumer()
    hand = {c: df[c].to_numpy() for c in df.columns}
    for i, p in enumerate(pieces):
        a.add_chain(p)
        block = pd.DataFrame({c: v[i * steps : (i + 1) * steps] for c, v in hand.items()})
        b.add_chain(Chain(samples=block, name=f"w Walker {i}", **opts))
    sa, sb = a.analysis.get_summary(), b.analysis.get_summary()
    ctx.check_that(list(sa) == list(sb) and all(sa[k][c] == sb[k][c] for k in sa for c in names), "the summaries of the pieces are not those of their rows", labels=ik, a=str(sa)[:300], b=str(sb)[:300])
    ctx.check_that(a.analysis.get_latex_table() == b.analysis.get_latex_table(), "the table of the pieces is not that of their rows")
    for c in (p.get_max_posterior_point() for p in pieces):
        ctx.check_that((c is None) == (pieces[0].log_posterior is None), "a maximum posterior is missing")
    if rng.uniform() < 0.5:
        d = figs.differences(figs.fingerprint(a.plotter.plot()), figs.fingerprint(b.plotter.plot()))
        ctx.check_that(not d, "the plot of the pieces is not that of chains made of their rows", where=d)
        ctx.count("plots")
    ctx.count("uses")
    ctx.distinct(ik, wk, walkers, steps, opts["statistics"].value)


CASES = {"case": (case, 400, 12000), "invalid": (invalid, 20, 200), "use": (use, 40, 800)}
REQUIRED = {"pieces": 2000, "rejections": 10, "uses": 20, "plots": 8, "labels floats": 15, "labels duplicated": 15, "labels strings": 15}
