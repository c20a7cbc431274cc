"""Chains with shift_params against the same chains without: everything centred, nothing else moved."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from chainconsumer.statistics import SummaryStatistic as S

from vlib import figs, gen, summ

ID = "C27"
TITLE = "shift_params"
RULE = (
    "Each case makes 1-5 parameters (any shape, magnitude and distance from zero, integers too) with weights that move their means, a posterior, renamed columns, walkers, row labels and column order, and builds the chain with and without shift_params (as a setting, or through the override). Samples, weights, posterior, "
    "covariance, correlation, summaries of any statistic, maximum posterior, walkers, walks and drawn curves are compared. Distinct by columns, labels, weights, statistic and source of the setting."
)
PRELOAD = ["matplotlib.pyplot"]


def build(ctx, kmax=5, nlo=300, nhi=6000):
    rng = ctx.rng
    n = 2 * int(10 ** rng.uniform(np.log10(nlo), np.log10(nhi)) / 2)
    names = gen.names(rng, int(rng.integers(1, kmax + 1) if rng.uniform() < 0.93 else rng.integers(6, 10)))
    data = {}
    for c in names:
        data[c] = gen.shape(rng, n, str(rng.choice(gen.SMOOTH_UNIMODAL)))
        if rng.uniform() < 0.1:
            data[c] = rng.poisson(200, size=n)
    wk, w = gen.tilted(rng, data[names[0]].astype(float))
    wn = str(rng.choice(["weight", "weight", "w8"])) if w is not None else "weight"
    lp = -rng.exponential(size=n) * 5 - 100 if rng.uniform() < 0.7 else None
    pn = str(rng.choice(["log_posterior", "lnP"]))
    ik, idx = gen.index(rng, n)
    df = gen.frame(rng, data, w=w, logp=lp, weight_name=wn, post_name=pn)
    df.index = idx
    order = [c for c in df.columns if c in data]
    kw = {}
    if wn != "weight":
        kw["weight_column"] = wn
    if pn != "log_posterior" and lp is not None:
        kw["posterior_column"] = pn
    ww = np.ones(n) if w is None else w
    mean = {c: float(np.sum(data[c] * ww) / ww.sum()) for c in order}
    std = {c: float(np.sqrt(np.sum(ww * (data[c] - mean[c]) ** 2) / ww.sum())) for c in order}
    return dict(n=n, order=order, data=data, w=ww, wk=wk, lp=lp, df=df, kw=kw, ik=ik, mean=mean, std=std, wn=wn, pn=pn)


def eps(s, c):
    return 1e-9 * s["std"][c] + 1e-12 * abs(s["mean"][c])


def chain(ctx):
    rng = ctx.rng
    s = build(ctx)
    kw = dict(s["kw"])
    if rng.uniform() < 0.5:
        kw["walkers"] = 2
    if rng.uniform() < 0.3 and len(s["order"]) > 1:
        kw["color_param"] = str(rng.choice(s["order"]))
        if rng.uniform() < 0.5:
            kw["plot_cloud"] = True
    ctx.describe(columns=s["order"], n=s["n"], weights=s["wk"], index=s["ik"], posterior=s["lp"] is not None, settings=kw)
    before = s["df"].copy(deep=True)
    plain = Chain(samples=s["df"], name="c", **kw)
    shifted = Chain(samples=s["df"], name="c", shift_params=True, **kw)
    pd.testing.assert_frame_equal(s["df"], before) if s["df"].equals(before) else ctx.fail("the user's frame was changed")
    ctx.check_that(list(shifted.samples.columns) == list(plain.samples.columns) and shifted.samples.index.equals(plain.samples.index) and shifted.data_columns == plain.data_columns, "columns or row labels changed", got=list(shifted.samples.columns), want=list(plain.samples.columns))
    for c in s["order"]:
        got = shifted.samples[c].to_numpy()
        ctx.check_that(np.all(np.abs(got - (s["data"][c] - s["mean"][c])) <= eps(s, c)), "a parameter is not its samples less their weighted mean", column=c, off=np.abs(got - (s["data"][c] - s["mean"][c])).max(), spread=s["std"][c])
        m = float(np.sum(got * s["w"]) / s["w"].sum())
        ctx.check_that(abs(m) <= 2 * eps(s, c), "the weighted mean is not zero", column=c, mean=m, spread=s["std"][c])
        ctx.check_that(np.array_equal(plain.samples[c].to_numpy(), s["data"][c]), "the plain chain's samples were changed", column=c)
    ctx.check_that(np.array_equal(shifted.weights, s["w"]), "the weights were changed")
    for name in (s["wn"], s["pn"]):
        if name in s["df"]:
            ctx.check_that(np.array_equal(shifted.samples[name].to_numpy(), s["df"][name].to_numpy()), "a weight or posterior column was changed", column=name)
    if s["lp"] is not None:
        ctx.check_that(np.array_equal(shifted.log_posterior, s["lp"]), "the log posterior was changed")
        a, b = plain.get_max_posterior_point(), shifted.get_max_posterior_point()
        ctx.check_that(a.log_posterior == b.log_posterior and all(abs(b.coordinate[c] - (a.coordinate[c] - s["mean"][c])) <= eps(s, c) for c in a.coordinate) and list(a.coordinate) == list(b.coordinate), "the maximum posterior is not the shifted one", plain=a.coordinate, shifted=b.coordinate)
    sd = np.array([s["std"][c] for c in s["order"]])
    mu = np.array([abs(s["mean"][c]) for c in s["order"]])
    a, b = plain.get_covariance(), shifted.get_covariance()
    ctx.check_that(list(a.columns) == list(b.columns) and np.all(np.abs(a.matrix - b.matrix) <= 1e-9 * np.outer(sd + 1e-3 * mu, sd + 1e-3 * mu)), "the covariance changed", columns=b.columns, off=np.abs(a.matrix - b.matrix).max())
    ctx.check_that(np.allclose(plain.get_correlation().matrix, shifted.get_correlation().matrix, atol=1e-6), "the correlation changed")
    if kw.get("walkers") == 2:
        h = s["n"] // 2
        for i, p in enumerate(shifted.divide()):
            for c in s["order"]:
                ctx.check_that(np.array_equal(p.samples[c].to_numpy(), shifted.samples[c].to_numpy()[i * h : (i + 1) * h]), "a walker is not a block of the shifted chain", column=c, walker=i)
        ctx.count("divided")
    again = Chain(samples=shifted.samples, name="d", shift_params=True, **kw)
    ctx.check_that(all(np.all(np.abs(again.samples[c].to_numpy() - shifted.samples[c].to_numpy()) <= 2 * eps(s, c)) for c in s["order"]), "shifting a second time moves the parameters")
    ctx.count("chains")
    ctx.distinct("chain", tuple(s["order"]), s["ik"], s["wk"], tuple(kw))


def summaries(ctx):
    rng = ctx.rng
    s = build(ctx, kmax=3, nlo=1500, nhi=12000)
    stat = list(S)[int(rng.integers(5))]
    opts = dict(statistics=stat, summary_area=float(rng.choice([0.6827, 0.5, 0.9])))
    if rng.uniform() < 0.4:
        opts["smooth"] = int(rng.choice([0, 1, 2]))
    if rng.uniform() < 0.4:
        opts["bins"] = int(rng.integers(20, 60))
    if rng.uniform() < 0.1 and s["n"] < 4000:
        opts["kde"] = 0.7
    source = str(rng.choice(["own", "override"]))
    ctx.describe(columns=s["order"], n=s["n"], weights=s["wk"], settings=opts, source=source)
    a = ChainConsumer().add_chain(Chain(samples=s["df"], name="c", **opts, **s["kw"]))
    b = ChainConsumer()
    if source == "own":
        b.add_chain(Chain(samples=s["df"], name="c", shift_params=True, **opts, **s["kw"]))
    else:
        b.add_chain(Chain(samples=s["df"], name="c", **opts, **s["kw"]))
        b.set_override(ChainConfig(shift_params=True))
    ra, rb = a.analysis.get_summary()["c"], b.analysis.get_summary()["c"]
    if rng.uniform() < 0.5:
        rb = b.analysis.get_summary()["c"]
    for c in s["order"]:
        if s["data"][c].dtype.kind == "i":
            continue
        va, vb = (np.array([np.nan if v is None else v for v in (r[c].lower, r[c].center, r[c].upper)]) for r in (ra, rb))
        # samples on the edge of a bin may fall on the other side of it
        tol = 0.02 * s["std"][c]
        close = np.allclose(vb, va - s["mean"][c], rtol=0, atol=tol, equal_nan=True)
        if not close and stat in (S.MAX, S.MAX_CENTRAL, S.HDI):
            # of two peaks of all but the same height either may be taken, and so for intervals of the same width
            x = s["data"][c] - s["mean"][c]
            blur = summ.resolution(x, s["w"], bins=opts.get("bins"), smooth=opts.get("smooth"), kde=opts.get("kde", False), n=s["n"], ncols=s["df"].shape[1])
            f, top, _, _ = summ.density(x, s["w"], blur)
            close = stat == S.HDI or f(vb[1]) >= 0.85 * top
            if not (np.isnan(va).any() or np.isnan(vb).any()):
                a, b2 = (gen.mass_in(x, s["w"], *v[[0, 2]]) for v in (va - s["mean"][c], vb))
                close = close and abs(a - b2) <= 0.03 and np.all(np.abs(vb - va + s["mean"][c]) <= s["std"][c])
            else:
                close = close and not np.isnan(vb[1]) and abs(vb[1] - va[1] + s["mean"][c]) <= s["std"][c] and stat == S.MAX
            ctx.count("summaries with two like peaks")
        ctx.check_that(close, "the summary is not the plain one less the mean", column=c, plain=va, shifted=vb, mean=s["mean"][c], spread=s["std"][c], source=source, statistic=stat.value)
        ctx.count("summaries compared")
    if source == "override":
        kept = b.get_chain("c")
        ctx.check_that(all(np.array_equal(kept.samples[c].to_numpy(), s["data"][c]) for c in s["order"]), "the override changed the chain that was added")
        b.set_override(ChainConfig())
        rc = b.analysis.get_summary()["c"]
        ctx.check_that(all(rc[c] == ra[c] for c in s["order"]), "the chain is still shifted after the override is gone")
    ctx.distinct("summaries", tuple(s["order"]), s["wk"], tuple(opts), stat, source)


def figures(ctx):
    """What is drawn for a shifted chain is what is drawn for a chain built from samples shifted by hand."""
    rng = ctx.rng
    s = build(ctx, kmax=3, nlo=600, nhi=2000)
    byhand = s["df"].copy()
    for c in s["order"]:
        byhand[c] = byhand[c] - s["mean"][c]
    opts = dict(statistics=list(S)[int(rng.integers(5))], bins=14, zorder=1000)
    if s["lp"] is not None and rng.uniform() < 0.5:
        opts["plot_point"] = True
    if rng.uniform() < 0.3:
        opts.update(plot_cloud=True, num_cloud=200)
        if len(s["order"]) > 1 and rng.uniform() < 0.6:
            opts["color_param"] = str(rng.choice(s["order"]))
    kind = str(rng.choice(["plot", "walks", "distributions", "summary"]))
    source = str(rng.choice(["own", "override"]))
    other = rng.normal(size=(900, len(s["order"]))) * [s["std"][c] for c in s["order"]]
    other = pd.DataFrame(other + [0.5 * s["std"][c] for c in s["order"]], columns=s["order"])
    truth = {s["order"][0]: 0.3 * s["std"][s["order"][0]]}
    ctx.describe(figure=kind, columns=s["order"], weights=s["wk"], settings=opts, source=source)
    seen = []
    for hand in (False, True):
        cc = ChainConsumer()
        if hand:
            cc.add_chain(Chain(samples=byhand, name="c", **opts, **s["kw"]))
        elif source == "own":
            cc.add_chain(Chain(samples=s["df"], name="c", shift_params=True, **opts, **s["kw"]))
        else:
            cc.add_chain(Chain(samples=s["df"], name="c", **opts, **s["kw"]))
            cc.set_override(ChainConfig(shift_params=True))
        if source == "own" and len(seen) == 0:
            ctx.count("a chain that is not shifted beside it")
        if source == "own":
            cc.add_chain(Chain(samples=other, name="o", zorder=2000))
        cc.add_truth(Truth(location=truth))
        cc.set_plot_config(PlotConfig(summarise=False))
        fig = {"plot": cc.plotter.plot, "walks": cc.plotter.plot_walks, "distributions": cc.plotter.plot_distributions, "summary": cc.plotter.plot_summary}[kind]()
        seen.append(figs.panels(fig))
    ctx.check_that(set(seen[0]) == set(seen[1]), "the panels differ", got=sorted(seen[0]), want=sorted(seen[1]))
    for where in set(seen[0]) & set(seen[1]):
        a, b = seen[0][where], seen[1][where]
        for get in (lambda x: x.get_xlim(), lambda x: x.get_ylim()):
            la, lb = np.array(get(a)), np.array(get(b))
            ctx.check_that(np.allclose(la, lb, rtol=0, atol=0.04 * np.ptp(lb) + 1e-300), "an axis of the shifted chain differs from that of samples shifted by hand", figure=kind, panel=where, got=la, want=lb)
        ca, cb = figs.curves(a), figs.curves(b)
        if not ctx.check_that(len(ca) == len(cb) and len(a.lines) == len(b.lines) and len(a.collections) == len(b.collections), "something is drawn for one and not for the other", figure=kind, panel=where, got=(len(ca), len(a.lines), len(a.collections)), want=(len(cb), len(b.lines), len(b.collections))):
            continue
        for p, q in zip(ca, cb):
            for k in "xy":
                span = np.ptp(q[k])
                ok = p[k].shape == q[k].shape and np.quantile(np.abs(p[k] - q[k]), 0.97) <= 0.05 * span
                ctx.check_that(ok, "a line of the shifted chain differs from that of samples shifted by hand", figure=kind, panel=where, along=k)
            ctx.count("lines compared")
        for p, q in zip(figs.scatters(a), figs.scatters(b)):
            u, v = np.asarray(p.get_offsets()), np.asarray(q.get_offsets())
            span = np.maximum(np.ptp(v, axis=0), [a.get_xlim()[1] - a.get_xlim()[0], a.get_ylim()[1] - a.get_ylim()[0]]) if len(v) else 1
            ctx.check_that(u.shape == v.shape and np.all(np.abs(u - v) <= 1e-6 * span), "the points of the shifted chain differ from those of samples shifted by hand", figure=kind, panel=where, got=u[:2], want=v[:2])
            cu, cv = p.get_array(), q.get_array()
            if ctx.check_that((cu is None) == (cv is None), "only one of the two is coloured", figure=kind, panel=where) and cu is not None and np.size(cu):
                ctx.check_that(np.shape(cu) == np.shape(cv) and np.all(np.abs(cu - cv) <= 1e-6 * np.ptp(cv)), "the colours of the shifted chain differ from those of samples shifted by hand", panel=where, got=cu[:2], want=cv[:2])
                ctx.count("coloured points compared")
            ctx.count("sets of points compared")
    ctx.distinct("figures", kind, tuple(s["order"]), s["wk"], tuple(opts), source)


CASES = {"chain": (chain, 500, 15000), "summaries": (summaries, 350, 10000), "figures": (figures, 60, 1500)}
REQUIRED = {"chains": 400, "divided": 120, "summaries compared": 400, "lines compared": 80, "sets of points compared": 15}
