"""Every point of every cloud looked up among the rows of its chain."""
import itertools

import matplotlib.pyplot as plt
import numpy as np
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_cloud, plot_surface

from vlib import figs, gen

ID = "C33"
TITLE = "clouds"
RULE = (
    "Each case draws 1-3 chains with clouds (1-60 000 rows, any row labels and column order, any number of points asked for, weights, with or without contours and points, a colour parameter that is a parameter, the weights, the log posterior or a column of its own, any colour map, settings on the chain or in the override) "
    "in a triangle or on an axis alone. Each point's x, y and colour value are looked up among the rows. Distinct by rows, points, colour parameter, columns and way of drawing."
)
PRELOAD = ["matplotlib.pyplot"]
CMAPS = ["viridis", "plasma", "coolwarm", "Greys", "hot"]


def build(ctx, k, pool, override=False):
    rng = ctx.rng
    n = int(10 ** rng.uniform(0.7, 4.3))
    if rng.uniform() < 0.1:
        n = int(rng.integers(20000, 60000))
    cols = [pool[i] for i in rng.permutation(len(pool))[: max(2, int(rng.integers(2, len(pool) + 1)))]]
    data = {}
    for c in cols:
        loc, scale = gen.loc_scale(rng)
        data[c] = loc + scale * rng.normal(size=n)
    if rng.uniform() < 0.1:
        data[cols[0]] = np.round(rng.normal(size=n) * 3)
    wk, w = gen.weights(rng, n)
    lp = -rng.exponential(size=n) * 50 if rng.uniform() < 0.7 else None
    kw = {}
    names = {}
    if w is not None and rng.uniform() < 0.2:
        names["weight_name"] = kw["weight_column"] = "mult"
    if lp is not None and rng.uniform() < 0.2:
        names["post_name"] = kw["posterior_column"] = "lnL"
    wn, pn = names.get("weight_name", "weight"), names.get("post_name", "log_posterior")
    cparam = None
    r = rng.uniform()
    if r < 0.2 and len(cols) > 2:
        cparam = cols[int(rng.integers(len(cols)))]
    elif r < 0.4:
        cparam = "extra"
        data["extra"] = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
    elif r < 0.55 and w is not None:
        cparam = wn
    elif r < 0.7 and lp is not None:
        cparam = pn
    ik, idx = gen.index(rng, n)
    df = gen.frame(rng, data, w=w, logp=lp, idx=idx, **names)
    if rng.uniform() < 0.7:
        kw["num_cloud"] = int(rng.choice([1, 2, 7, 50, 1000, n, n + 1, max(1, n // 2), max(1, n // 3), max(1, 2 * n // 3), max(1, n - 1)]))
        if kw["num_cloud"] > 20000:
            kw["num_cloud"] = 20000
    if cparam is not None:
        kw["color_param"] = cparam
        if rng.uniform() < 0.6:
            kw["cmap"] = str(rng.choice(CMAPS))
    contour = bool(rng.uniform() < 0.4) and n > 200 and len(np.unique(data[cols[0]])) > 50
    point = bool(rng.uniform() < 0.3) and lp is not None
    full = df.copy()
    if wn not in full:
        full[wn] = 1.0
    shown = [c for c in df.columns if c in data and c != cparam]
    return dict(n=n, df=df, full=full, cols=shown, cparam=cparam, kw=kw, contour=contour, point=point, want=kw.get("num_cloud", 10000), z=figs.zorder(k), color=["#2040c0", "#c04020", "#208040"][k], index=ik, wn=wn)


def judge(ctx, s, cols, h, where):
    """One cloud against the rows of its chain."""
    o = np.ma.filled(np.ma.asarray(h.get_offsets(), dtype=float), np.nan)
    n, m = s["n"], len(o)
    least = min(n, s["want"])
    ctx.check_that(least <= m <= n and (m < 2 * s["want"] or m <= 1), "a cloud does not have the number of points asked for", points=m, rows=n, asked=s["want"], **where)
    x, y = (s["full"][c].to_numpy(dtype=float) for c in cols)
    # the rows of an even thinning from the first: 0, k, 2k, ...
    for k in range(-(-n // max(m, 1)), ((n - 1) // (m - 1) if m > 1 else n) + 1):
        rows = np.arange(0, n, k)
        if len(rows) == m and np.array_equal(o, np.column_stack([x[rows], y[rows]])):
            break
    else:
        at = {}
        for i in range(n):
            at.setdefault((x[i], y[i]), []).append(i)
        lost = [tuple(p) for p in o if tuple(p) not in at]
        ctx.fail("a point of a cloud is not a row of the chain" if lost else "a cloud is not thinned evenly from the first row", lost=len(lost), points=m, rows=n, first=o[:3], **where)
        return
    ctx.count("evaluated clouds")
    ctx.count("points looked up", m)
    ctx.counters["oracle_evaluations"] += m
    arr = h.get_array()
    if s["cparam"] is None:
        fc = np.atleast_2d(h.get_facecolor())
        ctx.check_that(arr is None and len(fc) >= 1 and all(figs.hexcol(c) == s["color"] for c in fc), "a cloud is not in its chain's colour", got=fc[:2], **where)
    else:
        v = s["full"][s["cparam"]].to_numpy(dtype=float)[rows]
        ctx.check_that(arr is not None and np.array_equal(np.asarray(arr, float), v), "a point's colour value is not that of its row", got=None if arr is None else np.asarray(arr)[:4], want=v[:4], parameter=s["cparam"], **where)
        ctx.check_that(h.get_cmap().name == s["kw"].get("cmap", "viridis"), "a cloud is not in its colour map", got=h.get_cmap().name, want=s["kw"].get("cmap"), **where)
        if arr is not None:
            lo, hi = h.get_clim()
            ctx.check_that(lo <= v.min() and hi >= v.max() and (np.ptp(v) == 0 or (hi - lo) <= np.ptp(v) + 1e-9 * abs(hi)), "the colour scale is not the range of the values", got=(lo, hi), want=(v.min(), v.max()), **where)
        ctx.count("clouds with a colour value")


def make(ctx, n_chains=3):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(2, 5)))
    return pool, [build(ctx, k, pool) for k in range(int(rng.integers(1, n_chains + 1)))]


def triangle(ctx):
    rng = ctx.rng
    pool, ss = make(ctx)
    labels = {c: f"label {i}" for i, c in enumerate([*pool, "extra", "mult", "lnL", "log_posterior"]) if rng.uniform() < 0.4}
    by_override = rng.uniform() < 0.2
    cc = ChainConsumer()
    called = gen.chain_names(rng, len(ss))
    for k, s in enumerate(ss):
        kw = dict(s["kw"])
        if not by_override:
            kw["plot_cloud"] = True
        cc.add_chain(gen.chain(rng, drawn=True, samples=s["df"], name=called[k], color=s["color"], plot_contour=s["contour"], plot_point=s["point"], zorder=s["z"], bins=8, **kw))
    if by_override:
        num = int(rng.choice([10, 100]))
        cc.set_override(ChainConfig(plot_cloud=True, num_cloud=num))
        for s in ss:
            s["want"] = num
    cc.set_plot_config(PlotConfig(labels=labels, flip=False, summarise=False, plot_hists=bool(rng.uniform() < 0.8)))
    union = list(dict.fromkeys(itertools.chain.from_iterable(s["cols"] for s in ss)))
    hists = cc.plotter.config.plot_hists
    if not hists and len(union) < 2:
        return
    columns = None
    if rng.uniform() < 0.3:
        columns = [union[i] for i in rng.permutation(len(union))[: max(2, int(rng.integers(2, len(union) + 1)))]]
        if len(columns) < 2:
            columns = None
    ctx.describe(chains=[dict(rows=s["n"], columns=s["cols"], colour=s["cparam"], settings=s["kw"], index=s["index"]) for s in ss], columns=columns, override=by_override)
    fig = cc.plotter.plot(columns=columns)
    want = columns or union
    pan = figs.panels(fig)
    m = len(want) - (0 if hists else 1)
    ctx.check_that(set(pan) == {(i, j) for i in range(m) for j in range(m)}, "the panels are not those of the parameters, less the colour parameters", got=len(pan), want=want)
    rows, cols = (want, want) if hists else (want[1:], want[:-1])
    for (i, j), ax in pan.items():
        if j > i or (hists and i == j):
            ctx.check_that(not figs.scatters(ax), "a cloud outside the triangle", panel=(i, j))
            continue
        sc = figs.scatters(ax)
        used = 0
        for s in ss:
            mine = [h for h in sc if abs(h.get_zorder() - s["z"]) <= 20]
            here = [h for h in mine if h.get_zorder() < s["z"]]
            has = cols[j] in s["cols"] and rows[i] in s["cols"]
            used += len(mine)
            if ctx.check_that(len(here) == int(has), "a cloud is not drawn once where the chain has both parameters", drawn=len(here), panel=(cols[j], rows[i]), columns=s["cols"]) and has:
                judge(ctx, s, (cols[j], rows[i]), here[0], dict(panel=(cols[j], rows[i])))
        ctx.check_that(used == len(sc), "points that belong to no chain", panel=(cols[j], rows[i]))
    drawn = [s["cparam"] for s in ss if s["cparam"] is not None and any(a in s["cols"] and b in s["cols"] for a, b in ((cols[j], rows[i]) for i, j in pan if j < i or (not hists and j == i)))]
    bars = [ax for ax in fig.axes if figs.is_colorbar(ax)]
    name = lambda c: {"weight": "Weights"}.get(labels.get(c, c), labels.get(c, c))  # noqa: E731
    got = sorted(ax.get_ylabel() for ax in bars)
    ctx.check_that(got == sorted({name(c) for c in drawn}), "the colour bars are not those of the colour parameters drawn", got=got, want=sorted({name(c) for c in drawn}))
    for ax in bars:
        lo, hi = ax.get_ylim()
        own = [s for s in ss if s["cparam"] is not None and name(s["cparam"]) == ax.get_ylabel()]
        drawn_values = [h.get_array() for a in pan.values() for h in figs.scatters(a) if h.get_array() is not None]
        if any(np.ptp(np.asarray(v, float)) == 0 for v in drawn_values):
            ctx.count("a colour bar of one value")
            continue
        ranges = [(v.min(), v.max()) for s in own for v in [s["full"][s["cparam"]].to_numpy(dtype=float)]]
        one = any(a - 1e-6 * (b - a) - 1e-12 * abs(a) <= lo and hi <= b + 1e-6 * (b - a) + 1e-12 * abs(b) for a, b in ranges) or any(a == b for a, b in ranges)
        ctx.check_that(one, "a colour bar does not span the values of its parameter", got=(lo, hi), values=ranges, label=ax.get_ylabel())
        ctx.count("colour bars")
    ctx.count("figures")
    ctx.distinct("triangle", tuple((s["n"], s["want"], s["cparam"], tuple(s["cols"])) for s in ss), by_override, columns is None)


def alone(ctx):
    rng = ctx.rng
    pool, ss = make(ctx, 1)
    s = ss[0]
    if len(s["cols"]) < 2:
        return
    px, py = (s["cols"][i] for i in rng.permutation(len(s["cols"]))[:2])
    fig, ax = plt.subplots()
    chain = gen.chain(rng, drawn=True, samples=s["df"], name="c", color=s["color"], plot_cloud=True, plot_contour=False, plot_point=False, zorder=s["z"], **s["kw"])
    surface = bool(rng.uniform() < 0.5)
    ctx.describe(rows=s["n"], columns=(px, py), colour=s["cparam"], settings=s["kw"], index=s["index"], surface=surface)
    out = plot_surface(ax, [chain], px, py) if surface else plot_cloud(ax, chain, px, py)
    sc = figs.scatters(ax)
    if ctx.check_that(len(sc) == 1, "a cloud is not drawn once", drawn=len(sc)):
        judge(ctx, s, (px, py), sc[0], {})
        ctx.check_that(out == ({} if s["cparam"] is None else {s["cparam"]: sc[0]}), "what is to get a colour bar is not returned", got=list(out))
    ctx.count("drawn alone")
    ctx.distinct("alone", s["n"], s["want"], s["cparam"], px, py, surface)


def panels(ctx):
    """The colour parameter is a panel of its own exactly when no cloud is drawn."""
    rng = ctx.rng
    pool = gen.names(rng, 3)
    n = 300
    df = gen.frame(rng, {c: rng.normal(size=n) for c in pool})
    order = [c for c in df.columns if c in pool]
    cparam = pool[int(rng.integers(3))]
    cloud = bool(rng.uniform() < 0.5)
    cc = ChainConsumer().add_chain(gen.chain(rng, drawn=True, samples=df, name="c", color_param=cparam, plot_cloud=cloud, bins=8))
    cc.set_plot_config(PlotConfig(flip=False, summarise=False))
    want = [c for c in order if not (cloud and c == cparam)]
    ctx.describe(columns=order, colour=cparam, cloud=cloud)
    fig = cc.plotter.plot()
    pan = figs.panels(fig)
    k = len(want)
    ctx.check_that(set(pan) == {(i, j) for i in range(k) for j in range(k)} and [pan[k - 1, j].get_xlabel().strip() for j in range(k)] == want, "the panels are not the parameters to be drawn", got=len(pan), want=want)
    fig = cc.plotter.plot_distributions(col_wrap=5)
    pan = figs.panels(fig)
    ctx.check_that([pan[0, j].get_xlabel() for j in range(len(pan))] == want and all(len(figs.curves(a)) == 1 for a in pan.values()), "the distributions are not those of the parameters to be drawn", got=len(pan), want=want)
    ctx.check_that(len([ax for ax in cc.plotter.plot().axes if figs.is_colorbar(ax)]) == int(cloud), "a colour bar without a cloud, or a cloud without")
    ctx.count("panels of the colour parameter")
    ctx.distinct("panels", tuple(order), cparam, cloud)


CASES = {"triangle": (triangle, 110, 5000), "alone": (alone, 120, 6000), "panels": (panels, 25, 800)}
REQUIRED = {"evaluated clouds": 250, "points looked up": 100000, "clouds with a colour value": 100, "colour bars": 30, "drawn alone": 90, "panels of the colour parameter": 20}
