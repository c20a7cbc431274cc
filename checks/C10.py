"""Maximum posterior points, and where they are drawn, against an argmax over the raw arrays."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig

from vlib import figs, gen

ID = "C10"
TITLE = "maximum posterior points"
RULE = (
    "point: 1-4 chains of 1-4000 rows with any row labels (shifted, shuffled, string, duplicated, float), row order, weights, power, renamed posterior column (a third without one), "
    "sometimes tied or extreme log posteriors; the point must be the row of the highest log posterior. drawn: chains with plot_point and markers over 2-4 parameters with overlapping "
    "sets, every panel's points attributed to their chain. Distinct by labels, columns and options."
)


def posterior(rng, n):
    kind = rng.uniform()
    if kind < 0.6:
        v = -rng.exponential(size=n) * 10 ** rng.uniform(-3, 4)
    elif kind < 0.75:
        v = rng.normal(size=n) + float(rng.choice([0, 1e6, -1e8]))
    elif kind < 0.8:
        # equal to the eighth decimal
        v = float(rng.choice([-3.0, -812.5, 4e4])) - rng.exponential(size=n) * 10 ** float(rng.choice([-7, -8, -9]))
    elif kind < 0.9:
        v = -np.abs(rng.standard_cauchy(size=n)) * 1e3
    else:
        v = np.round(-rng.exponential(size=n) * 3)  # ties
    return v


def make(rng, name, cols, n, need=False, **kw):
    x = {c: rng.normal(size=n) * 10 ** rng.uniform(-2, 2) + rng.normal() for c in cols}
    wk, w = gen.weights(rng, n)
    pname = None if rng.uniform() < 0.3 and not need else str(rng.choice(["log_posterior", "log_posterior", "lnP", "like"]))
    lp = None if pname is None else posterior(rng, n)
    ik, idx = gen.index(rng, n)
    df = gen.frame(rng, x, w, lp, idx, post_name=pname or "log_posterior")
    if pname not in (None, "log_posterior"):
        kw["posterior_column"] = pname
    if rng.uniform() < 0.3:
        kw["power"] = float(rng.choice([0.5, 2.0, 3.0]))
    if rng.uniform() < 0.2:
        for d in (2, 3, 4):
            if n % d == 0:
                kw["walkers"] = d
    return Chain(samples=df, name=name, **kw), x, lp, ik


def best_rows(x, lp):
    top = np.nonzero(lp == lp.max())[0]
    return [{c: float(v[i]) for c, v in x.items()} for i in top]


def point(ctx):
    rng = ctx.rng
    cc, want = ChainConsumer(), {}
    kinds = []
    for k in range(int(rng.integers(1, 5))):
        n = int(rng.choice([1, 2, 5, 40, 300, 4000]))
        cols = gen.names(rng, int(rng.integers(1, 5) if rng.uniform() < 0.9 else rng.integers(5, 15)))
        name = f"chain {k}"
        ch, x, lp, ik = make(rng, name, cols, n)
        kinds.append((ik, n, len(cols), lp is None))
        cc.add_chain(ch)
        want[name] = None if lp is None else (best_rows(x, lp), float(lp.max()))
        p = ch.get_max_posterior_point()
        if lp is None:
            ctx.check_that(p is None, "a maximum posterior without a posterior column", chain=name)
            ctx.count("no posterior")
            continue
        ctx.check_that(p is not None and p.log_posterior == lp.max(), "the log posterior given is not the highest", got=None if p is None else p.log_posterior, best=lp.max(), labels=ik)
        ctx.check_that(p is not None and dict(p.coordinate) in want[name][0], "the point is not the row of the highest log posterior", got=p.coordinate, want=want[name][0][:2], labels=ik)
        ctx.check_that(set(p.coordinate) == set(cols) and np.array_equal(p.vec_coordinate, np.array(list(p.coordinate.values()))), "the point does not give exactly the parameters", got=list(p.coordinate), want=cols)
        ctx.count("points")
    if rng.uniform() < 0.4:
        cc.set_override(ChainConfig(plot_point=True, linewidth=2.0))
    if rng.uniform() < 0.4:
        loc = {c: float(rng.normal()) for c in gen.names(rng, 2)}
        cc.add_marker(loc, name="here")
        want["here"] = ([loc], None)
    mp = cc.analysis.get_max_posteriors()
    have = [k for k, v in want.items() if v is not None]
    ctx.check_that(list(mp) == have, "maximum posteriors are not given for exactly the chains with a posterior, in order", got=list(mp), want=have)
    for k in have:
        if k in mp:
            ok = dict(mp[k].coordinate) in want[k][0] and (want[k][1] is None or mp[k].log_posterior == want[k][1])
            ctx.check_that(ok, "get_max_posteriors gives another point", chain=k, got=mp[k].coordinate, want=want[k])
    pick = [str(v) for v in rng.permutation(list(want))[: rng.integers(1, len(want) + 1)]]
    some = cc.analysis.get_max_posteriors(chains=pick)
    ctx.check_that(list(some) == [k for k in pick if want[k] is not None], "get_max_posteriors of chosen chains does not cover exactly those", got=list(some), picked=pick)
    for k, p in some.items():
        ctx.check_that(dict(p.coordinate) in want[k][0], "get_max_posteriors of chosen chains gives another chain's point", chain=k)
    ctx.describe(chains=kinds)
    ctx.distinct(tuple(kinds))


def drawn(ctx):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(2, 5)))
    cc, truth = ChainConsumer(), []
    for k in range(int(rng.integers(1, 4))):
        m = int(rng.integers(2, len(pool) + 1))
        cols = [str(c) for c in rng.permutation(pool)[:m]]
        if rng.uniform() < 0.4:
            loc = {c: float(rng.normal()) for c in cols}
            cc.add_marker(loc, name=f"m{k}", zorder=figs.zorder(k), marker_style=str(rng.choice([".", "*", "o"])), marker_size=float(rng.choice([20, 80])))
            truth.append((cols, [loc], cc.get_chain(f"m{k}")))
        else:
            n = int(rng.integers(40, 400))
            cloud = bool(rng.uniform() < 0.3)
            cont = bool(rng.uniform() < 0.6)
            # (a chain drawn as nothing but a point it does not have gives its axes no range at all)
            ch, x, lp, ik = make(rng, f"c{k}", cols, n, need=not (cont or cloud), plot_point=True, plot_contour=cont, plot_cloud=cloud, zorder=figs.zorder(k), bins=8, smooth=1, marker_size=int(rng.choice([15, 60])))
            cc.add_chain(ch)
            truth.append((cols, None if lp is None else best_rows(x, lp), ch))
    hists = bool(rng.uniform() < 0.6)
    flip = bool(rng.uniform() < 0.5)
    cc.set_plot_config(PlotConfig(plot_hists=hists, flip=flip))
    fig = cc.plotter.plot()
    order = []
    for cols, _, ch in truth:
        for c in ch.samples.columns:
            if c in cols and c not in order:
                order.append(c)
    off = 0 if hists else 1
    for (r, c), ax in figs.panels(fig).items():
        py, px = order[r + off], order[c]
        for k, (cols, best, ch) in enumerate(truth):
            pts = [s for s in figs.scatters(ax) if s.get_zorder() == figs.zorder(k) + 1]
            inpanel = best is not None and px in cols and py in cols and (r > c or (not hists and r >= c))
            if not inpanel:
                ctx.check_that(not pts, "a point is drawn in a panel that does not show two of its parameters", panel=(r, c), chain=ch.name, columns=cols)
                continue
            got = [tuple(v) for p in pts for v in np.asarray(p.get_offsets())]
            ok = len(got) == 1 and any(got[0] == (b[px], b[py]) for b in best)
            ctx.check_that(ok, "the point is not drawn at the maximum posterior", panel=(px, py), chain=ch.name, got=got, want=best[:2])
            if len(pts) == 1:
                ctx.check_that(np.allclose(pts[0].get_sizes(), ch.marker_size), "the point does not have the size asked for", got=pts[0].get_sizes(), want=ch.marker_size)
            ctx.count("points drawn")
    ctx.describe(columns=order, chains=[(t[2].name, t[0]) for t in truth], hists=hists, flip=flip)
    ctx.distinct(tuple(order), hists, flip, tuple(tuple(t[0]) for t in truth))


CASES = {"point": (point, 400, 12000), "drawn": (drawn, 80, 1500)}
REQUIRED = {"points": 300, "no posterior": 50, "points drawn": 80}
