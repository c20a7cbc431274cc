"""Every point of a walk plot compared with the raw columns."""
import numpy as np
from chainconsumer import Chain, ChainConsumer, PlotConfig

from vlib import figs, gen

ID = "C23"
TITLE = "walks"
RULE = (
    "Each case calls plot_walks for 1-4 chains of 2-4 000 rows (different lengths, 8 kinds of row label, weights over 12 decades, log posteriors, markers), with a selection of chains and columns in any order, weights, log weights and posterior "
    "asked for or not, a moving average of any window; every scatter and line of every panel is compared with the raw columns. A second kind has chains of up to 450 000 rows beside shorter ones and checks the thinning, its step numbers and moving averages. Distinct by the chains' parameters, lengths, selection and options."
)
PRELOAD = ["matplotlib.pyplot"]
COLOURS = ["#804020", "#208040", "#203080", "#787020", "#702878"]


def judge_panel(ctx, ax, expected, convolve, where):
    """expected: [(name, colour, values)] in order."""
    sc = figs.scatters(ax)
    if not ctx.check_that(len(sc) == len(expected), "a walk panel does not show exactly the chains that have it", drawn=len(sc), chains=[e[0] for e in expected], **where):
        return
    for name, colour, v in expected:
        mine = [s for s in sc if figs.hexcol(s.get_facecolor()[0]) == colour]
        if not ctx.check_that(len(mine) == 1, "a chain's walk is not drawn once in its colour", chain=name, drawn=len(mine), **where):
            continue
        o = np.ma.filled(np.ma.asarray(mine[0].get_offsets(), dtype=float), np.nan)
        same = o.shape == (len(v), 2) and np.array_equal(o[:, 0], np.arange(len(v))) and np.allclose(o[:, 1], v, rtol=1e-12, atol=0)
        ctx.check_that(same, "a walk is not the column's values in row order", chain=name, points=o.shape, first=o[:4], values=v[:4], **where)
        ctx.count("walks")
        ctx.count("points", len(o))
    longest = max((len(e[2]) for e in expected), default=0)
    lo, hi = ax.get_xlim()
    ctx.check_that(lo <= 0 and hi >= longest - 1, "steps lie outside the x range", xlim=(lo, hi), steps=longest, **where)
    lines = [ln for ln in ax.lines if len(ln.get_xdata()) != 2 or ln.get_transform() == ax.transData]
    if convolve is None:
        ctx.check_that(not lines, "a moving average nobody asked for", **where)
        return
    if not ctx.check_that(len(lines) == len(expected), "not one moving average per walk", drawn=len(lines), **where):
        return
    for (name, colour, v), ln in zip(expected, lines):
        x, y = (np.asarray(k, float) for k in ln.get_data())
        n = len(v)
        # the mean of the window around a step; for an even window either of the two middle ones
        c = np.concatenate(([0.0], np.cumsum(v)))
        inner = np.arange(convolve, n - convolve)
        xi = x.astype(int)
        ctx.check_that(np.array_equal(xi, x) and np.all(np.isin(inner, xi)) and (len(x) == 0 or (xi.min() >= 0 and xi.max() < n)), "a moving average does not cover the walk", chain=name, **where)
        at = np.isin(xi, inner)
        scale = np.abs(v).max() * 1e-7 + 1e-300
        good = np.zeros(at.sum(), bool)
        for left in {convolve // 2, (convolve - 1) // 2}:
            s = xi[at] - left
            good |= np.abs((c[s + convolve] - c[s]) / convolve - y[at]) <= scale
        ctx.check_that(good.all(), "a moving average is not the mean of its window", chain=name, window=convolve, **where)
        ctx.count("moving averages")


def case(ctx):
    rng = ctx.rng
    pool = gen.names(rng, int(rng.integers(1, 5) if rng.uniform() < 0.93 else rng.integers(6, 13)))
    logs = [c for c in pool if rng.uniform() < 0.1]
    scale = {c: 10 ** rng.uniform(-4, 4) for c in pool}
    off = {c: 0 if c in logs else rng.choice([0, 1, -50]) for c in pool}
    cc, chains = ChainConsumer(), []
    order = rng.permutation(len(COLOURS))
    nch = int(rng.integers(1, 5))
    called = gen.chain_names(rng, nch)
    for i in range(nch):
        cols = pool if i == 0 else [c for c in pool if rng.uniform() < 0.7] or pool
        n = int(10 ** rng.uniform(1.6, 3.6)) if rng.uniform() < 0.9 else int(rng.integers(2, 6))
        data = {c: scale[c] * (np.exp(rng.normal(size=n) * 0.5) + np.cumsum(rng.normal(size=n)) * (0 if c in logs else 0.03) + off[c]) for c in cols}
        wk, w = gen.weights(rng, n)
        if w is not None and rng.uniform() < 0.4:
            w = w * np.exp(rng.normal(size=n) * 5)
        lp = rng.normal(size=n) * 10 ** rng.uniform(-2, 4) + rng.choice([0, -1e6, 500]) if rng.uniform() < 0.6 else None
        kw = dict(color=COLOURS[order[i]])
        names = {}
        if w is not None and rng.uniform() < 0.2:
            kw["weight_column"] = names["weight_name"] = "mult"
        if lp is not None and rng.uniform() < 0.2:
            kw["posterior_column"] = names["post_name"] = "lnL"
        df = gen.frame(rng, data, w=w, logp=lp, idx=gen.index(rng, n)[1], **names)
        if rng.uniform() < 0.2:
            kw["power"] = 2.0
        if rng.uniform() < 0.2:
            kw["walkers"] = 1
        name = called[i]
        cc.add_chain(gen.chain(rng, drawn=True, samples=df, name=name, **kw))
        chains.append(dict(name=name, colour=kw["color"], data=data, w=np.ones(n) if w is None else w, lp=lp, n=n, cols=[c for c in df.columns if c in data]))
    chosen = None
    if len(chains) > 1 and rng.uniform() < 0.4:
        chosen = [chains[q] for q in rng.permutation(len(chains))[: int(rng.integers(1, len(chains) + 1))]]
    shown = chosen or chains
    union = list(dict.fromkeys(c for s in shown for c in s["cols"]))
    columns = None if rng.uniform() < 0.4 else [str(c) for c in rng.permutation(union)[: int(rng.integers(1, len(union) + 1))]]
    final = columns or union
    opts = dict(plot_weights=bool(rng.uniform() < 0.6), plot_posterior=bool(rng.uniform() < 0.6), log_weight=bool(rng.uniform() < 0.5))
    if rng.uniform() < 0.5:
        opts = {k: v for k, v in opts.items() if rng.uniform() < 0.6}
    shortest = min(c["n"] for c in shown)
    convolve = int(rng.choice([1, 2, 3, 5, 10, int(rng.integers(1, 60))])) if rng.uniform() < 0.5 else None
    if convolve is not None and convolve > shortest:
        convolve = int(rng.integers(1, shortest + 1))
    labels = {c: f"label of {c}" for c in pool if rng.uniform() < 0.4}
    cc.set_plot_config(PlotConfig(log_scales=logs, labels=labels))
    ctx.describe(columns=final, chains=[dict(name=c["name"], columns=c["cols"], steps=c["n"], posterior=c["lp"] is not None) for c in shown], convolve=convolve, **opts)
    fig = cc.plotter.plot_walks(chains=None if chosen is None else [c["name"] for c in chosen], columns=columns, convolve=convolve, **opts)
    pan = figs.panels(fig)
    seq = []
    if opts.get("plot_posterior", True) and any(c["lp"] is not None for c in shown):
        seq.append(("posterior", [(c["name"], c["colour"], c["lp"] - c["lp"].max()) for c in shown if c["lp"] is not None]))
    if opts.get("plot_weights", True):
        f = np.log10 if opts.get("log_weight", False) else np.asarray
        seq.append(("weight", [(c["name"], c["colour"], f(c["w"])) for c in shown]))
    for p in final:
        seq.append((p, [(c["name"], c["colour"], c["data"][p]) for c in shown if p in c["cols"]]))
    if not ctx.check_that(sorted(pan) == [(i, 0) for i in range(len(seq))], "not one panel per row asked for", panels=sorted(pan), rows=[s[0] for s in seq]):
        return
    for i, (what, expected) in enumerate(seq):
        ax = pan[i, 0]
        judge_panel(ctx, ax, expected, convolve, dict(panel=what))
        if what in final and i >= len(seq) - len(final):
            ctx.check_that(ax.get_ylabel() == labels.get(what, what), "a panel is not labelled with its parameter", label=ax.get_ylabel(), column=what)
            ctx.check_that((ax.get_yscale() == "log") == (what in logs), "a panel's scale is not as asked", column=what)
        else:
            y = np.concatenate([e[2] for e in expected])
            lo, hi = ax.get_ylim()
            ctx.check_that(lo <= y.min() and hi >= y.max(), "steps lie outside the y range", panel=what, ylim=(lo, hi), values=(y.min(), y.max()))
            ctx.count(f"{what} panels")
    ctx.distinct(tuple(final), tuple((c["name"], tuple(c["cols"]), c["n"]) for c in shown), convolve, tuple(opts.items()))


def long(ctx):
    """Long walks are thinned: evenly, in order, from the first step, every point left at its own step."""
    rng = ctx.rng
    window = int(rng.choice([1, 4, 50, 301])) if rng.uniform() < 0.5 else None
    cc, chains = ChainConsumer(), []
    for name, colour in zip(gen.chain_names(rng, int(rng.choice([1, 1, 2]))), COLOURS):
        n = int(rng.choice([100_001, 199_999, 200_000, int(rng.integers(100_001, 450_000)), int(rng.integers(200_001, 450_000))]))
        if chains and rng.uniform() < 0.4:
            n = int(rng.integers(400, 90_000))
        x = rng.normal(size=n) + np.arange(n) * 1e-5
        w = rng.uniform(0.1, 1, n)
        lp = -rng.exponential(size=n)
        cc.add_chain(gen.chain(rng, drawn=True, samples=gen.frame(rng, {"x": x}, w=w, logp=lp, idx=gen.index(rng, n)[1]), name=name, color=colour))
        chains.append((name, colour, n, (lp - lp.max(), w, x)))
    fig = cc.plotter.plot_walks(convolve=window)
    ctx.describe(rows=[c[2] for c in chains], convolve=window)
    for i in range(3):
        ax = figs.panels(fig)[i, 0]
        sc = figs.scatters(ax)
        if not ctx.check_that(len(sc) == len(chains), "a panel does not show every walk", drawn=len(sc)):
            continue
        lo, hi = ax.get_xlim()
        ctx.check_that(lo <= 0 and hi >= max(c[2] for c in chains) - 1, "steps lie outside the x range", xlim=(lo, hi))
        lines = [ln for ln in ax.lines if len(ln.get_xdata()) > 2]
        ctx.check_that(len(lines) == (len(chains) if window else 0), "not one moving average per walk", drawn=len(lines))
        for k, (name, colour, n, vs) in enumerate(chains):
            v = vs[i]
            mine = [s for s in sc if figs.hexcol(s.get_facecolor()[0]) == colour]
            if not ctx.check_that(len(mine) == 1, "a chain's walk is not drawn once in its colour", chain=name):
                continue
            o = np.asarray(mine[0].get_offsets(), float)
            m = len(o)
            ctx.check_that(min(n, 100_000) <= m <= min(n, 200_000), "a thinned walk has too few or too many points", rows=n, points=m)
            step = -(-n // m)
            ctx.check_that(np.array_equal(o[:, 0], np.arange(n)[::step]), "the points of a walk are not at their step numbers", rows=n, points=m, steps=o[:4, 0])
            ctx.check_that(len(v[::step]) == m and np.allclose(o[:, 1], v[::step], rtol=1e-12, atol=0), "a thinned walk is not every k-th step from the first", rows=n, points=m)
            ctx.count("thinned walks" if step > 1 else "long walks shown whole")
            if window and len(lines) == len(chains):
                lx, ly = (np.asarray(q, float) for q in lines[k].get_data())
                c = np.concatenate(([0.0], np.cumsum(v)))
                at = (lx >= window) & (lx < n - window)
                xi = lx[at].astype(int)
                ctx.check_that(len(xi) and np.array_equal(xi, lx[at]) and xi[-1] > n - 3 * window - 3 * step, "a moving average does not cover the walk", rows=n, last=xi[-1:])
                good = np.zeros(len(xi), bool)
                for left in {window // 2, (window - 1) // 2}:
                    good |= np.abs((c[xi - left + window] - c[xi - left]) / window - ly[at]) <= 1e-6 * np.abs(v).max()
                ctx.check_that(good.all(), "a moving average of a long walk is not the mean of its window", rows=n, window=window)
                ctx.count("long moving averages")
    ctx.distinct("long", tuple(c[2] for c in chains), window)


CASES = {"walks": (case, 220, 5000), "long": (long, 16, 120)}
REQUIRED = {"walks": 500, "moving averages": 150, "posterior panels": 40, "weight panels": 60, "thinned walks": 12, "long walks shown whole": 6, "long moving averages": 6}
BATCH = 4
