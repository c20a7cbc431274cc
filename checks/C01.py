"""Quantile summaries against the weighted empirical distribution of the samples themselves."""
import numpy as np
from scipy import stats
from chainconsumer import Chain, ChainConfig, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from vlib import gen, summ

ID = "C01"
TITLE = "quantile summaries"
RULE = (
    'Random chains (1-3 parameters of 12 shapes, 8 kinds of row label, 7 kinds of weights, bins/smooth/kde settings, areas 0.15-0.98, magnitudes '
    '1e-15 to 1e15); the lower, central and upper value of each CUMULATIVE, MEAN or MAX_CENTRAL summary is located in the weighted empirical CDF. '
    'Noise-free densities on fine grids, peaking anywhere (edges included) and raised to powers, and samples with heavy tails, gaps and weights '
    'over decades are further kinds. A case counts when at least one parameter was judged; it is distinct by statistic, shapes, weights, labels, '
    'settings and area.'
)
STATS = [S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL]


def judge(ctx, x, w, b, area, stat, blur, tight, what):
    """One summary against the empirical distribution."""
    lo, mid, hi = b.lower, b.center, b.upper
    if not ctx.check_that(
        lo is not None and mid is not None and hi is not None and np.all(np.isfinite([lo, mid, hi])),
        "a quantile summary is missing a value", bound=repr(b), **what
    ):
        return
    # the mode may lie outside a central interval, the other centres may not
    ctx.check_that(lo <= hi and (stat is S.MAX_CENTRAL or lo <= mid <= hi), "summary values are out of order", bound=[lo, mid, hi], **what)
    std = summ.wstd(x, w)
    # blurring by `blur` moves a CDF value by at most half its square times the slope of the density
    tol_tight = 0.007 + 0.6 * (blur / std) ** 2
    slack = 4 * blur
    quantiles = [("lower", lo, 0.5 - area / 2), ("upper", hi, 0.5 + area / 2)]
    if stat is S.CUMULATIVE:
        quantiles.append(("center", mid, 0.5))
    for nm, v, q in quantiles:
        ctx.check_that(
            gen.mass_below(x, w, v - slack) - 0.004 <= q <= gen.mass_below(x, w, v + slack) + 0.004,
            f"{nm} value is not at its quantile (beyond the resolution of the histogram)",
            value=v, quantile=q, mass_below=gen.mass_below(x, w, v), **what,
        )
        if tight:
            ctx.count("tight quantiles")
            ctx.check_that(
                abs(gen.mass_below(x, w, v) - q) <= tol_tight,
                f"{nm} value is not at its quantile",
                value=v, quantile=q, mass_below=gen.mass_below(x, w, v), tolerance=tol_tight, **what,
            )
    if stat is S.MEAN:
        ctx.check_that(abs(mid - 0.5 * (lo + hi)) <= 1e-9 * (abs(lo) + abs(hi)), "MEAN centre is not the midpoint", bound=[lo, mid, hi], **what)
    if stat is S.MAX_CENTRAL:
        f, peak, _, _ = summ.density(x, w, blur)
        need = 0.93 if tight else 0.55
        ctx.check_that(f(mid) >= need * peak, "MAX_CENTRAL centre is not where the density peaks", center=mid, ratio=float(f(mid) / peak), **what)


def case(ctx):
    rng = ctx.rng
    bins, smooth, kde = summ.options(rng)
    kinds = gen.SMOOTH_UNIMODAL + gen.SMOOTH_UNIMODAL + gen.CUT + ["bimodal"]
    n, cols, shapes, wk, w, ik, idx = summ.columns(ctx, kinds, kde=bool(kde))
    area, stat = summ.area(rng), STATS[int(rng.integers(3))]
    opts = {k: v for k, v in dict(bins=bins, smooth=smooth).items() if v is not None}
    if kde:
        opts["kde"] = kde
    via = str(rng.choice(["chain", "override", "direct"]))
    df = gen.frame(rng, cols, w, idx=idx)
    ctx.describe(n=n, shapes=shapes, weights=wk, labels=ik, area=area, statistic=stat.value, via=via, **opts)
    cc = ChainConsumer()
    if via == "override":
        cc.add_chain(gen.chain(rng, extra=True, samples=df, name="c"))
        cc.set_override(ChainConfig(statistics=stat, summary_area=area, **opts))
        res = cc.analysis.get_summary()["c"]
    else:
        ch = gen.chain(rng, extra=True, samples=df, name="c", statistics=stat, summary_area=area, **opts)
        cc.add_chain(ch)
        res = {c: cc.analysis.get_parameter_summary(ch, c) for c in cols} if via == "direct" else cc.analysis.get_summary()["c"]
    ctx.check_that({c for c in res if not c.startswith("extra ")} == set(cols), "get_summary does not cover exactly the parameters", got=sorted(res), want=sorted(cols))
    for c, x in cols.items():
        blur = summ.resolution(x, w, bins=bins, smooth=smooth, kde=kde, n=n, ncols=df.shape[1] + (w is None))
        tight = shapes[c] in gen.SMOOTH_UNIMODAL and smooth != 0 and not (smooth == 1 and n < 8000) and gen.neff(w, n) > 1500
        judge(ctx, x, w, res[c], area, stat, blur, tight, dict(column=c, shape=shapes[c], statistic=stat.value, area=area, n=n, weights=wk))
        ctx.count(f"judged {stat.value}")
    ctx.distinct(stat, tuple(shapes.values()), wk, ik, bins, smooth, kde, round(area, 3))


def nested(ctx):
    """A larger area never gives a narrower interval, and area 1 reaches the ends of the histogram."""
    rng = ctx.rng
    n, cols, shapes, wk, w, ik, idx = summ.columns(ctx, gen.SMOOTH_UNIMODAL + gen.CUT + ["bimodal"], kmax=1, nhi=8000)
    (c, x), = cols.items()
    stat = STATS[int(rng.integers(3))]
    areas = [*np.sort(rng.uniform(0.02, 0.999, size=6)), 1.0]
    df = gen.frame(rng, cols, w, idx=idx)
    ctx.describe(n=n, shape=shapes[c], weights=wk, areas=areas, statistic=stat.value)
    prev = None
    for a in areas:
        cc = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=df, name="c", statistics=stat, summary_area=float(a)))
        b = cc.analysis.get_summary()["c"][c]
        eps = 1e-9 * (x.max() - x.min())
        ctx.check_that(b.upper > b.lower, "empty interval", area=a, bound=b.array)
        if stat is S.MEAN:
            ctx.check_that(abs(b.center - 0.5 * (b.lower + b.upper)) <= 1e-9 * (b.upper - b.lower) + 1e-12 * abs(b.center), "the centre is not the midpoint", area=a, bound=b.array)
        if prev is not None:
            ctx.check_that(b.lower <= prev.lower + eps and b.upper >= prev.upper - eps, "a larger area gave an interval that does not contain the smaller one", area=a, bound=b.array, previous=prev.array)
        prev = b
    ctx.check_that(gen.mass_in(x, w, prev.lower, prev.upper) > 0.9, "area 1 does not reach the ends of the distribution", mass=gen.mass_in(x, w, prev.lower, prev.upper))
    ctx.count("nesting chains")
    ctx.distinct("nested", shapes[c], wk, stat, n)


def tails(ctx):
    """Evenly spread samples of a known distribution, fine bins: the quantiles of the far tails too."""
    rng = ctx.rng
    name = str(rng.choice(["norm", "logistic", "uniform", "expon", "gumbel_r", "t"]))
    dist = stats.t(6) if name == "t" else getattr(stats, name)()
    n = int(10 ** rng.uniform(4.3, 5.3))
    x = dist.ppf((np.arange(n) + 0.5) / n)
    w = None
    if rng.uniform() < 0.4:
        # the same distribution sampled more densely on one side
        u = ((np.arange(n) + 0.5) / n) ** 2
        x, w = dist.ppf(u), np.sqrt(u) * 10 ** rng.uniform(-5, 5)
    bins, smooth = int(rng.integers(200, 500)), int(rng.choice([1, 2]))
    area = float(1 - 10 ** rng.uniform(-2.9, -1.2))
    stat = STATS[int(rng.integers(3))]
    loc, scale = gen.loc_scale(rng)
    order = rng.permutation(n)
    df = gen.frame(rng, {"x": (loc + scale * x)[order]}, None if w is None else w[order])
    ctx.describe(distribution=name, n=n, bins=bins, smooth=smooth, area=area, statistic=stat.value, loc=loc, scale=scale)
    b = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=df, name="c", statistics=stat, summary_area=area, bins=bins, smooth=smooth)).analysis.get_summary()["c"]["x"]
    blur = (x.max() - x.min()) / (2 * bins)
    for side, v, q in (("lower", b.lower, 0.5 - area / 2), ("upper", b.upper, 0.5 + area / 2)):
        z = (v - loc) / scale
        slip = dist.cdf(z + blur) - dist.cdf(z - blur)
        # cut-off densities are mirrored at their edge, and a thousandth of a percent is left out
        ctx.count("far quantiles")
        ctx.check_that(abs(dist.cdf(z) - q) <= 3e-5 + 1.2 * slip + 2 / n, "a quantile far out in the tail is off", side=side, value=z, quantile=q, there=float(dist.cdf(z)), slip=float(slip), bound=b.array)
    ctx.distinct("tails", name, n, bins, smooth, stat)


def atom(ctx):
    """A good part of the weight exactly at the parameter's lowest or highest value (left out below a fifth: the recorded finding)."""
    rng = ctx.rng
    n = int(rng.integers(3000, 6000))
    small = bool(rng.uniform() < 0.3)
    f, low = float(rng.uniform(0.168, 0.185) if small else rng.uniform(0.25, 0.45)), bool(rng.uniform() < 0.5)
    x = 3 + rng.uniform(size=n) * 4
    x[rng.uniform(size=n) < f] = 0.0
    x = x if low else -x
    b = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=gen.frame(rng, {"x": x}), name="c", statistics=S.CUMULATIVE)).analysis.get_summary()["c"]["x"]
    ctx.describe(n=n, fraction=f, at="minimum" if low else "maximum", bound=b.array)
    slack = 1.0
    for v, q in ((b.lower, 0.15866), (b.center, 0.5), (b.upper, 0.84134)):
        ctx.count("oracle_evaluations")
        if not gen.mass_below(x, None, v - slack) - 0.01 <= q <= gen.mass_below(x, None, v + slack) + 0.01:
            ctx.fail("a quantile leaves out the weight at the parameter's extreme value", finding="weight-at-an-extreme" if small else None, value=v, quantile=q, below=gen.mass_below(x, None, v))
    ctx.distinct("atom", low, round(f, 2))


def lone(ctx):
    """One row thousands of spreads away, so that all the others lie in the outermost cell."""
    rng = ctx.rng
    n = int(rng.integers(3000, 20000))
    x = rng.normal(size=n)
    far = float(10 ** rng.uniform(4.5, 7) * rng.choice([-1, 1]))
    x[int(rng.integers(n))] = far
    stat = [S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL][int(rng.integers(3))]
    ctx.describe(n=n, far=far, statistic=stat.value)
    b = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=gen.frame(rng, {"x": x}), name="c", statistics=stat)).analysis.get_summary()["c"]["x"]
    slack = abs(far) * 0.08  # what 35 bins and their smoothing can tell apart
    for v in (b.lower, b.upper):
        ctx.count("oracle_evaluations")
        if not abs(v) <= slack:
            ctx.fail("an interval lies at a single far row, and the rest of the samples outside it", value=v, far=far)
    ctx.distinct("lone", round(np.log10(abs(far)), 1), far > 0, stat)


def grids(ctx):
    """A density known without noise, its peak anywhere (the very end of the grid included), possibly raised to a power."""
    rng = ctx.rng
    m = int(rng.integers(300, 3000))
    u = np.linspace(0, 1, m)
    kind = str(rng.choice(["falling", "arch", "spike far out", "two peaks"]))
    if kind == "falling":
        f = np.exp(-u * float(rng.uniform(1, 12)))
    elif kind == "arch":
        f = np.exp(-0.5 * ((u - float(rng.uniform(0, 1))) / float(rng.uniform(0.08, 0.5))) ** 2)
    elif kind == "spike far out":
        # the highest point of a density that holds a percent or two of the weight
        at, width = float(rng.uniform(0.02, 0.05)), 8 / m
        f = np.exp(-0.5 * ((u - 0.6) / 0.12) ** 2) + float(rng.uniform(1.15, 1.5)) * np.exp(-0.5 * ((u - at) / width) ** 2)
    else:
        f = np.exp(-0.5 * ((u - 0.25) / 0.05) ** 2) + float(rng.uniform(1.1, 1.5)) * np.exp(-0.5 * ((u - 0.75) / 0.04) ** 2)
    if rng.uniform() < 0.5:
        f = f[::-1]
    f = np.maximum(f, 1e-9)
    power = float(rng.choice([0.5, 2.0, 3.0])) if rng.uniform() < 0.35 else None
    area, stat = summ.area(rng), STATS[int(rng.integers(3))]
    loc, scale = gen.loc_scale(rng)
    order = rng.permutation(m)
    kw = {} if power is None else {"power": power}
    df = gen.frame(rng, {"x": (loc + scale * u)[order]}, (f * 10 ** rng.uniform(-4, 4))[order])
    b = ChainConsumer().add_chain(gen.chain(rng, samples=df, name="c", grid=True, statistics=stat, summary_area=area, **kw)).analysis.get_summary()["c"]["x"]
    lo, mid, hi = (np.array([b.lower, b.center, b.upper]) - loc) / scale
    g = f ** (power or 1.0)
    c = np.concatenate(([0.0], np.cumsum(0.5 * (g[1:] + g[:-1]))))
    c /= c[-1]
    step = 1 / (m - 1)
    what = dict(kind=kind, points=m, area=area, statistic=stat.value, power=power, bound=[lo, mid, hi])
    ctx.describe(**what)
    todo = [(lo, 0.5 - area / 2), (hi, 0.5 + area / 2)] + ([(mid, 0.5)] if stat is S.CUMULATIVE else [])
    for v, q in todo:
        slip = np.interp(v + 1.5 * step, u, c) - np.interp(v - 1.5 * step, u, c)
        ctx.check_that(abs(np.interp(v, u, c) - q) <= 0.002 + slip, "a quantile of a noise-free density is off", value=v, quantile=q, there=float(np.interp(v, u, c)), **what)
    if stat is S.MEAN:
        ctx.check_that(abs(mid - 0.5 * (lo + hi)) <= 1e-6, "the centre is not the midpoint", **what)
    if stat is S.MAX_CENTRAL:
        ctx.count("known peaks")
        ctx.check_that(abs(mid - u[int(np.argmax(g))]) <= 1.5 * step, "the MAX_CENTRAL centre is not the peak of a noise-free density", peak=float(u[int(np.argmax(g))]), **what)
    ctx.count("grids")
    ctx.distinct("grids", kind, m, power, stat, round(area, 3))


def hostile(ctx):
    summ.judge_hostile(ctx, [S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL])


CASES = {"grids": (grids, 250, 8000), "hostile": (hostile, 200, 6000), "atom": (atom, 40, 400), "lone": (lone, 40, 400), "quantiles": (case, 2000, 60000), "nested": (nested, 200, 5000), "tails": (tails, 250, 8000)}
REQUIRED = {"tight quantiles": 300, "nesting chains": 20, "far quantiles": 300, "judged cumulative": 40, "judged mean": 40, "judged max_central": 40, "hostile": 150, "grids": 150, "known peaks": 30}
