"""Results follow a change of units: pairs of executions on x and a*x+b."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from vlib import figs, gen, summ

ID = "C05"
TITLE = "equivariance under a change of units"
RULE = (
    "Each case transforms one parameter of a random chain by a*x+b (a of either sign with magnitude 1e-20..1e20, exact powers of two "
    "in a third of the cases; b up to 1e6 spreads) and compares all five statistics, covariances and correlations, and in plot cases "
    "every axis range, curve, shading and contour, mapped back. Distinct by statistic, shape, exponent of a, sign, offset class, settings."
)


def units(rng, x, extreme=True):
    kind = str(rng.choice(["pow2", "scale", "shift", "both", "flip"]))
    span = 20 if extreme else 6
    a, b = 1.0, 0.0
    if kind == "pow2":
        a = 2.0 ** int(rng.integers(-3 * span, 3 * span))
    elif kind in ("scale", "both", "flip"):
        a = float(10 ** rng.uniform(-span, span))
    if kind == "flip":
        a = -a
    if kind in ("shift", "both"):
        b = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 6 if extreme else 3) * np.std(x) * abs(a))
    return kind, a, b


def make(ctx, plot=False):
    rng = ctx.rng
    n = int(10 ** rng.uniform(3.3, 4.0 if plot else 4.3))
    kde = bool(rng.uniform() < 0.2)
    if kde:
        n = min(n, 3000)
    stat = list(S)[int(rng.integers(5))]
    multimodal = stat is S.HDI and rng.uniform() < 0.5
    shape0 = str(rng.choice(gen.SMOOTH_UNIMODAL + (["bimodal"] if multimodal else [])))
    # start from order one: the transformation brings the magnitudes
    x = gen.base_shape(rng, n, shape0)
    y = gen.base_shape(rng, n, "normal") + 0.6 * (x - x.mean()) / x.std()
    names = gen.names(rng, 2)
    wk, w = gen.weights(rng, n)
    kind, a, b = units(rng, x, extreme=not plot or rng.uniform() < 0.3)
    opts = dict(statistics=stat, summary_area=summ.area(rng), color="#104080", zorder=figs.zorder(0))
    if multimodal:
        opts["multimodal"] = True
    if kde:
        opts["kde"] = float(rng.choice([0.7, 1.0, 1.4]))
    if rng.uniform() < 0.3:
        opts["smooth"] = int(rng.choice([2, 4]))
    if rng.uniform() < 0.3:
        opts["bins"] = int(rng.integers(20, 50))
    if kde and plot:
        opts["bins"] = 8
    df1, df2 = pd.DataFrame({names[0]: x, names[1]: y}), pd.DataFrame({names[0]: a * x + b, names[1]: y})
    if w is not None:
        df1["weight"] = df2["weight"] = w
    ctx.describe(transformation=kind, a=a, b=b, n=n, shape=shape0, weights=wk, options={k: v for k, v in opts.items() if k not in ("color", "zorder")})
    ctx.distinct(stat, shape0, kind, int(np.log10(abs(a)) // 4), multimodal, kde, wk)
    ctx.count(f"units {kind}")
    if abs(np.log10(abs(a))) > 9:
        ctx.count("extreme units")
    return names, x, y, w, df1, df2, kind, a, b, opts


def tolerance(kind, stat):
    """In spreads of the parameter. Powers of two are exact; otherwise a few samples may fall in a neighbouring bin."""
    if kind == "pow2":
        return 1e-9
    return 0.03 if kind != "flip" else 0.12


def back(v, a, b):
    """Values of the transformed parameter in the original units."""
    return (np.asarray(v, float) - b) / a


def agree_bound(ctx, p, q, a, b, kind, stat, x, w, what, blur):
    """q (transformed) must be the image of p."""
    lo, mid, hi = (back(v, a, b) if v is not None else None for v in (q.lower, q.center, q.upper))
    if a < 0:
        lo, hi = hi, lo
    sd = summ.wstd(x, w)
    tol = tolerance(kind, stat) * sd
    f, peak, _, _ = summ.density(x, w, blur)
    if kind != "pow2" and stat is S.MAX and (p.lower is None or lo is None) and not (gen.neff(w, len(x)) * peak * 2.5 * blur > 2000 and 0.3 < what["area"] < 0.97):
        # the search gives up where a noise bump makes the mass jump past the target: decided by a few samples
        ctx.count("noisy unconstrained")
        return
    if not ctx.check_that((p.lower is None) == (lo is None) and (p.upper is None) == (hi is None), "an interval appears or disappears with the unit", original=p.array, transformed=q.array, **what):
        return
    ctx.count("bounds compared")
    edges = ("lower", "upper") if p.lower is not None else ()
    vals = dict(lower=lo, upper=hi)
    for e in edges:
        v0, v1 = getattr(p, e), float(vals[e])
        ok = abs(v0 - v1) <= tol
        if not ok and kind != "pow2" and stat in (S.MAX, S.HDI):
            # both are found by a search with a tolerance of its own: the masses beyond must still agree
            # (the position of a narrow interval on a flat top is the least certain)
            room = 1 - what["area"] if kind == "flip" else 0
            ok = abs(v0 - v1) <= (0.35 + 0.6 * room) * sd and abs(gen.mass_below(x, w, v0) - gen.mass_below(x, w, v1)) <= 0.05 + 0.2 * room
        ctx.check_that(ok, f"{e} value does not follow the unit", original=v0, mapped_back=v1, spread=sd, **what)
    v0, v1 = p.center, float(mid)
    ok = abs(v0 - v1) <= tol
    if not ok and kind != "pow2":
        # two near-equal tops of the same peak
        ok = abs(v0 - v1) <= (1.5 if kind == "flip" else 0.8) * sd and min(f(v0), f(v1)) >= (0.85 if kind == "flip" else 0.93) * max(f(v0), f(v1)) and stat in (S.MAX, S.MAX_CENTRAL) or (
            stat is S.HDI and abs(v0 - v1) <= (0.35 + (0.6 * (1 - what["area"]) if kind == "flip" else 0)) * sd)
    ctx.check_that(ok, "centre does not follow the unit", original=v0, mapped_back=v1, spread=sd, **what)


def numbers(ctx):
    names, x, y, w, df1, df2, kind, a, b, opts = make(ctx)
    stat = opts["statistics"]
    cc1, cc2 = (ChainConsumer().add_chain(gen.chain(ctx.rng, samples=d, name="c", **opts)) for d in (df1, df2))
    s1, s2 = cc1.analysis.get_summary()["c"], cc2.analysis.get_summary()["c"]
    n = len(x)
    for c, data, aa, bb, k in ((names[0], x, a, b, kind), (names[1], y, 1.0, 0.0, "pow2")):
        blur = summ.resolution(data, w, bins=opts.get("bins"), smooth=opts.get("smooth"), kde=opts.get("kde", False), n=n, ncols=3)
        p, q = s1[c], s2[c]
        what = dict(column="transformed" if c == names[0] else "other", statistic=stat.value, transformation=kind, factor=aa, offset=bb, area=opts["summary_area"])
        if isinstance(p, list) or isinstance(q, list):
            np_, nq = (len(v) if isinstance(v, list) else 1 for v in (p, q))
            if np_ != nq and k != "pow2":
                # a noise bump at the threshold splits a band or not: both must still hold the same mass
                mp = sum(gen.mass_in(data, w, v.lower, v.upper) for v in (p if isinstance(p, list) else [p]))
                mq = sum(gen.mass_in(data, w, *sorted(back([v.lower, v.upper], aa, bb))) for v in (q if isinstance(q, list) else [q]))
                ctx.check_that(abs(mp - mq) <= 0.04, "the bands change with the unit", original=repr(p), transformed=repr(q), masses=[mp, mq], **what)
                ctx.count("noisy bands")
                continue
            if not ctx.check_that(isinstance(p, list) and isinstance(q, list) and len(p) == len(q), "the number of bands changes with the unit", original=repr(p), transformed=repr(q), **what):
                continue
            if aa < 0:
                q = q[::-1]
            for u, v in zip(p, q):
                agree_bound(ctx, u, v, aa, bb, k, stat, data, w, what, blur)
            ctx.count("multi-band comparisons")
        else:
            agree_bound(ctx, p, q, aa, bb, k, stat, data, w, what, blur)
    m1, m2 = cc1.get_chain("c").get_covariance(names).matrix, cc2.get_chain("c").get_covariance(names).matrix
    f = np.array([a, 1.0])
    # rounding of a*x+b, relative to the spread
    eps = 1e-9 + 1e-15 * (abs(b) / (abs(a) * x.std())) * 100
    d = np.sqrt(np.outer(np.diag(m1), np.diag(m1)))
    ctx.check_that(np.all(np.abs(m2 / np.outer(f, f) - m1) <= eps * d), "covariance does not follow the unit", a=m1, b=m2, factor=a)
    r1, r2 = cc1.get_chain("c").get_correlation(names).matrix, cc2.get_chain("c").get_correlation(names).matrix
    ctx.check_that(np.all(np.abs(r2 * np.outer(np.sign(f), np.sign(f)) - r1) <= eps), "correlation changes with the unit", a=r1, b=r2, factor=a)
    ctx.count("pairs of analyses")


def plots(ctx):
    names, x, y, w, df1, df2, kind, a, b, opts = make(ctx, plot=True)
    stat = opts["statistics"]
    pts = np.column_stack([x, y])
    img = np.column_stack([df2[names[0]], y])
    flip = bool(ctx.rng.uniform() < 0.3)
    from chainconsumer import PlotConfig

    obs = []
    for df, p in ((df1, pts), (df2, img)):
        cc = ChainConsumer().add_chain(gen.chain(ctx.rng, drawn=True, samples=df, name="c", bar_shade=True, **opts)).set_plot_config(PlotConfig(flip=flip))
        pan = figs.panels(cc.plotter.plot(columns=names))
        obs.append((pan, [figs.filled_regions(cs, p) for cs in figs.contours(pan[(1, 0)], filled=True)]))
    (p1, r1), (p2, r2) = obs
    sd, ww = x.std(), np.ones(len(x)) if w is None else w
    rng_x = x.max() - x.min()
    tol = {"pow2": 1e-6, "flip": 0.01}.get(kind, 0.004) * rng_x
    for key in ((0, 0), (1, 0)):
        l1, l2 = p1[key].get_xlim(), sorted(back(p2[key].get_xlim(), a, b))
        ok = np.abs(np.array(l1) - l2) <= tol
        if kind == "flip":
            # the two ends are cut a sample apart: the mass between the two answers is that of a few samples
            few = 4 * np.max(ww) / np.sum(ww) + 3e-4
            ok = ok | (np.abs([gen.mass_below(x, ww, u) - gen.mass_below(x, ww, v) for u, v in zip(l1, l2)]) <= few)
        ctx.check_that(np.all(ok), "axis range does not follow the unit", a=l1, mapped_back=l2, factor=a, offset=b)
        ctx.count("axis ranges")
    ctx.check_that(np.allclose(p1[(1, 0)].get_ylim(), p2[(1, 0)].get_ylim(), rtol=0, atol=1e-12), "range of another parameter changes")
    c1, c2 = figs.curves(p1[(0, 0)]), figs.curves(p2[(0, 0)])
    if ctx.check_that(len(c1) == 1 and len(c2) == 1, "expected one curve", n=[len(c1), len(c2)]):
        at = np.linspace(c1[0]["x"].min(), c1[0]["x"].max(), 400)[5:-5]
        h1 = figs.evaluate(c1[0], at)
        xx, yy = back(c2[0]["x"], a, b), c2[0]["y"] * abs(a)
        o = np.argsort(xx)
        h2 = np.interp(at, xx[o], yy[o])
        # 'flip' bins the data from the other end: sampling noise of a bin, smoothed
        lim = {"pow2": 1e-6, "flip": 0.4}.get(kind, 0.03)
        ctx.check_that(np.max(np.abs(h1 - h2)) <= lim * h1.max(), "drawn marginal does not follow the unit", worst=float(np.max(np.abs(h1 - h2)) / h1.max()), factor=a, offset=b, transformation=kind)
        l1 = float(np.mean(np.abs(h1 - h2)) * (at[-1] - at[0]))
        ctx.check_that(l1 <= {"pow2": 1e-6, "flip": 0.3}.get(kind, 0.02), "drawn marginal does not follow the unit (total)", total=l1, factor=a, offset=b, transformation=kind)
        ctx.count("curves")
    s1 = sorted((f["x"].min(), f["x"].max()) for f in figs.fills(p1[(0, 0)]))
    s2 = sorted(tuple(sorted(back([f["x"].min(), f["x"].max()], a, b))) for f in figs.fills(p2[(0, 0)]))
    if kind == "flip" and len(s1) != len(s2):
        ctx.count("noisy shading")  # as for the summaries, judged there
    elif ctx.check_that(len(s1) == len(s2), "shading appears or disappears with the unit", a=s1, b=s2, factor=a):
        for u, v in zip(s1, s2):
            lim = {"pow2": 1e-6, "flip": 0.35}.get(kind, 0.2) * sd
            ctx.check_that(np.all(np.abs(np.array(u) - v) <= lim), "shading does not follow the unit", a=u, b=v, spread=sd, factor=a)
    if ctx.check_that(len(r1) == len(r2) == 1 and len(r1[0]) == len(r2[0]) > 0, "different numbers of contours"):
        for u, v in zip(r1[0], r2[0]):
            diff = float(np.sum(ww[u != v]) / np.sum(ww))
            lim = {"pow2": 0.003, "flip": 0.05}.get(kind, 0.02)
            ctx.check_that(diff <= lim, "contours do not follow the unit", differing=diff, factor=a, offset=b, transformation=kind)
            ctx.count("contours")
    # nothing about the other parameter's marginal changes
    d1, d2 = figs.curves(p1[(1, 1)]), figs.curves(p2[(1, 1)])
    ctx.check_that(len(d1) == len(d2) == 1 and np.allclose(d1[0]["x"], d2[0]["x"]) and np.allclose(d1[0]["y"], d2[0]["y"]), "the other parameter's marginal changes")
    ctx.count("pairs of figures")


CASES = {"numbers": (numbers, 800, 20000), "plots": (plots, 120, 2400)}
REQUIRED = {"pairs of analyses": 300, "pairs of figures": 40, "contours": 60, "curves": 40, "extreme units": 50, **{f"units {k}": 20 for k in ("pow2", "scale", "shift", "both", "flip")}}
