"""Results depend only on the weighted sample distribution: pairs of executions on equivalent chains."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.statistics import SummaryStatistic as S

from vlib import figs, gen, summ

ID = "C04"
TITLE = "invariance under re-representation of the sample"
RULE = (
    "Each case makes two consumers holding the same weighted sample in different guises (weights times a power of two or an "
    "arbitrary factor of 1e-20..1e20; rows permuted; index relabelled; DataFrame columns reordered; integer weights as "
    "repeated rows; integer weights in types of one to eight bytes; several of them at once) and compares every summary, matrix, criterion, maximum posterior, and in plot cases "
    "every axis limit, curve and contour. A few chains have some million rows in sorted or trending order, against the same shuffled. Distinct by guise, statistic, shapes, weights, settings."
)
GUISES = ["scale2", "scale", "permute", "relabel", "columns", "repeat", "types", "all"]


def transform(rng, df, guise, w_unit):
    """An equivalent frame. df always carries a weight column here."""
    out = df.copy()
    if guise in ("scale2", "all"):
        out["weight"] = out["weight"] * 2.0 ** float(rng.integers(-60, 60))
    if guise == "scale":
        out["weight"] = out["weight"] * float(10 ** rng.uniform(-20, 20))
    if guise in ("permute", "all"):
        out = out.iloc[rng.permutation(len(out))]
    if guise in ("relabel", "all"):
        out.index = gen.index(rng, len(out))[1]
    if guise in ("columns", "all"):
        out = out[list(rng.permutation(list(out.columns)))]
    if guise == "types":
        out["weight"] = out["weight"].to_numpy().astype(str(rng.choice(["int8", "uint8", "int16", "int32", "int64", "float32"])))
    if guise == "repeat":
        out = out.loc[np.repeat(np.arange(len(out)), out["weight"].to_numpy().astype(int))].copy()
        out["weight"] = 1.0
        if rng.uniform() < 0.5:
            out = out.drop(columns="weight")
    return out


def flat(b):
    return np.concatenate([x.array for x in b]) if isinstance(b, list) else b.array


def close(a, b, scale, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and np.all((np.abs(a - b) <= tol * scale) | np.isnan(a))


def make(ctx, plot=False):
    rng = ctx.rng
    guise = str(rng.choice(GUISES))
    stat = list(S)[int(rng.integers(5))]
    n = int(10 ** rng.uniform(2.9, 4.0 if plot else 4.3))
    k = 2 if plot else int(rng.integers(1, 4))
    shapes = [str(rng.choice(gen.SMOOTH_UNIMODAL + gen.CUT + gen.MULTI)) for _ in range(k)]
    cols = {nm: gen.shape(rng, n, s) for nm, s in zip(gen.names(rng, k), shapes)}
    n = min(len(v) for v in cols.values())
    cols = {a: v[:n] for a, v in cols.items()}
    wk, w = gen.weights(rng, n, "integer" if guise in ("repeat", "types") else str(rng.choice(["uniform", "exponential", "mixed", "integer"])))
    logp = -0.5 * sum(((v - v.mean()) / v.std()) ** 2 for v in cols.values()) + rng.normal(size=n) * 1e-3
    if rng.uniform() < 0.3:
        logp = float(rng.choice([0.0, -37.5])) + logp * 10 ** float(rng.choice([-8, -6, 4]))
    df = pd.DataFrame({**cols, "weight": w, "log_posterior": logp})
    bins = None if rng.uniform() < 0.6 else int(rng.integers(20, 60))
    smooth = None if rng.uniform() < 0.7 else int(rng.choice([1, 2, 4]))
    kde = bool(rng.uniform() < 0.15) and guise != "repeat" and n < 5000
    if kde and plot:
        bins = 8  # a KDE contour is evaluated on a grid of (12 bins)^2 points
    opts = dict(summary_area=summ.area(rng))
    if bins:
        opts["bins"] = bins
    if smooth is not None:
        opts["smooth"] = smooth
    if kde:
        opts["kde"] = float(rng.choice([0.7, 1.0, 1.4]))
    if stat is S.HDI and rng.uniform() < 0.5:
        opts["multimodal"] = True
    opts["statistics"] = stat
    df2 = transform(rng, df, guise, wk)
    ctx.describe(guise=guise, n=n, shapes=shapes, weights=wk, options=opts)
    ctx.distinct(guise, stat, tuple(shapes), wk, bins, smooth, kde)
    ctx.count(f"guise {guise}")
    return guise, cols, df, df2, opts


def both(ctx, df, df2, opts, extra=None):
    out = []
    other = pd.DataFrame({c: np.linspace(0, 1, 50) for c in ["x"]}).assign(log_posterior=-np.linspace(0, 3, 50) ** 2 - 5, weight=1.0)
    for d in (df, df2):
        cc = ChainConsumer()
        cc.add_chain(gen.chain(ctx.rng, drawn=True, samples=d, name="c", num_free_params=3, num_eff_data_points=50, zorder=figs.zorder(0), color="#104080", **opts))
        if extra is None:
            cc.add_chain(Chain(samples=other, name="ref", num_free_params=2, num_eff_data_points=50, color="#802010"))
        out.append(cc)
    return out


def numbers(ctx):
    guise, cols, df, df2, opts = make(ctx)
    a, b = both(ctx, df, df2, opts)
    ca, cb = a.get_chain("c"), b.get_chain("c")
    sa, sb = a.analysis.get_summary()["c"], b.analysis.get_summary()["c"]
    rep = guise == "repeat"
    ctx.check_that({c for c in cols} <= set(sb) and set(sa) == set(sb), "the two guises have different parameters", a=sorted(sa), b=sorted(sb))
    for c, x in cols.items():
        rngx = x.max() - x.min()
        # the bins are a quarter-percent of the range at most; equal up to the rounding of sums
        ctx.check_that(close(flat(sa[c]), flat(sb[c]), rngx, 1e-6), f"summary differs ({guise})", column=c, a=flat(sa[c]), b=flat(sb[c]), options=opts)
    names = list(cols)
    ma, mb = ca.get_covariance(names).matrix, cb.get_covariance(names).matrix
    if rep:
        W, W2 = df["weight"].sum(), (df["weight"] ** 2).sum()
        ma, mb = ma * (W - W2 / W), mb * (len(df2) - 1)
    ctx.check_that(np.allclose(ma, mb, rtol=1e-7, atol=1e-9 * np.sqrt(np.outer(np.diag(ma), np.diag(ma)).max() * 0 + 1) * np.min(np.diag(ma))), f"covariance differs ({guise})", a=ma, b=mb)
    ra, rb = ca.get_correlation(names).matrix, cb.get_correlation(names).matrix
    ctx.check_that(np.allclose(ra, rb, atol=1e-8), f"correlation differs ({guise})", a=ra, b=rb)
    for crit in ("aic", "bic", "dic"):
        va, vb = getattr(a.comparison, crit)(), getattr(b.comparison, crit)()
        ctx.check_that(set(va) == set(vb) and all(np.isclose(va[k], vb[k], rtol=1e-7, atol=1e-6) for k in va), f"{crit} differs ({guise})", a=va, b=vb)
    pa, pb = ca.get_max_posterior_point(), cb.get_max_posterior_point()
    ctx.check_that(pa.coordinate == pb.coordinate and pa.log_posterior == pb.log_posterior, f"maximum posterior differs ({guise})", a=pa.coordinate, b=pb.coordinate)
    ctx.count("pairs of analyses")


def plots(ctx):
    guise, cols, df, df2, opts = make(ctx, plot=True)
    opts = {**opts, "plot_point": True, "bar_shade": True}
    a, b = both(ctx, df, df2, opts, extra=False)
    names = list(cols)
    pts = df[names].to_numpy()
    seen = []
    for cc in (a, b):
        fig = cc.plotter.plot(columns=names)
        pan = figs.panels(fig)
        obs = {}
        for key, ax in pan.items():
            if key[0] < key[1]:
                continue
            obs[key] = dict(
                xlim=ax.get_xlim(), ylim=ax.get_ylim(), curves=figs.curves(ax), fills=figs.fills(ax),
                regions=[r for cs in figs.contours(ax, filled=True) for r in figs.filled_regions(cs, pts)],
                points=[np.asarray(s.get_offsets()) for s in figs.scatters(ax)], title=ax.get_title(),
            )
        seen.append(obs)
    oa, ob = seen
    ctx.check_that(set(oa) == set(ob), "different panels")
    w = df["weight"].to_numpy()
    for key in oa:
        p, q = oa[key], ob[key]
        sx = p["xlim"][1] - p["xlim"][0]
        sy = p["ylim"][1] - p["ylim"][0]
        ctx.check_that(close(p["xlim"], q["xlim"], sx, 1e-6) and close(p["ylim"], q["ylim"], sy, 1e-6), f"axis range differs ({guise})", panel=key, a=[p["xlim"], p["ylim"]], b=[q["xlim"], q["ylim"]])
        ctx.check_that(len(p["curves"]) == len(q["curves"]) and all(close(c["x"], d["x"], sx, 1e-6) and close(c["y"], d["y"], sy, 1e-6) for c, d in zip(p["curves"], q["curves"])), f"drawn marginal differs ({guise})", panel=key)
        ctx.check_that(len(p["fills"]) == len(q["fills"]) and all(close([c["x"].min(), c["x"].max()], [d["x"].min(), d["x"].max()], sx, 1e-6) for c, d in zip(p["fills"], q["fills"])), f"shading differs ({guise})", panel=key)
        ctx.check_that(p["title"] == q["title"], f"title differs ({guise})", a=p["title"], b=q["title"])
        same = len(p["regions"]) == len(q["regions"]) and all(np.sum(w[r != s]) <= 0.004 * w.sum() for r, s in zip(p["regions"], q["regions"]))
        ctx.check_that(same, f"contours differ ({guise})", panel=key, differing=[float(np.sum(w[r != s]) / w.sum()) for r, s in zip(p["regions"], q["regions"])])
        ctx.check_that(len(p["points"]) == len(q["points"]) and all(np.array_equal(s, t) for s, t in zip(p["points"], q["points"])), f"points differ ({guise})", panel=key)
        ctx.count("contour regions", len(p["regions"]))
        ctx.count("curves", len(p["curves"]))
    ctx.count("pairs of figures")


def large(ctx):
    """A very long chain whose rows are sorted or trend, against the same rows shuffled: none may be left out."""
    rng = ctx.rng
    n = int(10 ** rng.uniform(5.5, 6.4))
    x = gen.base_shape(rng, n, str(rng.choice(["normal", "gamma", "skew", "bimodal"])))
    x = np.sort(x) if rng.uniform() < 0.5 else x + np.linspace(0, rng.uniform(2, 4), n)
    y = 0.5 * x + rng.normal(size=n)
    loc, scale = gen.loc_scale(rng)
    w = np.linspace(0.2, 1, n) if rng.uniform() < 0.5 else np.ones(n)
    df = pd.DataFrame({"x": loc + scale * x, "y": y, "weight": w, "log_posterior": -0.5 * (x - x.mean()) ** 2})
    df2 = df.iloc[rng.permutation(n)].reset_index(drop=True)
    stat = list(S)[int(rng.integers(5))]
    opts = dict(statistics=stat, plot_point=True)
    ctx.describe(rows=n, statistic=stat.value)
    a, b = both(ctx, df, df2, opts, extra=False)
    sa, sb = a.analysis.get_summary()["c"], b.analysis.get_summary()["c"]
    for c in ("x", "y"):
        ctx.check_that(close(flat(sa[c]), flat(sb[c]), np.ptp(df[c]), 1e-6), "the summary of a long chain depends on the order of its rows", column=c, a=flat(sa[c]), b=flat(sb[c]))
    ctx.check_that(np.allclose(a.get_chain("c").get_correlation().matrix, b.get_chain("c").get_correlation().matrix, atol=1e-7), "the correlation of a long chain depends on the order of its rows")
    ctx.check_that(np.isclose(a.comparison.dic()["c"], b.comparison.dic()["c"], atol=1e-6), "the DIC of a long chain depends on the order of its rows")
    pts = df[["x", "y"]].to_numpy()[:: n // 20000]
    seen = []
    for cc in (a, b):
        pan = figs.panels(cc.plotter.plot(columns=["x", "y"]))
        ax = pan[1, 0]
        seen.append((ax.get_xlim(), ax.get_ylim(), [r for cs in figs.contours(ax, filled=True) for r in figs.filled_regions(cs, pts)], figs.curves(pan[0, 0])[0]))
    p, q = seen
    sx, sy = np.ptp(p[0]), np.ptp(p[1])
    ctx.check_that(close(p[0], q[0], sx, 1e-6) and close(p[1], q[1], sy, 1e-6), "the axes of a long chain depend on the order of its rows", a=p[:2], b=q[:2])
    ctx.check_that(len(p[2]) == len(q[2]) and all(np.mean(r != t) <= 0.002 for r, t in zip(p[2], q[2])), "the contours of a long chain depend on the order of its rows")
    ctx.check_that(close(p[3]["y"], q[3]["y"], np.max(p[3]["y"]), 1e-6), "the marginal of a long chain depends on the order of its rows")
    ctx.count("long chains")
    ctx.distinct("large", n, stat)


CASES = {"large": (large, 8, 80), "numbers": (numbers, 1000, 25000), "plots": (plots, 120, 2400)}
REQUIRED = {"long chains": 3, "pairs of analyses": 300, "pairs of figures": 40, "contour regions": 60, "curves": 60, **{f"guise {g}": 20 for g in GUISES}}
