"""Settings observed on the drawn artists and in summaries, against a reference resolution: override, user, automatic."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.color_finder import colors
from chainconsumer.statistics import SummaryStatistic as S

from vlib import figs, gen

ID = "C08"
TITLE = "resolution of settings"
RULE = (
    "Each case is 1-7 chains (contour, cloud, point), each with a random subset of 15 settings, and an override with another random subset (often none). The drawn colour, line style, "
    "width, opacity, levels, shading and the summaries are compared with a reference resolution, and the whole figure and all summaries with those of a consumer whose chains "
    "carry the resolved settings explicitly. Distinct by which source wins for which field, and the number of chains. One kind adds up to 100 chains and looks at the automatic colours."
)
AUTO = ["bar_shade", "sigmas", "shade", "shade_alpha", "color"]


def options(rng, p):
    pool = dict(
        linestyle=lambda: str(rng.choice(["--", ":", "-."])), linewidth=lambda: float(rng.choice([0.5, 2.5, 4.0])), shade=lambda: bool(rng.uniform() < 0.5),
        shade_alpha=lambda: float(rng.uniform(0.05, 0.95)), bar_shade=lambda: bool(rng.uniform() < 0.5), sigmas=lambda: [[0, 1], [0, 1, 2, 3], [0, 2], [0, 0.5, 1.5]][int(rng.integers(4))],
        color=lambda: [f"#{int(rng.integers(0, 0xffffff)):06x}", "red", "k", None][int(rng.choice(4, p=[0.5, 0.2, 0.2, 0.1]))], summary_area=lambda: float(rng.uniform(0.4, 0.95)),
        statistics=lambda: [S.MAX, S.CUMULATIVE, S.MEAN, S.MAX_CENTRAL, S.HDI][int(rng.integers(5))],
        bins=lambda: int(rng.integers(8, 30)), smooth=lambda: int(rng.choice([0, 1, 2])), shade_gradient=lambda: float(rng.uniform(0.2, 1.5)),
        marker_style=lambda: str(rng.choice(["x", "o", "^"])), marker_size=lambda: float(rng.choice([5, 50])), num_cloud=lambda: int(rng.choice([50, 100000])),
    )
    return {k: f() for k, f in pool.items() if rng.uniform() < p}


def reference(chains, override):
    """The documented rules, chain by chain."""
    nc = sum(c.get("plot_contour", True) for c in chains)
    seq = colors.next_colour()
    out = []
    for c in chains:
        auto = dict(bar_shade=nc < 5, shade=nc < 5, sigmas=[0, 1, 2], shade_alpha=1 / np.sqrt(nc))
        if c.get("show_contour_labels"):
            auto["shade_alpha"] *= 0.5
        if c.get("color") is None:
            auto["color"] = next(seq)
        user = {k: v for k, v in c.items() if not (k == "color" and v is None)}
        r = {**auto, **user, **(override or {})}
        if "statistics" not in r:
            r["statistics"] = S.MAX
        out.append(r)
    return out


def case(ctx):
    rng = ctx.rng
    nch = int(rng.choice([1, 1, 2, 3, 4, 5, 6, 7]))
    n = 400
    chains = []
    called = gen.chain_names(rng, nch)
    for i in range(nch):
        df = pd.DataFrame({"x": rng.normal(size=n) + 0.3 * i, "y": rng.normal(size=n)})
        if rng.uniform() < 0.5:
            df["weight"] = rng.uniform(0.5, 1, size=n)
        df["log_posterior"] = -0.5 * (df.x**2 + df.y**2)
        c = dict(samples=df, name=called[i], zorder=figs.zorder(i), **options(rng, 0.3))
        if rng.uniform() < 0.25 and i > 0:
            c["plot_contour"] = False
            c[str(rng.choice(["plot_cloud", "plot_point"]))] = True
        else:
            c.update({k: True for k in ("plot_point", "plot_cloud") if rng.uniform() < 0.2})
        if rng.uniform() < 0.2:
            c["show_contour_labels"] = True
        chains.append(c)
    override = options(rng, 0.25) if rng.uniform() < 0.6 else None
    if override is not None and override.get("color", "") is None:
        del override["color"]
    ref = reference(chains, override)
    ctx.describe(chains=[{k: v for k, v in c.items() if k != "samples"} for c in chains], override=override)
    ctx.distinct(nch, tuple(tuple(sorted(set(c) - {"samples"})) for c in chains), tuple(sorted(override or {})))

    cc = ChainConsumer()
    for c in chains:
        cc.add_chain(Chain(**c))
    if override is not None:
        if rng.uniform() < 0.3:
            cc.set_override(ChainConfig(linewidth=9.0, summary_area=0.1))  # replaced as a whole
        cc.set_override(ChainConfig(**override))
    before = [cc.get_chain(c["name"]).model_dump(exclude={"samples"}) for c in chains]
    fig = cc.plotter.plot()
    pan = figs.panels(fig)
    summ = cc.analysis.get_summary()
    ctx.check_that([cc.get_chain(c["name"]).model_dump(exclude={"samples"}) for c in chains] == before, "the chains given by the user lost their settings")

    for i, r in enumerate(ref):
        what = dict(chain=i, user={k: v for k, v in chains[i].items() if k != "samples"}, override=override, resolved={k: v for k, v in r.items() if k not in ("samples", "zorder")})
        contour = r.get("plot_contour", True)
        colour = figs.hexcol(colors.format(r["color"]))
        mine = [c for c in figs.curves(pan[(0, 0)]) if figs.owner(c["z"], nch) == i]
        fills = [f for f in figs.fills(pan[(0, 0)]) if figs.owner(f["z"], nch) == i]
        lines = [c for c in figs.contours(pan[(1, 0)], filled=False) if figs.owner(c.get_zorder(), nch) == i]
        filled = [c for c in figs.contours(pan[(1, 0)], filled=True) if figs.owner(c.get_zorder(), nch) == i]
        pts = [s for s in figs.scatters(pan[(1, 0)]) if figs.owner(s.get_zorder(), nch) == i]
        if contour:
            if ctx.check_that(len(mine) == 1 and len(lines) == 1, "expected one marginal and one contour set", n=[len(mine), len(lines)], **what):
                c = mine[0]
                ls = figs.linestyle(c["ls"])
                ctx.check_that(c["color"] == colour, "marginal in the wrong colour", got=c["color"], want=colour, **what)
                ctx.check_that(ls == r.get("linestyle", "-"), "wrong line style", got=ls, **what)
                ctx.check_that(c["lw"] == r.get("linewidth", 1.0), "wrong line width", got=c["lw"], **what)
                ctx.check_that(float(np.ravel(lines[0].get_linewidths())[0]) == r.get("linewidth", 1.0), "wrong contour line width", **what)
                ctx.check_that(figs.linestyle(lines[0].get_linestyle()[0]) == r.get("linestyle", "-"), "wrong contour line style", got=lines[0].get_linestyle()[0], **what)
                ctx.check_that(len(lines[0].levels) == len(r["sigmas"]), "wrong number of contour levels", got=list(lines[0].levels), **what)
                ctx.count("chains with contours")
                smoothed = r.get("smooth", 3) != 0
                ctx.check_that((c["kind"] == "line") == smoothed, "smoothing not as set", **what)
            want_fill = r["shade"] and r["shade_alpha"] > 0
            ctx.check_that(bool(filled) == want_fill, "filled contours are not as set", got=bool(filled), **what)
            if filled and want_fill:
                got = float(filled[0].get_alpha())
                ctx.check_that(abs(got - r["shade_alpha"]) < 1e-12, "wrong fill opacity", got=got, **what)
                ctx.count("opacities")
            has = summ[called[i]]["x"].lower is not None
            ctx.check_that(bool(fills) == (r["bar_shade"] and has), "shaded marginal is not as set", got=bool(fills), **what)
            if fills:
                ctx.check_that(fills[0]["color"] == colour, "shading in the wrong colour", **what)
        else:
            ctx.check_that(not mine and not lines and not filled, "contours drawn for a chain without them", **what)
        if r.get("plot_point"):
            if ctx.check_that(len(pts) >= 1, "point not drawn", **what):
                p = [s for s in pts if len(s.get_offsets()) == 1]
                ctx.check_that(len(p) == 1 and p[0].get_sizes()[0] == r.get("marker_size", 10.0), "marker size is not as set", **what)
                ctx.count("points")
        if r.get("plot_cloud"):
            p = [s for s in pts if len(s.get_offsets()) > 1]
            ctx.check_that(len(p) == 1 and figs.hexcol(p[0].get_facecolor()[0]) == colour and (len(p[0].get_offsets()) == n) == (r.get("num_cloud", 10000) > n / 2), "cloud is not as set", **what)
            ctx.count("clouds")
        if override:
            ctx.count("overridden fields", len(set(override) & set(chains[i])))
    # the same, with everything spelled out
    cc2 = ChainConsumer()
    for r in ref:
        cc2.add_chain(Chain(**r))
    s2 = cc2.analysis.get_summary()
    ctx.check_that(repr(summ) == repr(s2), "summaries differ from those with the resolved settings spelled out", got=repr(summ)[:300], want=repr(s2)[:300], override=override)
    diff = figs.differences(figs.fingerprint(fig), figs.fingerprint(cc2.plotter.plot()))
    ctx.check_that(not diff, "the figure differs from the one with the resolved settings spelled out", difference=diff, override=override)
    ctx.count("figures compared")


def many(ctx):
    """Automatic colours of many chains, in order, whatever is selected."""
    rng = ctx.rng
    nch = int(rng.choice([12, 40, 88, 88, 100]))
    own = {i: f"#{int(rng.integers(0, 0xffffff)):06x}" for i in range(nch) if rng.uniform() < (0.0 if nch >= 88 else 0.2)}
    cc = ChainConsumer()
    for i in range(nch):
        kw = {"color": own[i]} if i in own else {}
        cc.add_chain(Chain(samples=pd.DataFrame({"x": np.arange(4.0 + i)}), name=f"c{i}", **kw))
    fig = cc.plotter.plot_walks(plot_weights=False)
    by_len = {len(s.get_offsets()): figs.hexcol(s.get_facecolor()[0]) for s in figs.scatters(fig.axes[0])}
    got = [by_len.get(4 + i) for i in range(nch)]
    ctx.describe(chains=nch, own_colours=len(own))
    ctx.distinct("many", nch, len(own))
    ctx.check_that(all(g is not None for g in got), "a chain is not drawn")
    ctx.check_that(all(got[i] == own[i] for i in own), "a chain lost its own colour")
    auto = [got[i] for i in range(nch) if i not in own]
    ctx.check_that(len(set(auto)) >= min(88, len(auto)), "two chains share an automatic colour", chains=nch)
    seq = colors.next_colour()
    ctx.check_that(auto == [figs.hexcol(colors.format(next(seq))) for _ in auto], "automatic colours are not in chain order")
    ctx.count("automatic colours", len(auto))


CASES = {"resolution": (case, 160, 4000), "many": (many, 8, 60)}
REQUIRED = {"figures compared": 100, "chains with contours": 200, "opacities": 60, "points": 20, "clouds": 10, "overridden fields": 50, "automatic colours": 150}
BATCH = 2
