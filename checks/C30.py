"""Colours: what every way of naming one resolves to, in the helper, in chains and in figures; scaling; the sequence."""
import itertools

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig
from chainconsumer.color_finder import colors
from chainconsumer.plotting import plot_contour, plot_dist
from matplotlib.colors import to_hex, to_rgba

from vlib import figs, gen

ID = "C30"
TITLE = "colours"
RULE = (
    "Every palette name and alias, and per case a batch of random hex codes (3, 4, 6 and 8 digits, either case), RGB(A) arrays and lists, and things that are no colour, go through the colour helper, chains, chain overrides and drawn figures; matplotlib and a copy of the published palette are the reference. "
    "Random colours are scaled by increasing factors. Distinct by the inputs of the batch."
)
PRELOAD = ["matplotlib.pyplot"]

# The published palette (Tailwind 2): the 500 shade of every name
SHADE_500 = dict(
    rose="#f43f5e", pink="#ec4899", fuchsia="#d946ef", purple="#a855f7", violet="#8b5cf6", indigo="#6366f1", blue="#3b82f6",
    sky="#0ea5e9", cyan="#06b6d4", teal="#14b8a6", emerald="#10b981", green="#22c55e", lime="#84cc16", yellow="#eab308",
    amber="#f59e0b", orange="#f97316", red="#ef4444", warmGray="#78716c", trueGray="#737373", gray="#71717a",
    coolGray="#6b7280", blueGray="#64748b",
)
ALIASES = dict(
    b="blue", r="red", g="green", m="rose", c="cyan", o="orange", y="yellow", a="amber", p="purple", e="gray", lg="lime", lb="sky"
)
ENDS = dict(k="#18181b", black="#18181b", f="#f4f4f5", white="#f4f4f5")  # the darkest and the lightest gray
REFERENCE = {**SHADE_500, **{a: SHADE_500[n] for a, n in ALIASES.items()}, **ENDS}
DF = pd.DataFrame({"x": np.linspace(-1, 1, 12) ** 3, "y": np.cos(np.arange(12.0))})


def rgb(c) -> np.ndarray:
    return np.round(np.array(to_rgba(c)[:3]) * 255).astype(int)


def is_hex(c) -> bool:
    return isinstance(c, str) and c.startswith("#") and len(c) in (4, 5, 7, 9) and all(d in "0123456789abcdefABCDEF" for d in c[1:])


def random_code(rng) -> str:
    code = "#" + "".join(rng.choice(list("0123456789abcdef"), size=int(rng.choice([3, 4, 6, 6, 6, 8]))))
    return code.upper() if rng.uniform() < 0.3 else code


def resolved(ctx, value, how: str):
    """The colour that comes back, through one of the ways in."""
    if how == "helper":
        return colors.format(value)
    if how == "list":
        return colors.get_formatted([value, "#000000", value])[2]
    if how == "chain":
        return Chain(samples=DF, name="c", color=value).color
    if how == "override":
        return ChainConfig(color=value).color
    if how == "resolved":
        c = ChainConsumer().add_chain(Chain(samples=DF, name="c")).set_override(ChainConfig(color=value))
        return c._get_final_chains()["c"].color if hasattr(c, "_get_final_chains") else ChainConfig(color=value).color
    raise KeyError(how)


WAYS = ["helper", "list", "chain", "override", "resolved"]


def names(ctx):
    """Every name and alias, every way in."""
    for (name, want), how in itertools.product(REFERENCE.items(), WAYS):
        got = resolved(ctx, name, how)
        ctx.check_that(is_hex(got) and np.array_equal(rgb(got), rgb(want)), "a name does not resolve to its colour", name=name, got=got, want=want, by=how)
        ctx.count("names resolved")
    seen = [c for c in itertools.islice(colors.next_colour(), 400)]
    ctx.check_that(len(seen) == 400 and all(is_hex(c) and len(c) == 7 for c in seen), "the sequence ends, or has an invalid colour", length=len(seen))
    ctx.check_that(len({to_hex(c) for c in seen[:88]}) == 88, "the sequence repeats a colour in its first 88", distinct=len(set(seen[:88])))
    ctx.check_that(list(itertools.islice(colors.next_colour(), 400)) == seen, "a second sequence differs from the first")
    d = colors.get_default()
    ctx.check_that(all(is_hex(c) for c in d) and len(set(d)) == len(d) >= 8, "the default colours are not distinct hex codes", got=d)
    ctx.check_that(is_hex(colors.format(None)), "no colour does not resolve to a colour")
    for cmap in ["viridis", "plasma", "inferno", "coolwarm", "tab10", "hot", "Greys"]:
        for num in [1, 2, 3, 5, 12, 40]:
            for scale in [0.7, 0.3, 1.0]:
                got = colors.get_colormap(num, cmap, scale=scale)
                ctx.check_that(len(got) == num and all(is_hex(c) and len(c) == 7 for c in got), "a colour map does not give that many colours", cmap=cmap, num=num, got=got[:4])
                ref = np.round(plt.get_cmap(cmap)(np.linspace(0.05, 0.9, num))[:, :3] * 255)
                vals = np.array([rgb(c) for c in got])
                ctx.check_that(np.all(vals <= ref + 1) and np.all(vals >= scale * ref - 2), "a colour of the map is not one of its own, darkened", cmap=cmap, num=num)
                ctx.count("colour maps")
    ctx.distinct("names")


NOT_COLOURS = [
    "java", "", "#", "#12", "#12345", "#1234567", "#123456789", "#ggg", "#12345g", "# 12345", "123456", "Red", "BLUE", "grey5", "rgb(1,0,0)",
    [0.1, 0.2], [0.1, 0.2, 0.3, 0.4, 0.5], [], [2.0, 0.1, 0.1], [0.1, -0.2, 0.3], [255.0, 0.0, 0.0], "q", "blueish", "#ff 00 0",
]


def codes(ctx):
    rng = ctx.rng
    batch = []
    for _ in range(6):
        r = rng.uniform()
        if r < 0.5:
            v = random_code(rng)
            batch.append((v, "code"))
        else:
            k = int(rng.choice([3, 4]))
            a = rng.choice([rng.uniform(size=k), rng.integers(0, 2, size=k).astype(float), rng.integers(0, 256, size=k) / 255])
            batch.append((a if rng.uniform() < 0.5 else [float(x) for x in a], "rgb"))
    ctx.describe(inputs=[v for v, _ in batch])
    for v, kind in batch:
        for how in WAYS:
            keep = np.array(v) if kind == "rgb" else v
            got = resolved(ctx, v, how)
            if not ctx.check_that(is_hex(got), "the result is not a hex code", given=v, got=got, by=how):
                continue
            if kind == "code":
                ctx.check_that(got.lower() == v.lower(), "a hex code was not kept", given=v, got=got, by=how)
            else:
                ctx.check_that(np.array_equal(rgb(got), np.round(np.asarray(v[:3]) * 255).astype(int)), "an array does not resolve to its colour", given=v, got=got, by=how)
                ctx.check_that(len(got) == 7, "an array does not resolve to an opaque colour", given=v, got=got, by=how)
                ctx.check_that(np.array_equal(keep, np.asarray(v)), "the caller's array was changed")
            ctx.count(f"{kind} resolved")
    bad = NOT_COLOURS[int(rng.integers(len(NOT_COLOURS)))]
    if rng.uniform() < 0.4:
        bad = "".join(rng.choice(list("abcdefghijklmnopqrstuvwxyz#0123456789"), size=int(rng.integers(3, 9))))
        if bad in REFERENCE or is_hex(bad):
            bad = "java"
    for how in WAYS:
        try:
            got = resolved(ctx, bad, how)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail("something that is no colour was accepted", given=bad, got=got, by=how)
    ctx.distinct("codes", repr(batch))


def scaling(ctx):
    rng = ctx.rng
    for _ in range(8):
        given = str(rng.choice(list(REFERENCE))) if rng.uniform() < 0.2 else random_code(rng) if rng.uniform() < 0.7 else rng.uniform(size=int(rng.choice([3, 4])))
        base = rgb(REFERENCE.get(given, given) if isinstance(given, str) else given)
        factors = np.sort(np.concatenate([[0.0, 1.0], rng.uniform(0, 1.2, size=6), np.exp(rng.uniform(-3, 3, size=4)), [300.0]]))
        last = np.full(3, -1)
        for f in factors:
            got = colors.scale_colour(given, float(f))
            if not ctx.check_that(is_hex(got) and len(got) == 7, "scaling does not give a hex code", given=given, factor=f, got=got):
                continue
            v = rgb(got)
            ctx.check_that(np.all(v >= last), "a larger factor gives a smaller channel", given=given, factor=f, got=got)
            last = v
            want = np.minimum(base * f, 255)
            ctx.check_that(np.all(np.abs(v - want) <= 1 + 1e-9), "a channel is not the given one times the factor, clamped", given=given, factor=f, got=v, want=want)
            if f == 1:
                ctx.check_that(np.array_equal(v, base), "a factor of one changes the colour", given=given, got=v, want=base)
            ctx.count("colours scaled")
    ctx.describe(last=given)
    ctx.distinct("scaling", ctx.seed)


def figures(ctx):
    """The same colour however it is given: everything that is drawn is drawn in it, or a shade of it."""
    rng = ctx.rng
    n = 900
    data = rng.normal(size=(n, 2))
    df = pd.DataFrame(data, columns=["x", "y"])
    df["log_posterior"] = -0.5 * (data**2).sum(axis=1)
    kind = str(rng.choice(["name", "code", "rgb"]))
    if kind == "name":
        given = str(rng.choice(list(REFERENCE)))
        want = REFERENCE[given]
    elif kind == "code":
        given = random_code(rng)
        want = given
    else:
        a = rng.uniform(size=int(rng.choice([3, 4])))
        given, want = (a if rng.uniform() < 0.5 else a.tolist()), to_hex(a[:3])
    base = rgb(want)
    want = to_hex(to_rgba(want)[:3])
    by = str(rng.choice(["own", "override", "alone"]))
    grad = float(rng.choice([1.0, 1.0, 0.0, 0.5, 2.0]))
    ctx.describe(color=given, by=by, gradient=grad)
    opts = dict(shade=True, shade_alpha=0.4, plot_point=True, bins=12, shade_gradient=grad, sigmas=[0, 1, 2])
    point = None
    if by == "alone":
        fig, (a0, a1) = plt.subplots(1, 2)
        c = Chain(samples=df, name="c", color=given, bar_shade=True, **opts)
        plot_dist(a0, c, "x")
        plot_contour(a1, c, "x", "y")
    else:
        cc = ChainConsumer()
        if by == "own":
            cc.add_chain(Chain(samples=df, name="c", color=given, **opts))
            cc.add_chain(Chain(samples=df + 50, name="far", color="#010203", zorder=-500, **{k: v for k, v in opts.items() if k != "plot_point"}))
        else:
            cc.add_chain(Chain(samples=df, name="c", color=str(rng.choice(["red", "#00ff00"])), **opts)).set_override(ChainConfig(color=given))
        cc.set_plot_config(PlotConfig(flip=False))
        fig = cc.plotter.plot(chains=["c"], columns=["x", "y"])
        pan = figs.panels(fig)
        a0, a1 = pan[0, 0], pan[1, 0]
        point = [p for p in figs.scatters(a1)]
    cv = figs.curves(a0)
    ctx.check_that(len(cv) == 1 and cv[0]["color"] == want, "the marginal is not in the chain's colour", got=[c["color"] for c in cv], want=want, given=given, by=by)
    fl = figs.fills(a0)
    ctx.check_that(len(fl) >= 1 and all(f["color"] == want for f in fl), "the shading is not in the chain's colour", got=[f["color"] for f in fl], want=want, given=given)
    for cs in figs.contours(a1):
        cols = [np.round(np.asarray(c[:3]) * 255) for c in (cs.get_facecolor() if cs.filled else cs.get_edgecolor())]
        if not ctx.check_that(len(cols) >= (2 if cs.filled else 3), "contours without colours", got=len(cols)):
            continue
        for c in cols:
            ok = np.all(c[base == 0] == 0)
            if cs.filled:
                # a shade of the colour: all channels scaled alike, up to the clamp
                free = (base > 0) & (c < 255)
                ratio = c[free] / base[free] if free.any() else np.array([1.0])
                slack = 1.01 / base[free] if free.any() else np.array([0.0])
                ok = ok and (ratio - slack).max() <= (ratio + slack).min() + 1e-9
                clamped = (c == 255) & (base > 0)
                ok = ok and (not clamped.any() or not free.any() or np.all(base[clamped] * (ratio + slack).min() >= 254))
            else:
                # the line is a darker shade of one of those
                o = np.argsort(base, kind="stable")
                ok = ok and np.all(np.diff(c[o]) >= -1)
            ctx.check_that(ok, "a contour is not in a shade of the chain's colour", got=c, color=base, filled=cs.filled, gradient=grad)
        bright = [float(c.sum()) for c in cols]
        if cs.filled:
            ctx.check_that(all(a <= b + 1e-9 for a, b in zip(bright, bright[1:])), "filled contours do not grade one way", got=bright, gradient=grad)
            if grad == 0:
                ctx.check_that(all(np.abs(c - base).max() <= 1 for c in cols), "without a gradient the fill is not the chain's colour", got=cols, want=base)
        ctx.count("contour sets")
    if point is not None:
        ctx.check_that(len(point) == 1 and np.abs(np.round(np.asarray(point[0].get_facecolor()[0][:3]) * 255) - base / 2).max() <= 1, "the point is not in the darker shade of the chain's colour", got=[np.asarray(p.get_facecolor()[0]) for p in point], want=base / 2)
        ctx.count("points")
    ctx.count("figures")
    ctx.distinct("figures", kind, by, grad, repr(given))


CASES = {"names": (names, 1, 1), "codes": (codes, 150, 6000), "scaling": (scaling, 100, 6000), "figures": (figures, 70, 2500)}
REQUIRED = {"names resolved": 180, "code resolved": 1500, "rgb resolved": 1500, "rejected": 500, "colours scaled": 7000, "contour sets": 120, "points": 30}
