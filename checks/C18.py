"""Samples counted inside the drawn contours, against a reference density of the same weighted samples."""
import re

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotting import plot_contour
from scipy.stats import norm

from vlib import dens2, figs, gen

ID = "C18"
TITLE = "contours enclose their probability"
RULE = (
    "Each case draws chains of 3 000-25 000 samples from an asymmetric joint distribution (correlated, curved, skewed, wedge-shaped, two-peaked, cut off) at magnitudes 1e-4..1e4 with weights that change the "
    "distribution, sigmas with and without 0 and with fractions, one- and two-dimensional levels, smoothing, KDE or neither, shaded or not, alone (plot_contour) or in the triangle of 2-3 columns in any order. For every drawn "
    "filled band and every closed line the weighted samples inside are counted and compared point by point with the reference region. Distinct by shape, weights, settings, sigmas and panel."
)
PRELOAD = ["matplotlib.pyplot"]


def settings(rng, panel):
    r = rng.uniform()
    if r < 0.5:
        return {}
    if r < 0.7:
        return dict(smooth=int(rng.integers(1, 4)), bins=int(rng.integers(25, 40)))
    if r < 0.88:
        return dict(smooth=0, bins=int(rng.integers(18, 24)))
    return dict(kde=float(rng.choice([1.0, 0.7, 1.4])), bins=10)


SIGMAS = [[0, 1, 2], [0, 1, 2], [0, 1, 2, 3], [0, 2], [0, 1], [1, 2], [0, 0.8, 1.6], [0, 0.75, 1.75], [0, 1.3], [2], [0, 1.5, 2.5]]


def tolerance(kw, kind):
    """(mass, symmetric difference) the resolution of the settings allows."""
    if kw.get("smooth", 3) == 0 and not kw.get("kde"):
        return 0.14, 0.22
    if kw.get("smooth", 3) == 1 and not kw.get("kde"):
        return (0.08, 0.12) if kind == "cut" else (0.06, 0.09)
    # contours end half a cell from a sharp edge, so a cut-off distribution loses what lies there
    return (0.08, 0.10) if kind == "cut" else (0.03, 0.05)


def levels_of(sigmas, two_d):
    s = np.sort(np.asarray(sigmas, float))
    return 1 - np.exp(-0.5 * s**2) if two_d else 2 * norm.cdf(s) - 1


def judge(ctx, ax, z, x, y, w, kw, sigmas, two_d, kind, shade, what):
    """The contours drawn at zorder z on this panel are those of these samples."""
    pts = np.column_stack([x, y])
    p = np.ones(len(x)) if w is None else np.asarray(w, float)
    p = p / p.sum()
    lv = levels_of(sigmas, two_d)
    ref = dens2.reference(x, y, w, bins=kw.get("bins"), smooth=kw.get("smooth"), kde=kw.get("kde", False), ncols=2)
    f = ref.at(x, y)
    region = {float(v): (f >= ref.level(v) if v > 0 else np.zeros(len(x), bool)) for v in lv}
    tm, td = tolerance(kw, kind)
    mine = [c for c in figs.contours(ax) if abs(c.get_zorder() - z) <= 20]
    lines = [c for c in mine if not c.filled]
    fills = [c for c in mine if c.filled]
    if not ctx.check_that(len(lines) == 1 and len(fills) == (1 if shade else 0), "the chain's contours are not drawn once", where=what, lines=len(lines), fills=len(fills), shade=shade):
        return
    nonzero = [float(v) for v in lv if v > 0]
    if fills:
        got = figs.filled_regions(fills[0], pts)
        bands = [g for g in got]
        if ctx.check_that(len(bands) == len(lv) - 1, "wrong number of filled bands", where=what, bands=len(bands), sigmas=sigmas):
            inner = region[float(lv[0])]
            last = None
            for v, g in zip(lv[1:], bands):
                if v < 0.5 and tm > 0.1:
                    last = g
                    continue  # the top of an unsmoothed histogram is all noise
                want = region[float(v)] & ~inner
                m, mr = p[g].sum(), p[want].sum()
                d = p[g != want].sum()
                ctx.check_that(min(abs(m - mr), abs(m - v + lv[0])) <= tm and d <= td, "a filled contour does not hold the samples of its level", where=what, level=v, held=m, reference=mr, differ=d, settings=kw)
                if last is not None:
                    ctx.check_that(not np.any(last & ~g), "filled contours are not nested", where=what)
                last = g
                ctx.count("filled contours")
    paths = lines[0].get_paths()
    drawn = [i for i, q in enumerate(paths) if len(q.vertices)]
    ctx.check_that(len(drawn) == len(nonzero), "not one contour line per sigma", where=what, drawn=len(drawn), sigmas=sigmas)
    if not figs.open_lines(lines[0]) and len(drawn) == len(nonzero):
        got = figs.contour_regions(lines[0], pts)
        last = None
        for v, i in zip(nonzero, drawn):
            if v < 0.5 and tm > 0.1:
                continue
            g, want = got[i], region[v]
            m, mr = p[g].sum(), p[want].sum()
            d = p[g != want].sum()
            ctx.check_that(min(abs(m - mr), abs(m - v)) <= tm and d <= td, "a contour line does not enclose the samples of its level", where=what, level=v, enclosed=m, reference=mr, differ=d, settings=kw)
            if last is not None:
                ctx.check_that(not np.any(last & ~g), "contour lines are not nested", where=what)
            last = g
            ctx.count("closed contour lines")
    return ref, f, p


def data(rng, n):
    kind = str(rng.choice(dens2.KINDS, p=[0.2, 0.2, 0.2, 0.15, 0.17, 0.08]))
    x, y = dens2.joint(rng, n, kind)
    wk, w = dens2.tilt(rng, x, y)
    (lx, sx), (ly, sy) = gen.loc_scale(rng), gen.loc_scale(rng)
    return kind, lx + sx * x, ly + sy * y, wk, w


def alone(ctx):
    rng = ctx.rng
    kw = settings(rng, False)
    n = int(10 ** rng.uniform(3.5, 4.4)) if not kw.get("kde") else int(rng.integers(3000, 5000))
    kind, x, y, wk, w = data(rng, n)
    if kind == "cut":
        kw = {}
    if rng.uniform() < 0.04:
        # a long chain whose rows are in order
        n, kw = int(rng.integers(102_000, 125_000)), {}
        kind, x, y, wk, w = data(rng, n)
        o = np.argsort(x if rng.uniform() < 0.5 else y)
        x, y, w = x[o], y[o], None if w is None else w[o]
        ctx.count("long chains in order")
    sigmas = list(SIGMAS[int(rng.integers(len(SIGMAS)))])
    two_d = bool(rng.uniform() < 0.3)
    shade = bool(rng.uniform() < 0.75) and len(sigmas) > 1
    names = gen.names(rng, 2)
    df = gen.frame(rng, {names[0]: x, names[1]: y}, w=w)
    df.index = gen.index(rng, n)[1]
    c = gen.chain(rng, drawn=True, samples=df, name="a", color="#1f77b4", sigmas=sigmas, shade=shade, shade_alpha=0.5, zorder=1000, linestyle=str(rng.choice(["-", "--"])), **kw)
    swap = bool(rng.uniform() < 0.5)
    (px, ax_), (py, ay_) = ((names[0], x), (names[1], y)) if not swap else ((names[1], y), (names[0], x))
    fig, ax = plt.subplots()
    if two_d or rng.uniform() < 0.5:
        plot_contour(ax, c, px, py, PlotConfig(sigma2d=two_d))
    else:
        plot_contour(ax, c, px, py)
    ctx.describe(kind=kind, n=n, weights=wk, settings=kw, sigmas=sigmas, sigma2d=two_d, shade=shade, x=px, y=py)
    judge(ctx, ax, 1000, ax_, ay_, w, kw, sigmas, two_d, kind, shade, "plot_contour")
    ctx.distinct("alone", kind, wk, tuple(kw.items()), tuple(sigmas), two_d, shade, swap)


def panel(ctx):
    rng = ctx.rng
    two_d = bool(rng.uniform() < 0.3)
    k = int(rng.choice([2, 2, 3]))
    names = gen.names(rng, k)
    cc = ChainConsumer()
    chains = []
    for i in range(int(rng.choice([1, 2]))):
        kw = settings(rng, True)
        n = int(rng.integers(3000, 9000)) if not kw.get("kde") else 3000
        kind, x, y, wk, w = data(rng, n)
        if kind == "cut":
            kw = {}
        cols = {names[0]: x, names[1]: y}
        if k == 3:
            cols[names[2]] = x / x.std() * rng.choice([-1, 1]) + 0.7 * (y / y.std()) ** 1 + 0.5 * rng.normal(size=n)
        order = [str(v) for v in rng.permutation(names)]
        df = gen.frame(rng, {c: cols[c] for c in order}, w=w)
        df.index = gen.index(rng, n)[1]
        sigmas = list(SIGMAS[int(rng.integers(len(SIGMAS)))])
        shade = bool(rng.uniform() < 0.8) and len(sigmas) > 1
        cc.add_chain(gen.chain(rng, drawn=True, samples=df, name=f"c{i}", sigmas=sigmas, shade=shade, shade_alpha=0.4, zorder=figs.zorder(i), **kw))
        chains.append(dict(cols=cols, w=w, kw=kw, sigmas=sigmas, shade=shade, kind=kind, wk=wk))
    hists = bool(rng.uniform() < 0.7)
    cc.set_plot_config(PlotConfig(sigma2d=two_d, plot_hists=hists, flip=bool(rng.uniform() < 0.5)))
    columns = [str(v) for v in rng.permutation(names)]
    fig = cc.plotter.plot(columns=columns)
    ctx.describe(columns=columns, sigma2d=two_d, hists=hists, chains=[{a: b for a, b in c.items() if a not in ("cols", "w")} for c in chains])
    pan = figs.panels(fig)
    rows, colsx = (columns, columns) if hists else (columns[1:], columns[:-1])
    for i, py in enumerate(rows):
        for j, px in enumerate(colsx):
            if columns.index(px) >= columns.index(py):
                ctx.check_that(not figs.contours(pan[i, j]), "contours above the diagonal", panel=(i, j))
                continue
            for q, c in enumerate(chains):
                # the first two columns have the joint shape; the third is only used where it is smooth as well
                if names.index(px) == 2 or names.index(py) == 2:
                    if c["kind"] in ("cut", "two") or c["kw"].get("smooth") == 0:
                        continue
                judge(ctx, pan[i, j], figs.zorder(q), c["cols"][px], c["cols"][py], c["w"], c["kw"], c["sigmas"], two_d, c["kind"], c["shade"], f"panel {py} against {px}, chain {q}")
    ctx.distinct("panel", tuple(columns), two_d, hists, tuple((c["kind"], c["wk"], tuple(c["sigmas"])) for c in chains))


def labels(ctx):
    """The text on a contour states the probability it encloses."""
    rng = ctx.rng
    kind = str(rng.choice(["normal", "banana", "skewed", "wedge"]))
    n = int(rng.integers(8000, 20000))
    x, y = dens2.joint(rng, n, kind)
    wk, w = dens2.tilt(rng, x, y)
    sigmas = [[0, 1, 2], [0, 1, 2, 3], [0, 1, 3], [0, 1.5, 2.5], [1, 2], [0, 0.85, 1.75], [1.25, 2.15]][int(rng.integers(7))]
    two_d = bool(rng.uniform() < 0.5)
    sx, sy = 10 ** rng.uniform(-3, 3, size=2)
    df = pd.DataFrame({"x": x * sx, "y": y * sy})
    if w is not None:
        df["weight"] = w
    chain = gen.chain(rng, drawn=True, samples=df, name="a", color="#1f77b4", sigmas=sigmas, show_contour_labels=True, zorder=1000)
    cfg = PlotConfig(sigma2d=two_d, contour_label_font_size=4, plot_hists=False)
    if rng.uniform() < 0.5:
        fig, ax = plt.subplots(figsize=(7, 7))
        plot_contour(ax, chain, "x", "y", cfg)
    else:
        cc = ChainConsumer().add_chain(chain)
        cc.set_plot_config(cfg)
        fig = cc.plotter.plot(columns=["x", "y"], figsize=(7.0, 7.0))
        ax = figs.panels(fig)[0, 0]
    lv = [float(v) for v in levels_of(sigmas, two_d) if v > 0]
    ctx.describe(kind=kind, sigmas=sigmas, sigma2d=two_d, weights=wk)
    ref = dens2.reference(x * sx, y * sy, w, bins=None, smooth=None, kde=False, ncols=2)
    f = ref.at(x * sx, y * sy)
    p = np.ones(n) if w is None else w / 1.0
    p = p / p.sum()
    texts = []
    for t in {id(t): t for t in [*ax.texts, *(t for c in figs.contours(ax) for t in getattr(c, "labelTexts", []))]}.values():
        m = re.search(r"([\d.]+)\s*\\?%", t.get_text())
        if m:
            texts.append((float(m.group(1)) / 100, m.group(1), t.get_position()))
    ctx.check_that(len(texts) > 0, "no contour is labelled")
    for v, s, (tx, ty) in texts:
        lvl = min(lv, key=lambda q: abs(q - v))
        digits = len(s.split(".")[1]) if "." in s else 0
        ctx.check_that(abs(lvl - v) <= 0.51 * 10 ** (-digits - 2), "a contour label is none of the levels", label=s, levels=lv)
        ctx.check_that(v < 1 or lvl > 0.9995, "a contour is said to enclose everything", label=s, level=lvl)
        # where the label sits, the enclosed mass is that of its level
        at = float(p[f >= ref.at(np.array([tx]), np.array([ty]))[0]].sum())
        ctx.check_that(abs(at - v) <= (0.04 if v > 0.9 else 0.15), "a contour label is on another contour", label=s, mass_at_label=at, levels=lv)
        ctx.count("labels read")
    ctx.distinct("labels", kind, tuple(sigmas), two_d, wk)


def fine(ctx):
    """Noise-free Gaussians on a fine grid, whose contours of any level are known ellipses."""
    rng = ctx.rng
    names = gen.names(rng, 2)
    (lx, sx), (ly, sy) = gen.loc_scale(rng), gen.loc_scale(rng)
    rho = float(rng.uniform(-0.6, 0.6))
    nx, ny = (int(v) for v in rng.integers(81, 131, size=2))
    u, v = np.linspace(-6, 6, nx), np.linspace(-6, 6, ny)
    uu, vv = (a.ravel() for a in np.meshgrid(u, v, indexing="ij"))
    r2 = (uu**2 - 2 * rho * uu * vv + vv**2) / (1 - rho**2)
    w = np.exp(-0.5 * r2) * 10 ** rng.uniform(-3, 3)
    two_d = bool(rng.uniform() < 0.4)
    sigmas = sorted({float(np.round(s, 2)) for s in rng.uniform(0.6, 4.4, size=int(rng.integers(1, 4)))})
    if rng.uniform() < 0.5:
        sigmas = [0, *sigmas]
    if rng.uniform() < 0.4:
        sigmas = [0, 1, 2, 3, 4]
    shade = len(sigmas) > 1 and bool(rng.uniform() < 0.7)
    df = gen.frame(rng, {names[0]: lx + sx * uu, names[1]: ly + sy * vv}, w=w)
    df = df.iloc[rng.permutation(len(df))]
    c = gen.chain(rng, drawn=True, samples=df, name="a", color="#1f77b4", sigmas=sigmas, shade=shade, shade_alpha=0.5, zorder=1000, grid=True, power=1)
    swap = bool(rng.uniform() < 0.5)
    px, py = names[::-1] if swap else names
    cfg = PlotConfig(sigma2d=two_d, plot_hists=False)
    ctx.describe(sigmas=sigmas, sigma2d=two_d, correlation=rho, cells=(nx, ny), x=px, y=py, shade=shade)
    if rng.uniform() < 0.5:
        fig, ax = plt.subplots()
        plot_contour(ax, c, px, py, cfg)
    else:
        cc = ChainConsumer().add_chain(c)
        cc.set_plot_config(cfg)
        ax = figs.panels(cc.plotter.plot(columns=[px, py]))[0, 0]
    lv = levels_of(sigmas, two_d)
    r = np.sqrt(-2 * np.log(1 - lv))
    step = 12 / (min(nx, ny) - 1)
    tol = 1.1 * step

    def radii(path):
        q = np.concatenate([*figs.polygons(path), np.empty((0, 2))])
        a, b = (q[:, ::-1] if swap else q).T
        a, b = (a - lx) / sx, (b - ly) / sy
        return np.sqrt((a * a - 2 * rho * a * b + b * b) / (1 - rho**2))

    for cs in figs.contours(ax):
        if cs.filled:
            paths = cs.get_paths()
            if not ctx.check_that(len(paths) == len(lv) - 1, "wrong number of filled bands", bands=len(paths), sigmas=sigmas):
                continue
            for i, path in enumerate(paths):
                d = radii(path)
                lo, hi = r[i], r[i + 1]
                # near the top the cells are what can be told apart
                near = np.minimum(np.abs(d - lo), np.abs(d - hi))
                ok = len(d) > 8 and np.all(near[d > 0.5] <= tol) and abs(d.max() - hi) <= tol and (lo < 0.5 or abs(d.min() - lo) <= tol)
                ctx.check_that(ok, "a filled band does not lie between its levels", band=(float(lv[i]), float(lv[i + 1])), radii=(lo, hi), drawn=(d.min(), d.max()) if len(d) else None)
                ctx.count("bands of a known ellipse")
        else:
            drawn = [q for q in cs.get_paths() if len(q.vertices)]
            want = [(a, b) for a, b in zip(lv, r) if a > 0]
            if not ctx.check_that(len(drawn) == len(want), "not one contour line per sigma", drawn=len(drawn), sigmas=sigmas):
                continue
            for path, (level, rad) in zip(drawn, want):
                d = radii(path)
                ctx.check_that(len(d) > 8 and np.all(np.abs(d - rad) <= tol), "a contour line is not at its level", level=float(level), radius=rad, drawn=(d.min(), d.max()) if len(d) else None)
                ctx.count("lines on a known ellipse")
    ctx.distinct("fine", tuple(sigmas), two_d, swap, round(rho, 1), shade)


CASES = {"fine": (fine, 120, 3000), "alone": (alone, 260, 6000), "panel": (panel, 70, 1600), "labels": (labels, 50, 1000)}
REQUIRED = {"filled contours": 300, "closed contour lines": 80, "labels read": 100, "lines on a known ellipse": 120, "bands of a known ellipse": 80, "long chains in order": 3}
BATCH = 4
