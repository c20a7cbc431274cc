"""HDI summaries: narrowest interval, and disjoint bands for multimodal chains."""
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from vlib import gen, summ

ID = "C03"
TITLE = "highest density intervals"
RULE = (
    'Random chains (12 shapes incl. well separated two- and three-peaked mixtures; 8 kinds of row label, 7 kinds of weights, settings, areas, '
    'magnitudes 1e-15 to 1e15) summarised with HDI, unimodal and multimodal; widths are compared with every interval of the sorted weighted '
    "sample, and bands with the reference density and the mixture's known peaks. On noise-free grids, mixtures with widths up to 60 times apart "
    'must give the level set itself. Up to ten peaks occur. Distinct by shapes, weights, labels, settings and area.'
)


def narrowest(x, w, mass):
    """Width of the narrowest sample interval with at least this weighted mass."""
    o = np.argsort(x)
    xs = x[o]
    ws = np.ones(len(x)) if w is None else w[o]
    c = np.concatenate(([0], np.cumsum(ws)))
    c /= c[-1]
    j = np.searchsorted(c, c[:-1] + mass - 1e-12)
    ok = j < len(c)
    i = np.nonzero(ok)[0]
    return float(np.min(xs[j[ok] - 1] - xs[i]))


def hdi(ctx):
    rng = ctx.rng
    bins, smooth, kde = summ.options(rng)
    kinds = gen.SMOOTH_UNIMODAL * 2 + gen.CUT + gen.MULTI
    n, cols, shapes, wk, w, ik, idx = summ.columns(ctx, kinds, kde=bool(kde))
    area = float(np.clip(summ.area(rng), 0.2, 0.96))
    opts = {k: v for k, v in dict(bins=bins, smooth=smooth).items() if v is not None}
    if kde:
        opts["kde"] = kde
    df = gen.frame(rng, cols, w, idx=idx)
    ctx.describe(n=n, shapes=shapes, weights=wk, labels=ik, area=area, **opts)
    cc = ChainConsumer()
    if rng.uniform() < 0.3:
        cc.add_chain(gen.chain(rng, extra=True, samples=df, name="c", **opts))
        cc.set_override(ChainConfig(statistics=S.HDI, summary_area=area))
    else:
        cc.add_chain(gen.chain(rng, extra=True, samples=df, name="c", summary_area=area, statistics=S.HDI, **opts))
    res = cc.analysis.get_summary()["c"]
    for c, x in cols.items():
        b = res[c]
        what = dict(column=c, shape=shapes[c], n=n, weights=wk, area=area, options=opts)
        blur = summ.resolution(x, w, bins=bins, smooth=smooth, kde=kde, n=n, ncols=df.shape[1] + (w is None))
        blur *= 1 if kde else 1.4  # the range is padded by a fifth on either side
        std = summ.wstd(x, w)
        if not ctx.check_that(not isinstance(b, list) and None not in (b.lower, b.center, b.upper), "HDI summary is missing a value", bound=repr(b), **what):
            continue
        what["bound"] = b.array
        ctx.check_that(b.lower <= b.center <= b.upper and b.lower < b.upper, "HDI values are out of order", **what)
        width = b.upper - b.lower
        slack = 4 * blur
        inner, outer = gen.mass_in(x, w, b.lower + slack, b.upper - slack), gen.mass_in(x, w, b.lower - slack, b.upper + slack)
        ctx.check_that(inner - 0.006 <= area <= outer + 0.006, "the HDI does not hold the area (beyond resolution)", inner=inner, outer=outer, **what)
        # never wider than the narrowest interval of the blurred distribution can be
        best = narrowest(x, w, min(area + 0.005, 1.0))
        ctx.check_that(width <= best + 8 * blur, "a much narrower interval holds the area", width=width, narrowest=best, **what)
        ctx.count("intervals")
        sm = 3 if smooth is None else smooth
        if shapes[c] in gen.SMOOTH_UNIMODAL and sm >= 2 and not kde and gen.neff(w, n) > 1500:
            ctx.count("tight intervals")
            m = gen.mass_in(x, w, b.lower, b.upper)
            tol = 0.006 + 0.9 * (blur / std) ** 2
            ctx.check_that(abs(m - area) <= tol + 1.5 / np.sqrt(gen.neff(w, n)) * 0.2, "the HDI does not hold the area", mass=m, tolerance=tol, **what)
            # the same mass cannot be had in a clearly narrower interval: the sample's own narrowest interval overfits
            best = narrowest(x, w, m - 0.002)
            ctx.check_that(width <= best * 1.04 + 4 * std / np.sqrt(gen.neff(w, n)) + 0.6 * blur, "a narrower interval holds the same mass", width=width, narrowest=best, **what)
            half = gen.mass_in(x, w, b.lower, b.center)
            ctx.check_that(abs(half - m / 2) <= 0.006 + 0.6 * (blur / std) ** 2, "the HDI centre does not halve the mass in the interval", left=half, mass=m, **what)
    ctx.distinct(tuple(shapes.values()), wk, ik, bins, smooth, kde, round(area, 3))


def multimodal(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 4))
    n = int(10 ** rng.uniform(3.6, 4.8))
    loc, scale = gen.loc_scale(rng)
    gaps = rng.uniform(8, 12, size=k)
    sig = rng.uniform(0.7, 1.4, size=k)
    frac = rng.dirichlet(np.ones(k) * 12)
    peaks = np.cumsum(gaps)
    which = rng.choice(k, p=frac, size=n)
    x = loc + scale * (peaks[which] + sig[which] * rng.normal(size=n))
    peaks, sig = loc + scale * peaks, scale * sig
    wk, w = gen.weights(rng, n)
    if k > 1 and rng.uniform() < 0.5:
        # sampled in other proportions than the posterior has them: the weights set the peaks right
        drawn = rng.dirichlet(np.ones(k) * 12)
        which = rng.choice(k, p=drawn, size=n)
        x = loc + scale * (((peaks - loc) / scale)[which] + (sig / scale)[which] * rng.normal(size=n))
        wk, w = "proportions", 10 ** rng.uniform(-6, 6) * (frac / drawn)[which]
    area = float(rng.uniform(0.5, 0.93))
    smooth = None if rng.uniform() < 0.7 else int(rng.choice([2, 4]))
    opts = {} if smooth is None else {"smooth": smooth}
    explicit = rng.uniform() < 0.5
    if explicit:
        opts["statistics"] = S.HDI
    df = gen.frame(rng, {"x": x, "other": rng.normal(size=n)}, w, idx=gen.index(rng, n)[1])
    ctx.describe(n=n, peaks=peaks, sigmas=sig, fractions=frac, weights=wk, area=area, **opts)
    cc = ChainConsumer().add_chain(gen.chain(rng, extra=True, samples=df, name="c", multimodal=True, summary_area=area, **opts))
    res = cc.analysis.get_summary()["c"]["x"]
    what = dict(k=k, n=n, weights=wk, area=area, peaks=peaks, sigmas=sig, fractions=frac)
    bands = res if isinstance(res, list) else [res]
    blur = 1.4 * summ.resolution(x, w, bins=None, smooth=smooth, kde=False, n=n, ncols=3)
    # every component's height in the blurred density, and the level the bands are cut at
    s2 = np.sqrt(sig**2 + blur**2)
    heights = frac / s2
    order = np.argsort(heights)
    if k > 1:
        # the level whose region holds the area; a peak close to it may or may not make a band of its own
        lo, hi = 0.0, heights.max()
        for _ in range(60):
            lev = 0.5 * (lo + hi)
            z = np.sqrt(2 * np.log(np.maximum(heights / lev, 1)))
            from scipy.stats import norm

            m = np.sum(frac * (2 * norm.cdf(z) - 1))
            lo, hi = (lev, hi) if m > area else (lo, lev)
        if np.any((heights < 1.35 * lev)):
            from vlib.core import Skip

            raise Skip("a minor peak is close to the cut")
    ctx.check_that(len(bands) == k, "the number of bands is not the number of separated peaks", bands=[b.array for b in bands], **what)
    if len(bands) != k:
        return
    prev = -np.inf
    f, top, _, _ = summ.density(x, w, blur)
    total = 0.0
    for b, p, s in zip(bands, peaks, sig):
        ok = None not in (b.lower, b.center, b.upper)
        ctx.check_that(ok and b.lower < b.upper and b.lower > prev, "bands overlap or are out of order", bands=[q.array for q in bands], **what)
        if not ok:
            return
        prev = b.upper
        total += gen.mass_in(x, w, b.lower, b.upper)
        ctx.check_that(b.lower <= b.center <= b.upper, "band centre is outside its band", band=b.array, **what)
        if k > 1:
            inside = np.linspace(b.lower, b.upper, 400)
            ctx.check_that(f(b.center) >= 0.93 * f(inside).max(), "band centre is not at the band's density peak", band=b.array, ratio=float(f(b.center) / f(inside).max()), **what)
            ctx.check_that(b.lower < p < b.upper, "a band does not hold its peak", band=b.array, peak=p, **what)
    std_blur = float(np.max(blur / sig))
    ctx.check_that(abs(total - area) <= 0.012 + 0.9 * std_blur**2, "the bands do not hold the area between them", mass=total, **what)
    # every point outside the bands is less dense than every point inside (up to noise)
    if k > 1:
        grid = np.linspace(x.min(), x.max(), 2000)
        inside = np.zeros(grid.size, bool)
        for b in bands:
            inside |= (grid >= b.lower) & (grid <= b.upper)
        near = np.zeros(grid.size, bool)
        for b in bands:
            near |= (np.abs(grid - b.lower) < 2 * blur) | (np.abs(grid - b.upper) < 2 * blur)
        if np.any(inside & ~near) and np.any(~inside & ~near):
            ctx.check_that(f(grid[~inside & ~near]).max() <= f(grid[inside & ~near]).min() * 1.3 + 0.05 * top, "density outside the bands exceeds density inside", outside=float(f(grid[~inside & ~near]).max()), inside=float(f(grid[inside & ~near]).min()), **what)
        ctx.count("multi-band summaries")
    else:
        ctx.count("single-band summaries")
    ctx.distinct("multi", k, wk, n, smooth)


def levels(x, f, area):
    """The bands of the exact (linearly interpolated) density that hold the area."""
    fine = np.linspace(x[0], x[-1], 40001)
    d = np.interp(fine, x, f)
    d /= d.sum()
    lo, hi = 0.0, d.max()
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        lo, hi = (mid, hi) if d[d >= mid].sum() > area else (lo, mid)
    mask = np.concatenate(([False], d >= lo, [False]))
    step = np.flatnonzero(np.diff(mask.astype(int)))
    return [(fine[a], fine[b - 1]) for a, b in zip(step[::2], step[1::2])]


def exact(ctx):
    """Noise-free mixtures of very different widths on a fine grid: the bands are the level set itself."""
    rng = ctx.rng
    k = int(rng.integers(1, 5))
    m = int(rng.integers(500, 5000))
    sig = 10 ** rng.uniform(-1.8, 0.6, size=k)
    if rng.uniform() < 0.25:
        k = int(rng.integers(5, 11))
        m, sig = int(rng.integers(2500, 6000)), 10 ** rng.uniform(-0.5, 0.5, size=k)
    gap = np.concatenate(([0], (sig[1:] + sig[:-1]) * rng.uniform(6, 10, size=k - 1)))
    peaks = np.cumsum(gap)
    frac = rng.dirichlet(np.ones(k) * (6 if k < 5 else 30))
    if k >= 5:
        frac = frac * sig / np.sum(frac * sig)
    edge = rng.uniform() < 0.3  # the first peak at the edge of the grid
    x = np.linspace(peaks[0] - (0 if edge else 6) * sig[0], peaks[-1] + 6 * sig[-1], m)
    step = x[1] - x[0]
    f = sum(a / s * np.exp(-0.5 * ((x - p) / s) ** 2) for a, s, p in zip(frac, sig, peaks))
    f = np.maximum(f / f.max(), 1e-14)
    area = float(rng.uniform(0.4, 0.97))
    magnitude, offset, scale = 10 ** rng.uniform(-15, 15), float(rng.choice([0, rng.uniform(-20, 20)])), 10 ** rng.uniform(-3, 5)
    if sig.min() < 1.5 * step:
        from vlib.core import Skip

        raise Skip("a peak is not resolved by the grid")
    want = levels(x, f, area)
    if len(want) != len(levels(x, f, area - 0.012)) or len(want) != len(levels(x, f, area + 0.012)):
        from vlib.core import Skip

        raise Skip("a band is about to appear or vanish")
    order = rng.permutation(m)
    df = pd.DataFrame({"x": ((x + offset) * magnitude)[order], "weight": (f * scale)[order]})
    ctx.describe(points=m, peaks=peaks, sigmas=sig, fractions=frac, area=area, magnitude=magnitude, offset=offset, edge=edge)
    s = ChainConsumer().add_chain(gen.chain(rng, samples=df, name="c", grid=True, multimodal=True, summary_area=area)).analysis.get_summary()["c"]["x"]
    got = s if isinstance(s, list) else [s]
    what = dict(points=m, peaks=peaks, sigmas=sig, fractions=frac, area=area, bands=[b.array / magnitude - offset for b in got], expected=want)
    ctx.count("noise-free mixtures")
    if not ctx.check_that(len(got) == len(want), "the bands of a noise-free mixture are not its separated peaks", **what):
        return
    if max((b - a) for a, b in want) / min((b - a) for a, b in want) > 10:
        ctx.count("bands of very different widths")
    if len(want) > 4:
        ctx.count("five bands and more")
    near, far = levels(x, f, area - 0.012), levels(x, f, area + 0.012)
    tol = 1.5 * step + 2 * (x[-1] - x[0]) / 10000
    for b, (lo, hi), (nlo, nhi), (flo, fhi) in zip(got, want, near, far):
        l, c, u = b.array / magnitude - offset
        if len(want) == 1:
            # one band: the narrowest interval, whose ends are at equal density
            tol = 0.03 * (hi - lo) + 3 * step
        ctx.check_that(flo - tol <= l <= nlo + tol and nhi - tol <= u <= fhi + tol, "a band of a noise-free mixture is not its level set", band=b.array / magnitude - offset, level_set=(lo, hi), **what)
        if len(want) > 1:
            inside = (x >= lo) & (x <= hi)
            ctx.check_that(abs(c - x[inside][np.argmax(f[inside])]) <= 1.5 * step, "a band of a noise-free mixture is not centred on its peak", band=b.array / magnitude - offset, **what)
    ctx.distinct("exact", len(want), m, round(area, 3))


def hostile(ctx):
    summ.judge_hostile(ctx, [S.HDI])


CASES = {"hostile": (hostile, 200, 6000), "hdi": (hdi, 900, 25000), "multimodal": (multimodal, 500, 12000), "exact": (exact, 300, 8000)}
REQUIRED = {"noise-free mixtures": 60, "bands of very different widths": 12, "five bands and more": 10, "tight intervals": 200, "multi-band summaries": 60, "single-band summaries": 40, "intervals": 400, "hostile": 150}
