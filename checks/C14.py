"""Gelman-Rubin and Geweke verdicts against reference statistics, with parameters placed on either side of the threshold."""
import numpy as np
import scipy.stats as st
from chainconsumer import Chain, ChainConsumer

from vlib import gen

ID = "C14"
TITLE = "convergence diagnostics"
RULE = (
    "Each case is 1-4 chains (1-5 parameters, 2-24 walkers, 6-1500 steps, autocorrelated, any labels, weights and posterior columns that differ between walkers, magnitudes) in which one or more parameters "
    "of one or more walkers are displaced so that the statistic falls near a random threshold on either side; verdicts per chain and overall are compared for every way of selecting chains. "
    "Cases where reasonable readings of the definition disagree are left out. Distinct by sizes, verdict and selection."
)


def ar(rng, n, phi):
    e = rng.normal(size=n + 20)
    out = np.empty(n + 20)
    v = 0.0
    for i in range(n + 20):
        v = phi * v + e[i]
        out[i] = v
    return out[20:] * np.sqrt(1 - phi * phi)


def extras(rng, n, walkers, df):
    names = list(df.columns)
    """Columns that are not parameters must not take part: they drift from walker to walker."""
    step = np.repeat(np.arange(walkers), n // walkers)
    kw = {}
    if rng.uniform() < 0.5:
        df["log_posterior"] = -100.0 * step - rng.exponential(size=n)
    if rng.uniform() < 0.5:
        nm = str(rng.choice(["weight", "ww"]))
        if nm != "weight":
            kw["weight_column"] = nm
        df[nm] = 1.0 + step * 3 + rng.uniform(size=n)
    if rng.uniform() < 0.25:
        # how a chain is drawn does not matter
        kw.update(plot_cloud=True, color_param=str(rng.choice(list(names))))
    elif rng.uniform() < 0.2:
        kw.update([("plot_contour", False), ("power", 2.0), ("plot_point", "log_posterior" in df), ("kde", True), ("smooth", 0)][int(rng.integers(5)) :][:1])
    return kw


def ratios(blocks):
    """The documented ratio and the one with the sampling term of the mean, per parameter."""
    m, n = len(blocks), len(blocks[0])
    b = np.array([x.mean(axis=0) for x in blocks])
    B = n / (m - 1) * ((b - b.mean(axis=0)) ** 2).sum(axis=0)
    W = np.mean([x.var(axis=0, ddof=1) for x in blocks], axis=0)
    doc = np.sqrt(((n - 1) / n * W + B / n) / W)
    alt = np.sqrt(((n - 1) / n * W + B / n + B / (n * m)) / W)
    return doc, alt


def gr_chain(rng, name, threshold):
    k, m = int(rng.integers(1, 6)), int(rng.choice([2, 2, 3, 4, 8, 24]))
    n = int(rng.choice([6, 12, 40, 200, 1000]))
    x = np.array([[ar(rng, n, rng.choice([0, 0.3, 0.8])) for _ in range(k)] for _ in range(m)])  # walker, param, step
    if rng.uniform() < 0.25:
        x = np.repeat(x[:1], m, axis=0)  # no difference between walkers at all: the ratio is below one
    for j in range(k):
        if rng.uniform() < 0.45:
            # displace one walker so that the ratio comes out around 1 + u*threshold
            u = rng.uniform(0.3, 2.2)
            # var of m means with one at d is d^2/m; ratio^2 = 1 + d^2/m (roughly)
            d = np.sqrt(m * ((1 + u * threshold) ** 2 - 1))
            x[int(rng.integers(m)), j] += d * rng.choice([-1, 1])
    data = x.transpose(0, 2, 1).reshape(m * n, k)
    data = data * 10 ** rng.uniform(-4, 4, size=k) * rng.choice([-1, 1], size=k)
    data = data + data.std(axis=0) * rng.uniform(-5, 5, size=k)
    names = gen.names(rng, k)
    ik, idx = gen.index(rng, m * n)
    df = gen.frame(rng, dict(zip(names, data.T)), idx=idx)
    kw = extras(rng, m * n, m, df)
    doc, alt = ratios(np.split(data, m))
    verdicts = [bool(np.all(np.abs(r - 1) < threshold)) for r in (doc, alt)]
    margin = min(np.min(np.abs(np.abs(r - 1) - threshold)) for r in (doc, alt))
    clear = verdicts[0] == verdicts[1] and margin > 1e-9
    return Chain(samples=df, name=name, walkers=m, **kw), verdicts[0], clear, (k, m, n, ik), doc


def select(ctx, chains, rng):
    """Ways of asking: (argument, chains asked for)."""
    some = [chains[i] for i in rng.permutation(len(chains))[: rng.integers(1, len(chains) + 1)]]
    one = chains[int(rng.integers(len(chains)))]
    ways = {
        "all": (None, chains),
        "names": ([c.name for c in some], some),
        "chains": (list(some), some),
        "mixed": ([c if i % 2 else c.name for i, c in enumerate(some)], some),
        "one name": (one.name, [one]),
        "one chain": (one, [one]),
    }
    k = str(rng.choice(list(ways)))
    return k, *ways[k]


def judge(ctx, res, asked, verdict, what, how, extra):
    ctx.check_that(set(res.results) == {c.name for c in asked}, f"{what}: the verdicts are not of exactly the chains asked for", got=list(res.results), want=[c.name for c in asked], how=how)
    for c in asked:
        if c.name in res.results and verdict[c.name] is not None:
            ctx.check_that(bool(res.results[c.name]) == verdict[c.name], f"{what}: a chain gets the wrong verdict", chain=c.name, got=bool(res.results[c.name]), want=verdict[c.name], how=how, **extra.get(c.name, {}))
            ctx.count(f"{what} {'passed' if verdict[c.name] else 'failed'}")
    ctx.check_that(bool(res) == bool(res.passed) == all(bool(v) for v in res.results.values()), f"{what}: the overall verdict is not the conjunction", passed=res.passed, results=res.results, how=how)


def gelman(ctx):
    rng = ctx.rng
    threshold = float(rng.choice([0.05, 0.05, 0.01, 0.1, 0.3]))
    cc, chains, verdict, extra = ChainConsumer(), [], {}, {}
    for name in gen.chain_names(rng, int(rng.choice([1, 1, 2, 3, 4]))):
        c, v, clear, key, doc = gr_chain(rng, name, threshold)
        chains.append(c)
        cc.add_chain(c)
        verdict[c.name] = v if clear else None
        extra[c.name] = dict(ratios=doc, threshold=threshold, shape=key)
        ctx.distinct(key, v, threshold)
    how, arg, asked = select(ctx, chains, rng)
    if rng.uniform() < 0.1:
        # a chain, perhaps a piece of work elsewhere, which was not added
        c, v, clear, key, doc = gr_chain(rng, str(rng.choice(["elsewhere", chains[0].name])), threshold)
        verdict[c.name], extra[c.name] = (v if clear else None), dict(ratios=doc, threshold=threshold, shape=key)
        how, arg, asked = "chain not added", c, [c]
    res = cc.diagnostic.gelman_rubin(arg, threshold=threshold) if threshold != 0.05 or rng.uniform() < 0.5 else cc.diagnostic.gelman_rubin(arg)
    judge(ctx, res, asked, verdict, "gelman-rubin", how, extra)
    ctx.count(f"selected by {how}")
    ctx.describe(chains={k: v["shape"] for k, v in extra.items()}, verdicts=verdict, threshold=threshold, selection=how)


def single(ctx):
    rng = ctx.rng
    cc = ChainConsumer()
    n = 120
    k = int(rng.integers(1, 4))
    for i in range(k):
        df = gen.frame(rng, {"x": rng.normal(size=n)}, idx=gen.index(rng, n)[1])
        cc.add_chain(Chain(samples=df, name=f"c{i}", walkers=4))
    cc.add_chain(Chain(samples=gen.frame(rng, {"x": rng.normal(size=n)}), name="alone"))
    arg = [None, "alone", ["c0", "alone"]][int(rng.integers(3))]
    try:
        cc.diagnostic.gelman_rubin(arg)
    except Exception:  # noqa: BLE001
        ctx.count("rejections")
    else:
        ctx.fail("Gelman-Rubin was run on a single walker", asked=arg)
    ctx.distinct(k, str(arg))


def spec(x, order=2):
    """Spectral density at zero of an AR(2) fitted by Yule-Walker with the unbiased autocovariance."""
    x = x - x.mean()
    n = len(x)
    r = np.array([np.sum(x[: n - k] * x[k:]) / (n - k) for k in range(order + 1)])
    R = np.array([[r[abs(i - j)] for j in range(order)] for i in range(order)])
    beta = np.linalg.solve(R, r[1:])
    sigmasq = r[0] - np.sum(r[1:] * beta)
    return (sigmasq if sigmasq > 0 else np.nan) / (1 - beta.sum()) ** 2


def geweke_p(data, walkers, first, last):
    out = []
    for shift in ((0, 0), (1, 0), (0, 1), (1, 1)):
        zs = []
        for c in np.split(data, walkers):
            n = len(c)
            a, b = int(np.floor(first * n)) + shift[0], int(np.floor((1 - last) * n)) + shift[1]
            for i in range(c.shape[1]):
                s, e = c[:a, i], c[b:, i]
                zs.append((s.mean() - e.mean()) / np.sqrt(spec(s) / len(s) + spec(e) / len(e)))
        out.append(float(st.normaltest(zs)[1]))
    exact = abs(first * n - round(first * n)) < 1e-6 or abs((1 - last) * n - round((1 - last) * n)) < 1e-6
    # where a cut falls within rounding of a step either side may be meant, and only then
    return out if exact else out[:1]


def geweke(ctx):
    rng = ctx.rng
    threshold = float(rng.choice([0.05, 0.05, 0.01, 0.2, 0.5]))
    first, last = (0.1, 0.5) if rng.uniform() < 0.4 else (float(rng.uniform(0.08, 0.4)), float(rng.uniform(0.2, 0.6)))
    if rng.uniform() < 0.15:
        first, last = float(rng.uniform(0.4, 0.7)), float(rng.uniform(0.62, 0.9))  # parts that overlap
    cc, chains, verdict, extra = ChainConsumer(), [], {}, {}
    for name in gen.chain_names(rng, int(rng.choice([1, 1, 2, 3]))):
        k = int(rng.integers(1, 5))
        m = int(rng.choice([10, 20, 24])) if k == 1 else int(rng.choice([5, 8, 12, 20]))
        if k * m < 8:
            m = 8
        n = int(rng.choice([300, 601, 1000]))
        x = np.array([[ar(rng, n, rng.choice([0, 0.3, 0.6])) for _ in range(k)] for _ in range(m)])
        for _ in range(int(rng.choice([0, 0, 1, 2, 4]))):
            # some walkers start off somewhere else
            w, j = int(rng.integers(m)), int(rng.integers(k))
            x[w, j, : int(0.1 * n)] += rng.choice([-1, 1]) * rng.uniform(0.3, 3)
        data = x.transpose(0, 2, 1).reshape(m * n, k)
        data = data * 10 ** rng.uniform(-4, 4, size=k)
        data = data + data.std(axis=0) * rng.uniform(-5, 5, size=k)
        ik, idx = gen.index(rng, m * n)
        df = gen.frame(rng, dict(zip(gen.names(rng, k), data.T)), idx=idx)
        kw = extras(rng, m * n, m, df)
        ps = geweke_p(data, m, first, last)
        c = Chain(samples=df, name=name, walkers=m, **kw)
        vs = {p > threshold for p in ps}
        clear = len(vs) == 1 and not np.isnan(ps).any() and min(abs(p - threshold) for p in ps) > 1e-6
        verdict[c.name] = vs.pop() if clear else None
        extra[c.name] = dict(p=ps, threshold=threshold, first=first, last=last, shape=(k, m, n, ik))
        chains.append(c)
        cc.add_chain(c)
        ctx.distinct(k, m, n, ik, verdict[c.name], threshold)
    how, arg, asked = select(ctx, chains, rng)
    kw = {} if (first, last) == (0.1, 0.5) else dict(first=first, last=last)
    if threshold != 0.05:
        kw["threshold"] = threshold
    judge(ctx, cc.diagnostic.geweke(arg, **kw), asked, verdict, "geweke", how, extra)
    ctx.count(f"selected by {how}")
    ctx.describe(chains={k: v["shape"] for k, v in extra.items()}, verdicts=verdict, threshold=threshold, selection=how)


PRELOAD = ["statsmodels.regression.linear_model"]
CASES = {"gelman": (gelman, 500, 15000), "single": (single, 20, 100), "geweke": (geweke, 150, 3000)}
REQUIRED = {"gelman-rubin passed": 80, "gelman-rubin failed": 80, "geweke passed": 30, "geweke failed": 20, "rejections": 10}
