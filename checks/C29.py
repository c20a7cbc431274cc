"""Samples made by the library: moments, log densities, names, settings and seeds."""
import string

import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, make_sample
from chainconsumer.statistics import SummaryStatistic as S
from scipy.stats import kstest

from vlib import gen

ID = "C29"
TITLE = "generated samples"
RULE = (
    "Each case makes a chain of samples from a random mean and positive-definite covariance of 1-7 dimensions (scales from 1e-10.5 to 1e10.5, correlations up to 0.99, arrays or lists, any column names and chain settings), or an example frame of 1-10 dimensions, any number of points, seed and with or without random means. "
    "Means, every covariance, whitened marginals and row-to-row correlations are compared with their known sampling error; the example's log posterior is fitted by a quadratic form, which must be exact, normalised, of unit variances and that of the samples. Distinct by dimension, columns, settings and seed."
)
ASSUMPTIONS = ["numpy's normal generator is sound; each statistic is compared at seven standard errors or a p-value of 1e-9"]


def sample_size_tests(ctx, x, mean, cov, what):
    """x against a Gaussian of known mean and covariance: bounds at seven standard errors."""
    n, k = x.shape
    sd = np.sqrt(np.diag(cov))
    z = np.abs(x.mean(axis=0) - mean) / (sd / np.sqrt(n))
    ctx.check_that(z.max() <= 7, f"{what}: a mean is not the one asked for", errors=z, mean=x.mean(axis=0), want=mean)
    d = x - mean
    c = d.T @ d / n
    se = np.sqrt((np.outer(sd**2, sd**2) + cov**2) / n)
    ctx.check_that((np.abs(c - cov) / se).max() <= 7, f"{what}: a covariance is not the one asked for", got=c, want=cov)
    white = np.linalg.solve(np.linalg.cholesky(cov), d.T)
    m = min(n, 60000)
    for row in white:
        ctx.check_that(kstest(row[:m], "norm").pvalue > 1e-9, f"{what}: the samples are not Gaussian", p=kstest(row[:m], "norm").pvalue)
        lag = float(np.mean(row[1:] * row[:-1]))
        ctx.check_that(abs(lag) <= 7 / np.sqrt(n - 1), f"{what}: a row depends on the one before it", correlation=lag)
    if n <= 100000:
        ctx.check_that(len(np.unique(x[:, 0])) == n, f"{what}: rows are repeated", distinct=len(np.unique(x[:, 0])), rows=n)


def covariance(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 8))
    a = rng.normal(size=(k, k))
    cor = a @ a.T / k + rng.choice([0.02, 0.3, 3]) * np.eye(k)
    cor = cor / np.sqrt(np.outer(np.diag(cor), np.diag(cor)))
    if np.linalg.cond(cor) > 1e5:
        cor = 0.9 * cor + 0.1 * np.eye(k)
    sd = 10 ** rng.uniform(-2.5, 2.5, size=k)
    if rng.uniform() < 0.3:
        sd[:] = 1.0
    sd = sd * (10 ** rng.uniform(-8, 8) if rng.uniform() < 0.4 else 1.0)
    cov = cor * np.outer(sd, sd)
    mean = sd * rng.choice([0.0, 1, -1, 30, -300], size=k) * rng.uniform(0.3, 1, size=k)
    names = gen.names(rng, k)
    kw = {}
    if rng.uniform() < 0.4:
        kw["color"] = str(rng.choice(["#123456", "red", "b"]))
    if rng.uniform() < 0.4:
        kw["walkers"] = int(rng.choice([2, 4, 5]))
    if rng.uniform() < 0.4:
        kw["statistics"] = list(S)[int(rng.integers(5))]
    if rng.uniform() < 0.3:
        kw.update(kde=0.7, bins=21, shade_alpha=0.25, linestyle="--", plot_cloud=True)
    if rng.uniform() < 0.3:
        kw.update(num_free_params=k, num_eff_data_points=40)
    shift = bool(rng.uniform() < 0.25)
    if shift:
        kw["shift_params"] = True
    name = str(rng.choice(["Fisher", "forecast é", "c 1"]))
    as_list = bool(rng.uniform() < 0.5)
    ctx.describe(columns=names, mean=mean, spread=sd, settings=kw, lists=as_list)
    mean0, cov0 = mean.copy(), cov.copy()
    args = (mean.tolist(), cov.tolist()) if as_list else (mean, cov)
    if rng.uniform() < 0.5:
        chain = Chain.from_covariance(*args, names, name, **kw)
    else:
        chain = Chain.from_covariance(mean=args[0], covariance=args[1], columns=names, name=name, **kw)
    ctx.check_that(np.array_equal(mean, mean0) and np.array_equal(cov, cov0), "the caller's mean or covariance was changed")
    ctx.check_that(chain.name == name and chain.data_columns == names, "the chain does not have the name or the columns asked for", got=(chain.name, chain.data_columns), want=(name, names))
    ctx.check_that([c for c in chain.samples.columns if c != "weight"] == names and np.all(chain.weights == 1), "the chain has other columns, or weights", got=list(chain.samples.columns))
    for key, v in kw.items():
        got = getattr(chain, key)
        ctx.check_that(got == v if key != "color" else got == Chain(samples=chain.samples[:2], name="r", color=v).color, "a setting was not passed on", setting=key, got=got, want=v)
    x = chain.samples[names].to_numpy()
    ctx.check_that(len(x) >= 1000, "hardly any samples", rows=len(x))
    if shift:
        ctx.check_that(np.all(np.abs(x.mean(axis=0)) <= 1e-6 * sd), "the shifted chain is not centred", mean=x.mean(axis=0))
        n = len(x)
        c = x.T @ x / n
        se = np.sqrt((np.outer(sd**2, sd**2) + cov**2) / n)
        ctx.check_that((np.abs(c - cov) / se).max() <= 7, "a covariance is not the one asked for", got=c, want=cov)
    else:
        sample_size_tests(ctx, x, mean, cov, "from_covariance")
        got = chain.get_covariance()
        se = np.sqrt((np.outer(sd**2, sd**2) + cov**2) / len(x))
        ctx.check_that(list(got.columns) == names and (np.abs(got.matrix - cov) / se).max() <= 7.5, "the covariance reported is not the one asked for", got=got.matrix, want=cov)
    if rng.uniform() < 0.3:
        one = ChainConsumer().add_chain(Chain(samples=chain.samples, name="s", statistics=S.CUMULATIVE)).analysis.get_summary()["s"]
        for i, c in enumerate(names):
            b, m = one[c], 0.0 if shift else mean[i]
            ctx.check_that(abs(b.center - m) <= 0.05 * sd[i] and abs((b.upper - b.lower) / (2 * sd[i]) - 1) <= 0.06, "the summary is not that of the Gaussian asked for", column=c, bound=(b.lower, b.center, b.upper), mean=m, spread=sd[i])
        ctx.count("summaries")
    other = Chain.from_covariance(*args, names, name) if rng.uniform() < 0.3 else None
    if other is not None:
        ctx.check_that(not np.array_equal(other.samples[names].to_numpy()[:50], x[:50]), "two chains share their samples")
        ctx.count("second chains")
    ctx.count("chains from a covariance")
    ctx.distinct("covariance", tuple(names), tuple(kw), round(float(sd[0]), 3))


def example(ctx):
    rng = ctx.rng
    k = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 16, 26]))
    n = int(10 ** rng.uniform(3, 4.8)) if rng.uniform() < 0.9 else int(rng.integers(1, 4))
    seed = int(rng.integers(0, 2**31)) if rng.uniform() < 0.9 else None
    rm = bool(rng.uniform() < 0.4)
    kw = {}
    if k != 2 or rng.uniform() < 0.5:
        kw["num_dimensions"] = k
    if seed is not None:
        kw["seed"] = seed
    if rm:
        kw["randomise_mean"] = True
    kw["num_points"] = n
    ctx.describe(**kw)
    np.random.seed(int(rng.integers(2**31)))
    state = np.random.get_state()[1].copy()
    try:
        df = make_sample(**kw)
    except np.linalg.LinAlgError:
        ctx.count("the random covariance was singular")
        return
    if seed is not None:
        ctx.check_that(np.array_equal(state, np.random.get_state()[1]), "a seeded sample draws from numpy's global generator")
    cols = list(string.ascii_uppercase[:k])
    if not ctx.check_that(len(df) == n and list(df.columns) == [*cols, "log_posterior"], "wrong number of rows, or other columns", rows=len(df), want=n, columns=list(df.columns)):
        return
    if seed is not None:
        np.random.seed(int(rng.integers(2**31)))
        pd.testing.assert_frame_equal(make_sample(**kw), df) if make_sample(**kw).equals(df) else ctx.fail("the same seed does not give the same frame", **kw)
        ctx.count("repeated with the seed")
        try:
            more = make_sample(**{**kw, "seed": seed + 1})
        except np.linalg.LinAlgError:
            more = None
        ctx.check_that(more is None or not more.equals(df), "another seed gives the same frame")
    else:
        try:
            ctx.check_that(not make_sample(**kw).equals(df), "without a seed the same frame comes back")
        except np.linalg.LinAlgError:
            ctx.count("the random covariance was singular")
    x, lp = df[cols].to_numpy(), df["log_posterior"].to_numpy()
    ctx.check_that(np.all(np.isfinite(x)) and np.all(np.isfinite(lp)), "not finite")
    base = 5.0 * np.arange(k)
    if n < 50:
        if not rm:
            ctx.check_that(np.all(np.abs(x - base) <= 7), "a mean is not 0, 5, 10, ...", got=x[0])
        ctx.count("small frames")
        return
    # log density = a + b.y + y.Q.y exactly, whatever the covariance
    y = x - base
    iu = np.triu_indices(k)
    m = min(n, 3000)
    top = np.linalg.svd(y[:m] - y[:m].mean(axis=0), compute_uv=False)
    if top[-1] < 3e-3 * top[0]:
        ctx.count("all but singular")
        return
    design = np.column_stack([np.ones(m), y[:m], y[:m][:, iu[0]] * y[:m][:, iu[1]]])
    scale = np.sqrt((design**2).mean(axis=0))
    if m < 3 * design.shape[1]:
        return
    beta = np.linalg.lstsq(design / scale, lp[:m], rcond=None)[0] / scale
    off = np.abs(design @ beta - lp[:m]).max()
    ctx.check_that(off <= 1e-6 * (1 + np.abs(lp[:m]).max()), "the log posterior is not a log Gaussian density of the rows", off=off)
    q = np.zeros((k, k))
    q[iu] = beta[1 + k :]
    prec = -(q + q.T)
    cov = np.linalg.inv(prec)
    mu = cov @ beta[1 : 1 + k]
    ctx.check_that(np.all(np.abs(np.diag(cov) - 1) <= 1e-4), "the variances are not one", got=np.diag(cov))
    ctx.check_that(np.all(np.abs(mu) <= (1.0001 if rm else 1e-4)), "the log posterior does not peak at 0, 5, 10, ...", off=mu)
    if rm:
        ctx.check_that(np.abs(mu).max() > 1e-6 and (k == 1 or len(np.unique(np.round(mu, 6))) == k), "the means are not random", off=mu)
        ctx.count("random means")
    norm = -0.5 * (k * np.log(2 * np.pi) + np.linalg.slogdet(cov)[1] + mu @ prec @ mu)
    ctx.check_that(abs(norm - beta[0]) <= 1e-4 * (1 + abs(norm)), "the log density is not normalised", constant=beta[0], want=norm)
    sample_size_tests(ctx, y, mu, 0.5 * (cov + cov.T), "make_sample")
    if n > 2000 and k <= 5:
        p = Chain(samples=df, name="c").get_max_posterior_point()
        i = int(np.argmax(lp))
        ctx.check_that(p.log_posterior == lp[i] and all(p.coordinate[c] == x[i, j] for j, c in enumerate(cols)) and np.abs((x[i] - base - mu) @ prec @ (x[i] - base - mu)) <= 10 * k, "the maximum posterior of the example is not its best row")
    ctx.count("example frames")
    ctx.distinct("example", k, n, seed, rm)


CASES = {"covariance": (covariance, 60, 1200), "example": (example, 350, 12000)}
REQUIRED = {"chains from a covariance": 55, "example frames": 200, "repeated with the seed": 200, "random means": 60}
