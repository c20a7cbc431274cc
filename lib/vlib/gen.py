"""Generators of chains: distributions, weights, row labels and column names a user could bring."""
from __future__ import annotations

import numpy as np
import pandas as pd

NAMES = ["x", "omega_m", "$\\alpha$", "H0", "w 0", "β", "A", "b_2", "σ8", "$\\Omega_m$", "z", "tau", "P(k)", "n.s", "Δ", "log_m_star", "$H_0$ [km/s]", "q 50%"]

# Shapes whose density is smooth and has a single interior peak
SMOOTH_UNIMODAL = ["normal", "gamma", "beta", "student", "skew", "logistic"]
# Shapes cut off at an edge
CUT = ["uniform", "exponential", "halfnormal", "truncnormal"]
MULTI = ["bimodal", "trimodal"]


def base_shape(rng, n: int, kind: str) -> np.ndarray:
    """Samples of order one."""
    if kind == "normal":
        return rng.normal(size=n)
    if kind == "gamma":
        return rng.gamma(rng.uniform(3, 10), size=n) / 3
    if kind == "beta":
        a, b = rng.uniform(2.5, 6, size=2)
        return 4 * rng.beta(a, b, size=n)
    if kind == "student":
        return rng.standard_t(8, size=n)
    if kind == "skew":
        a = rng.uniform(-4, 4)
        d = a / np.sqrt(1 + a * a)
        u, v = rng.normal(size=(2, n))
        return d * np.abs(u) + np.sqrt(1 - d * d) * v
    if kind == "logistic":
        return rng.logistic(size=n) * 0.6
    if kind == "uniform":
        return rng.uniform(-1, 1, size=n)
    if kind == "exponential":
        return rng.exponential(size=n) * rng.choice([-1, 1])
    if kind == "halfnormal":
        return np.abs(rng.normal(size=n)) * rng.choice([-1, 1])
    if kind == "truncnormal":
        x = rng.normal(size=int(n * 8) + 50)
        c = rng.uniform(-0.7, 0.7)
        x = x[x > c]
        return x[:n]
    if kind == "bimodal":
        sep = rng.uniform(6, 10)
        f = rng.uniform(0.35, 0.65)
        s = rng.uniform(0.7, 1.3)
        return np.where(rng.uniform(size=n) < f, rng.normal(size=n), sep + s * rng.normal(size=n))
    if kind == "trimodal":
        k = rng.choice(3, p=[0.35, 0.33, 0.32], size=n)
        return k * rng.uniform(7, 9) + rng.normal(size=n)
    raise KeyError(kind)


def loc_scale(rng, extreme: bool = True) -> tuple[float, float]:
    # one in seven in units far from one: electronvolts in joules, parsecs in metres
    span = (15 if rng.uniform() < 1 / 7 else 4) if extreme else 1.5
    scale = float(10 ** rng.uniform(-span, span))
    loc = float(rng.choice([0, 0, 1, -1, 30, -300]) * rng.uniform(0.3, 1) * scale)
    return loc, scale


def shape(rng, n: int, kind: str, extreme: bool = True) -> np.ndarray:
    loc, scale = loc_scale(rng, extreme)
    return loc + scale * base_shape(rng, n, kind)


def weights(rng, n: int, kind: str | None = None) -> tuple[str, np.ndarray | None]:
    """Weights that do not depend on the samples: the weighted distribution is the one sampled from."""
    kind = kind or str(rng.choice(["none", "uniform", "integer", "exponential", "tiny", "huge", "mixed"]))
    if kind == "none":
        return kind, None
    if kind == "uniform":
        return kind, rng.uniform(0.1, 1, size=n)
    if kind == "integer":
        return kind, rng.integers(1, 6, size=n).astype(float)
    if kind == "exponential":
        return kind, rng.exponential(size=n) + 1e-6
    if kind == "tiny":
        return kind, 1e-9 * rng.uniform(0.2, 1, size=n)
    if kind == "huge":
        return kind, 1e8 * rng.uniform(0.2, 1, size=n)
    if kind == "mixed":
        return kind, np.where(rng.uniform(size=n) < 0.5, 0.05, 1.0)
    raise KeyError(kind)


def tilted(rng, x, kind: str | None = None) -> tuple[str, np.ndarray | None]:
    """Weights that move the distribution of x: what they say matters."""
    kind = kind or str(rng.choice(["none", "tilt", "side", "tilt"]))
    if kind == "none":
        return kind, None
    z = (x - np.mean(x)) / np.std(x) * rng.choice([-1, 1])
    s = 10 ** rng.uniform(-6, 6)
    if kind == "tilt":
        return kind, s * np.exp(0.7 * np.clip(z, -2.5, 2.5)) * rng.uniform(0.7, 1, size=len(x))
    return kind, s * np.where(z > 0, 1.0, 0.3)


INDEX_KINDS = ["range", "offset", "shuffled", "strided", "strings", "duplicated", "floats", "reversed"]


def index(rng, n: int, kind: str | None = None) -> tuple[str, object]:
    """Row labels: what slicing, filtering, shuffling or concatenating leaves behind."""
    kind = kind or str(rng.choice(INDEX_KINDS))
    if kind == "range":
        return kind, pd.RangeIndex(n)
    if kind == "offset":
        return kind, pd.RangeIndex(n) + int(rng.integers(1, 5000))
    if kind == "shuffled":
        return kind, rng.permutation(n)
    if kind == "strided":
        return kind, np.arange(n) * int(rng.integers(2, 9))
    if kind == "strings":
        return kind, [f"row{i}" for i in rng.permutation(n)]
    if kind == "duplicated":
        return kind, np.arange(n) % max(1, n // 2)
    if kind == "floats":
        return kind, np.sort(rng.uniform(size=n))
    if kind == "reversed":
        return kind, np.arange(n)[::-1]
    raise KeyError(kind)


# Some contain, extend or differ only in case from others, or look like a column, a position or a colour
CHAINS = ["c1", "c10", "c", "C1", "Planck", "Planck + BAO", "BAO", "$\\Lambda$CDM", "run_2", "run_20", "0", "2", "x", "A", "a", "weight", "r", "None", "été 1", "chain", "chain 1"]


def chain_names(rng, k: int) -> list[str]:
    return [str(x) for x in rng.choice(CHAINS, size=k, replace=False)]


def names(rng, k: int) -> list[str]:
    return [str(x) for x in rng.choice(NAMES, size=k, replace=False)]


def correlated(rng, n: int, k: int) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
    """Gaussian samples with a random well-conditioned correlation; returns samples, mean, covariance."""
    a = rng.normal(size=(k, k))
    cov = a @ a.T / k + 0.4 * np.eye(k)
    d = np.sqrt(np.diag(cov))
    cov = cov / np.outer(d, d)
    scales = 10 ** rng.uniform(-2, 2, size=k)
    cov = cov * np.outer(scales, scales)
    mean = rng.normal(size=k) * scales * 3
    return rng.multivariate_normal(mean, cov, size=n, method="cholesky"), mean, cov


def stored(rng, v):
    """The same values in another of the types numbers are stored in."""
    v = np.asarray(v)
    if v.dtype != np.float64 or rng.uniform() < 0.5 or not np.all(np.isfinite(v)):
        return v
    whole = len(v) > 0 and np.all(v == np.round(v)) and np.abs(v).max() < 2**52
    if whole:
        top = np.abs(v).max()
        low = v.min()
        fits = [t for t, m in (("int64", 2**52), ("int32", 2**31 - 1), ("int16", 2**15 - 1), ("int8", 127), ("uint8", 255)) if top < m and (low >= 0 or t[0] != "u")]
        return v.astype(str(rng.choice(fits)))
    s = v.astype(np.float32)
    return s if np.array_equal(s.astype(np.float64), v) else v


def single(v):
    """Rounded to single precision: frame() may then store it so."""
    return np.asarray(v, dtype=np.float32).astype(np.float64)


def frame(rng, data: dict[str, np.ndarray], w=None, logp=None, idx=None, weight_name="weight", post_name="log_posterior"):
    cols = dict(data)
    if w is not None:
        cols[weight_name] = w
    if logp is not None:
        cols[post_name] = logp
    order = list(cols)
    if rng.uniform() < 0.4:
        rng.shuffle(order)
    df = pd.DataFrame({c: stored(rng, cols[c]) for c in order})
    if idx is not None:
        df.index = idx
    return df


def wquantile(x, w, q):
    """Weighted empirical quantile (inverse of the step CDF)."""
    x = np.asarray(x, float)
    w = np.ones_like(x) if w is None else np.asarray(w, float)
    o = np.argsort(x, kind="stable")
    c = np.cumsum(w[o])
    c /= c[-1]
    return x[o][np.minimum(np.searchsorted(c, q), len(x) - 1)]


def mass_below(x, w, v) -> float:
    w = np.ones(len(x)) if w is None else w
    return float(np.sum(w[x <= v]) / np.sum(w))


def mass_in(x, w, lo, hi) -> float:
    w = np.ones(len(x)) if w is None else w
    return float(np.sum(w[(x >= lo) & (x <= hi)]) / np.sum(w))


def neff(w, n) -> float:
    return float(n) if w is None else float(np.sum(w) ** 2 / np.sum(w * w))


def chain(rng, drawn: bool = False, extra: bool = False, **kw):
    """A chain as asked for, half of the time with further things that say nothing about its distribution.

    Its weights and log posterior have other names, it counts walkers, parameters and data, has more columns (extra)
    or, unless it is drawn, other ways of being drawn."""
    from chainconsumer import Chain

    r = np.random.default_rng(int(rng.integers(2**31)))
    if r.uniform() < 0.4:
        return Chain(**kw)
    df = kw["samples"]

    def some(p):
        return bool(r.uniform() < p)

    colour = kw.get("color_param")
    for column, setting, other in (("weight", "weight_column", ["w8", "Weight", "mult", "weight "]), ("log_posterior", "posterior_column", ["lnprob", "log post", "like"])):
        new = str(r.choice(other))
        if column in df.columns and setting not in kw and colour != column and new not in df.columns and some(0.4):
            df = df.rename(columns={column: new})
            kw[setting] = new
    n = len(df)
    if "walkers" not in kw and some(0.4):
        kw["walkers"] = int(r.choice([d for d in range(1, min(n, 60) + 1) if n % d == 0]))
    if "num_free_params" not in kw and some(0.3):
        kw["num_free_params"] = int(r.integers(1, 9))
    if "num_eff_data_points" not in kw and some(0.3):
        kw["num_eff_data_points"] = float(r.integers(20, 900))
    if extra and some(0.25):
        more = {f"extra {j}": r.normal(size=n) * 10.0**j for j in range(int(r.integers(1, 7)))}
        if "log_posterior" not in df.columns and "posterior_column" not in kw and some(0.5):
            more["log_posterior"] = -r.exponential(size=n)
        df = pd.concat([df, pd.DataFrame(more, index=df.index)], axis=1)
        df = df[[str(c) for c in r.permutation(list(df.columns))]]
    if not drawn and some(0.4):
        looks = dict(color="#804020", linestyle="--", linewidth=2.5, plot_cloud=True, plot_contour=False, plot_point=True, num_cloud=50, marker_size=3.0, sigmas=[0, 1], shade=False, shade_alpha=0.2, bar_shade=True, shade_gradient=0.5, show_label_in_legend=False, show_contour_labels=True, zorder=3)
        for k, v in looks.items():
            if k not in kw and some(0.3):
                kw[k] = v
    kw["samples"] = df
    return Chain(**kw)


def fashion(rng, n: int) -> dict:
    """Settings that shape a curve but say nothing about where it is drawn, and how."""
    from chainconsumer.statistics import SummaryStatistic

    kw: dict = {}
    if rng.uniform() < 0.5:
        return kw
    if n <= 5000 and rng.uniform() < 0.3:
        kw["kde"] = [True, 0.6, 1.4][int(rng.integers(3))]
    if rng.uniform() < 0.3:
        kw["power"] = float(rng.choice([0.6, 1.0, 1.7]))
    if rng.uniform() < 0.4:
        kw["smooth"] = int(rng.choice([0, 1, 3]))
    if rng.uniform() < 0.3:
        kw["bins"] = int(rng.integers(7, 50))
    if rng.uniform() < 0.4:
        kw["statistics"] = list(SummaryStatistic)[int(rng.integers(5))]
    if rng.uniform() < 0.3:
        kw["summary_area"] = float(rng.choice([0.3, 0.5, 0.9545]))
    if rng.uniform() < 0.2:
        kw["multimodal"] = True
        kw["statistics"] = SummaryStatistic.HDI
    if rng.uniform() < 0.3:
        kw["histogram_relative_height"] = float(rng.uniform(0.4, 1.5))
    return kw
