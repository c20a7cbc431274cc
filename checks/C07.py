"""Fault-injected constructions judged by a reference predicate of what a valid chain is."""
import numpy as np
import pandas as pd
from chainconsumer import Chain
from chainconsumer.statistics import SummaryStatistic as S

from vlib import gen

ID = "C07"
TITLE = "Chain validation"
RULE = (
    "Each case builds a random valid frame and option set (1-6 columns, 1-400 rows and now and then up to 250000, float or integer columns, renamed weight and posterior columns, reserved names in any case, "
    "boundary values of every option), then injects no fault, or one of 26 kinds at a random row and column; construction must fail exactly when a fault was injected, and a "
    "constructed chain must have the documented columns, weights and statistic. Distinct by fault, position class and option set."
)
RESERVED = ["weight", "weights", "posterior", "posteriors", "log_weights", "log_posterior", "log_posteriors"]
# ordinary parameters, however much their names look like something else
LOOKALIKES = ["likelihood", " weight", "weight ", "my weight", "log_likelihood", "log_prior", "posterior_x", "logweights", "weight_2", "index", "level_0", "samples", "name", "nan", "0", "x.y", "2e5", "True", "log posterior", "w"]
FAULTS = [
    "nan", "inf", "-inf", "nan weight", "inf weight", "nan posterior", "zero weight", "negative weight", "empty", "int column", "tuple column", "walkers", "walkers 0",
    "missing weight", "missing color", "area low", "area high", "marker size", "height", "free params", "free params inf", "data points", "data points nan", "data points inf", "multimodal", "color",
]


def build(rng):
    n = int(rng.choice([1, 2, 3, 12, 60, 120, 400]))
    if rng.uniform() < 0.06:
        n = int(rng.choice([5000, 40000, 120000, 250000]))
    k = int(rng.integers(1, 7))
    names = gen.names(rng, k)
    data = {}
    for nm in names:
        kind = rng.uniform()
        v = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
        if kind < 0.15:
            v = rng.integers(-5, 5, size=n)
        elif kind < 0.25:
            v = v * float(rng.choice([1e-300, 1e290]))
        elif kind < 0.3:
            v = v.astype(np.float32)
        data[nm] = v
    opts, wname, pname = {}, None, None
    if rng.uniform() < 0.6:
        wname = str(rng.choice(["weight", "w", "my weight"]))
        data[wname] = rng.exponential(size=n) * float(10 ** rng.uniform(-200, 5)) + 1e-280
        if rng.uniform() < 0.2:
            data[wname] = rng.integers(1, 9, size=n)
        if wname != "weight":
            opts["weight_column"] = wname
    if rng.uniform() < 0.5:
        pname = str(rng.choice(["log_posterior", "lnp", "logL"]))
        data[pname] = -rng.exponential(size=n) * 50
        if pname != "log_posterior":
            opts["posterior_column"] = pname
    extra = []
    if rng.uniform() < 0.3:
        for nm in rng.permutation([r for r in RESERVED if r not in data and r != "weight"])[: rng.integers(1, 3)]:
            nm = str(nm)
            if rng.uniform() < 0.5:
                nm = nm.upper() if rng.uniform() < 0.5 else nm.capitalize()
            data[nm] = rng.uniform(size=n)
            extra.append(nm)
    if rng.uniform() < 0.3:
        for nm in rng.permutation([r for r in LOOKALIKES if r not in data])[: rng.integers(1, 4)]:
            data[str(nm)] = rng.uniform(size=n)
    order = list(data)
    rng.shuffle(order)
    df = pd.DataFrame({c: data[c] for c in order}, index=gen.index(rng, n)[1])
    pick = {
        "walkers": lambda: int(rng.choice([d for d in range(1, n + 1) if n % d == 0])),
        "summary_area": lambda: float(rng.choice([0.0, 1.0, 0.5])),
        "marker_size": lambda: float(rng.choice([1.0, 400.0])),
        "histogram_relative_height": lambda: float(rng.choice([0.0, 2.0])),
        "num_free_params": lambda: int(rng.choice([0, 7])),
        "num_eff_data_points": lambda: float(rng.choice([0.0, 33.5])),
        "grid": lambda: bool(rng.uniform() < 0.5),
        "color_param": lambda: str(rng.choice(order)),
        "plot_cloud": lambda: bool(rng.uniform() < 0.5),
        "plot_point": lambda: True,
        "color": lambda: str(rng.choice(["red", "#123456", "e"])),
        "power": lambda: 2.0,
        "bins": lambda: 20,
        "smooth": lambda: 0,
        "kde": lambda: 0.7,
        "sigmas": lambda: [0, 3],
        "show_label_in_legend": lambda: False,
    }
    for o, f in pick.items():
        if rng.uniform() < 0.2:
            opts[o] = f()
    r = rng.uniform()
    if r < 0.3:
        opts["statistics"] = list(S)[int(rng.integers(5))]
    elif r < 0.5:
        opts["multimodal"] = True
        if rng.uniform() < 0.5:
            opts["statistics"] = S.HDI
    return df, opts, names, wname, pname, extra


def inject(rng, fault, df, opts, names, wname, pname):
    """Returns the faulty frame and options, or None if this fault has no place here."""
    df, opts = df.copy(), dict(opts)
    n = len(df)
    i = int(rng.choice([0, n - 1, rng.integers(n)]))

    def put(col, v):
        a = df[col].to_numpy().astype(float)
        a[i] = v
        df[col] = a

    if fault in ("nan", "inf", "-inf"):
        put(str(rng.choice(names)), float(fault))
    elif fault in ("nan weight", "inf weight", "zero weight", "negative weight"):
        if wname is None:
            return None
        put(wname, {"nan weight": np.nan, "inf weight": np.inf, "zero weight": 0.0, "negative weight": -1e-9}[fault])
    elif fault == "nan posterior":
        if pname is None:
            return None
        put(pname, float(rng.choice([np.nan, -np.inf, np.inf])))
    elif fault == "empty":
        df = df.iloc[:0]
        opts.pop("walkers", None)
    elif fault == "int column":
        df = df.rename(columns={str(rng.choice(names)): 3})
        opts.pop("color_param", None)
    elif fault == "tuple column":
        c = str(rng.choice(names))
        df.columns = pd.Index([("a", "b") if x == c else x for x in df.columns], tupleize_cols=False)
        opts.pop("color_param", None)
    elif fault == "walkers":
        bad = [d for d in range(2, n + 3) if n % d]
        if not bad:
            return None
        opts["walkers"] = int(rng.choice(bad))
    elif fault == "walkers 0":
        opts["walkers"] = int(rng.choice([0, -1, -n]))
    elif fault == "missing weight":
        opts["weight_column"] = "not there"
    elif fault == "missing color":
        opts["color_param"] = "not there"
    elif fault == "area low":
        opts["summary_area"] = -1e-6
    elif fault == "area high":
        opts["summary_area"] = float(rng.choice([1.000001, 68.27]))
    elif fault == "marker size":
        opts["marker_size"] = float(rng.choice([0.99, 0.0, -3]))
    elif fault == "height":
        opts["histogram_relative_height"] = -0.01
    elif fault == "free params":
        opts["num_free_params"] = -1
    elif fault == "free params inf":
        opts["num_free_params"] = float(rng.choice([np.inf, np.nan]))
    elif fault == "data points":
        opts["num_eff_data_points"] = -0.5
    elif fault == "data points nan":
        opts["num_eff_data_points"] = np.nan
    elif fault == "data points inf":
        opts["num_eff_data_points"] = np.inf
    elif fault == "multimodal":
        opts["multimodal"] = True
        opts["statistics"] = [s for s in S if s is not S.HDI][int(rng.integers(4))]
    elif fault == "color":
        opts["color"] = str(rng.choice(["blurple", "tab:blue", "reddish", "dark red"]))
    return df, opts


def case(ctx):
    rng = ctx.rng
    df, opts, names, wname, pname, extra = build(rng)
    fault = None if rng.uniform() < 0.45 else str(rng.choice(FAULTS))
    if fault is not None:
        res = inject(rng, fault, df, opts, names, wname, pname)
        if res is None:
            fault = None
        else:
            df, opts = res
    ctx.describe(fault=fault, rows=len(df), columns=[str(c) for c in df.columns], options=opts)
    ctx.distinct(fault, len(df), len(df.columns), tuple(sorted(opts)), tuple(extra))
    before = df.copy()
    chain, err = None, None
    try:
        chain = Chain(samples=df, name="c", **opts)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.check_that(df.equals(before) and list(df.columns) == list(before.columns), "construction changed the user's frame")
    if fault is not None:
        ctx.count("faults injected")
        if len(df) > 1000:
            ctx.count("faults in long chains")
        ctx.count(f"fault {fault}")
        ctx.check_that(err is not None, f"an invalid chain was accepted: {fault}", options=opts, rows=len(df))
        return
    if not ctx.check_that(err is None, "a valid chain was rejected", error=str(err)[:300], options=opts, rows=len(df)):
        return
    ctx.count("valid chains")
    if set(LOOKALIKES) & set(df.columns):
        ctx.count("names that look reserved")
    w = np.ones(len(df)) if wname is None else df[wname].to_numpy()
    ctx.check_that(np.array_equal(chain.weights, w), "weights are not those given, or ones", got=chain.weights, want=w)
    skip = {opts.get("weight_column", "weight"), opts.get("posterior_column", "log_posterior"), *extra}
    want = [c for c in df.columns if c not in skip and c.lower() not in RESERVED]
    ctx.check_that(list(chain.data_columns) == want, "the parameters are not the remaining columns in order", got=list(chain.data_columns), want=want)
    ctx.check_that(list(chain.data_samples.columns) == want and len(chain.data_samples) == len(df), "data_samples does not hold the parameters")
    ctx.check_that(all(np.array_equal(chain.samples[c].to_numpy(), df[c].to_numpy()) for c in df.columns), "the samples are not those given")
    plotting = [c for c in want if not (opts.get("plot_cloud") and c == opts.get("color_param"))]
    ctx.check_that(list(chain.plotting_columns) == plotting, "the plotted columns are wrong", got=list(chain.plotting_columns), want=plotting)
    if pname is None and opts.get("posterior_column", "log_posterior") not in df.columns:
        ctx.check_that(chain.log_posterior is None, "a posterior out of nowhere")
    else:
        col = opts.get("posterior_column", "log_posterior")
        ctx.check_that(np.array_equal(chain.log_posterior, df[col].to_numpy()), "log posterior is not the column given")
    stat = opts.get("statistics") or (S.HDI if opts.get("multimodal") else S.MAX)
    ctx.check_that(chain.statistics is stat, "wrong default statistic", got=chain.statistics, want=stat)
    if "color_param" in opts:
        ctx.check_that(np.array_equal(chain.color_data, chain.samples[opts["color_param"]].to_numpy()), "colour values are not those of the colour parameter")
    for o, v in opts.items():
        if o not in ("color", "statistics"):
            ctx.check_that(getattr(chain, o) == v, f"option {o} is not the value given", got=getattr(chain, o), want=v)
    # a chain holds its own copy
    df.iloc[:, 0] = -77
    ctx.check_that(np.array_equal(chain.samples[before.columns[0]].to_numpy(), before.iloc[:, 0].to_numpy()), "the chain shares the user's frame")


CASES = {"chains": (case, 6000, 150000)}
REQUIRED = {"faults injected": 1500, "valid chains": 1000, "names that look reserved": 200, **{f"fault {f}": 20 for f in FAULTS}}
BATCH = 100
