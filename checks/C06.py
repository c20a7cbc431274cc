"""Random histories of public calls: nothing the user gave changes, and every result is that of a fresh replica."""
import copy

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConfig, ChainConsumer, PlotConfig, Truth
from chainconsumer.plotting import plot_contour, plot_dist, plot_surface
from chainconsumer.statistics import SummaryStatistic as S

from vlib import figs, gen

ID = "C06"
TITLE = "purity and history independence"
RULE = (
    'Each case is a random history of 9 public calls (summaries, tables, criteria, diagnostics, matrices, divide, six kinds of plot) on two to '
    'four chains, interleaved with legitimate changes of state (override, plot config, truth, removal and re-adding of a name with other data). '
    "Around each call the user's frames, every argument, the stored chains, truths, config and override are compared with deep snapshots; each "
    'result is compared exactly with the same call on a consumer freshly built in the present state. Another kind gives chains large frames in '
    "every memory layout and changes the frame afterwards; another compares a chain's results alone and among others. Distinct by the sequence of "
    'calls.'
)


def same(a, b) -> bool:
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        return (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns)
                and list(a.index) == list(b.index) and all(np.array_equal(a[c].to_numpy(), b[c].to_numpy()) and a[c].dtype == b[c].dtype for c in a.columns))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list | tuple):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, set):
        return a == b
    if hasattr(a, "model_dump"):
        return type(a) is type(b) and same(a.model_dump(), b.model_dump()) and a._user_specified == b._user_specified
    return a == b or (isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b))


def snap(v):
    if isinstance(v, pd.DataFrame):
        out = v.copy(deep=True)
        out.index = v.index.copy(deep=True)
        return out
    if hasattr(v, "model_dump"):
        return {k: snap(x) for k, x in v.model_dump().items()} | {"_user": set(v._user_specified)}
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, list | tuple):
        return type(v)(snap(x) for x in v)
    return copy.deepcopy(v)


class State:
    """What the user has set up, as the specification of a consumer."""

    def __init__(self, ctx):
        rng = self.rng = ctx.rng
        self.pool = gen.names(rng, 4)
        self.chains: dict[str, dict] = {}
        self.frames: list[pd.DataFrame] = []
        self.override: dict | None = None
        self.config: dict | None = None
        self.truths: list[dict] = []
        for name in gen.chain_names(rng, int(rng.integers(2, 5))):
            self.new_chain(name)
        if rng.uniform() < 0.5:
            self.new_override()
        if rng.uniform() < 0.6:
            self.new_config()
        if rng.uniform() < 0.7:
            self.new_truth()

    def new_chain(self, name):
        rng = self.rng
        n = 4 * int(rng.integers(200, 500))
        cols = [c for c in self.pool if rng.uniform() < 0.7] or self.pool[:2]
        data = {c: gen.base_shape(rng, n, str(rng.choice(gen.SMOOTH_UNIMODAL + ["bimodal"]))) * 3 + rng.uniform(2, 20) + 15 for c in cols}
        w = gen.weights(rng, n)[1]
        df = pd.DataFrame(data)
        if w is not None:
            df["weight"] = w
        if rng.uniform() < 0.7:
            df["log_posterior"] = -0.5 * sum(((v - v.mean()) / v.std()) ** 2 for v in data.values())
        df.index = gen.index(rng, n)[1]
        kw = dict(walkers=int(rng.choice([1, 2, 4])), bins=int(rng.integers(12, 25)))
        r = rng.uniform
        if r() < 0.3:
            kw["color"] = str(rng.choice(["r", "blue", "#12a07f"]))
        if r() < 0.4:
            kw["statistics"] = list(S)[int(rng.integers(5))]
        elif r() < 0.3:
            kw["multimodal"] = True
            kw["statistics"] = S.HDI
        if r() < 0.3:
            kw["smooth"] = int(rng.choice([0, 2]))
        if r() < 0.15:
            kw.update(kde=0.8, bins=6)
        if r() < 0.25:
            kw.update(plot_cloud=True, num_cloud=200)
            if r() < 0.6:
                kw["color_param"] = str(rng.choice(cols))
        if r() < 0.25 and "log_posterior" in df:
            kw["plot_point"] = True
        if r() < 0.3:
            kw["sigmas"] = [0, 1, 2, 3] if r() < 0.5 else [0, 1]
        if r() < 0.2:
            kw["histogram_relative_height"] = 0.5
        if r() < 0.2:
            kw["power"] = 2.0
        if r() < 0.25:
            kw["shift_params"] = True
        if r() < 0.6:
            kw.update(num_free_params=int(rng.integers(1, 5)), num_eff_data_points=int(rng.integers(50, 500)))
        if r() < 0.2:
            kw["show_contour_labels"] = True
        self.chains[name] = dict(samples=df, name=name, **kw)
        self.frames.append(df)

    def twin(self, name):
        """Other data of the same shape, with the same options, under the same name."""
        rng = self.rng
        spec = dict(self.chains[name])
        old = spec["samples"]
        cols = [c for c in old.columns if c not in ("weight", "log_posterior")]
        df = old.copy(deep=True)
        for c in [c for c in cols if rng.uniform() < 0.6] or cols[:1]:
            how = str(rng.choice(["shift", "shuffle", "mirror"]))
            v = old[c].to_numpy()
            df[c] = v + rng.uniform(1, 4) if how == "shift" else rng.permutation(v) if how == "shuffle" else v.max() + v.min() - v
        for c in ("weight", "log_posterior"):
            if c in df and rng.uniform() < 0.3:
                df[c] = old[c].to_numpy()[::-1].copy()
        spec["samples"] = df
        self.chains[name] = spec
        self.frames.append(df)

    def new_override(self):
        rng = self.rng
        opts = dict(summary_area=0.9, bins=int(rng.integers(10, 25)), shade_alpha=0.3, linewidth=2.0, linestyle="--", color="g", bar_shade=False, shade=False, sigmas=[0, 2], smooth=int(rng.choice([0, 1, 4])), kde=1.0, shift_params=True, num_cloud=100)
        keys = [k for k in opts if rng.uniform() < (0.1 if k in ("kde", "shift_params") else 0.25)]
        self.override = {k: opts[k] for k in keys}

    def new_config(self):
        rng = self.rng
        cols = self.pool
        opts = dict(
            labels={c: f"L{i}" for i, c in enumerate(cols)}, extents={cols[0]: (0.0, 60.0)}, blind=[cols[1]], log_scales=[cols[2]], flip=True, plot_hists=False,
            summarise=False, legend_kwargs={"fontsize": 9, "loc": "upper left"}, watermark="draft", watermark_text_kwargs={"color": "#ff0000"}, max_ticks=3, sigma2d=True, show_legend=True)
        self.config = {k: v for k, v in opts.items() if rng.uniform() < 0.25}

    def new_truth(self):
        rng = self.rng
        loc = {c: float(rng.uniform(5, 40)) for c in self.pool if rng.uniform() < 0.6} or {self.pool[0]: 10.0}
        named = {"name": str(rng.choice([*self.chains, "truth"]))} if rng.uniform() < 0.4 else {}
        self.truths.append(dict(**named, location=loc, color=str(rng.choice(["black", "red"])), **({"marker": "x"} if rng.uniform() < 0.3 else {})))

    def build(self, only=None):
        cc = ChainConsumer()
        for k, spec in self.chains.items():
            if only is None or k in only:
                cc.add_chain(Chain(**spec))
        if self.override is not None:
            cc.set_override(ChainConfig(**self.override))
        if self.config is not None:
            cc.set_plot_config(PlotConfig(**self.config))
        for t in self.truths:
            cc.add_truth(Truth(**t))
        return cc


def canon(v):
    if isinstance(v, plt.Figure):
        fp = figs.fingerprint(v)
        plt.close(v)
        return fp
    if hasattr(v, "model_dump"):
        return canon(v.model_dump())
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, list | tuple):
        return [canon(x) for x in v]
    return v


def standalone(kind):
    def call(cc, chain, cols):
        fig, ax = plt.subplots()
        c = cc.get_chain(chain)
        if kind == "dist":
            plot_dist(ax, c, cols[0])
        elif kind == "contour":
            plot_contour(ax, c, cols[0], cols[1])
        else:
            plot_surface(ax, [c], cols[0], cols[1])
        return fig
    return call


def calls(st, rng):
    """One random call: its name, the arguments (which the library must not change), and how to make it."""
    names = list(st.chains)
    every = {k: [c for c in s["samples"].columns if c not in ("weight", "log_posterior")] for k, s in st.chains.items()}
    k = str(rng.choice(names))
    sel = [str(x) for x in rng.permutation(names)[: rng.integers(1, len(names) + 1)]]
    shown = {c for n in sel for c in every[n] if c != st.chains[n].get("color_param")}
    cols = [str(x) for x in rng.permutation(sorted(shown))[:3]]
    if len(cols) < 2:
        cols, sel = None, None
    present = {c for n in names for c in every[n] if c != st.chains[n].get("color_param")}
    nothing = cols is None and not present
    two = cols[:2] if cols else sorted(shown)[:2] or None
    no_panel = len(two or present) < 2 and (st.config or {}).get("plot_hists") is False
    have_post = "log_posterior" in st.chains[k]["samples"]
    menu = {
        "get_summary": (dict(columns=cols), lambda cc, **a: cc.analysis.get_summary(**a)),
        "get_latex_table": (dict(chains=sel, columns=cols, transpose=bool(rng.uniform() < 0.5)), lambda cc, **a: cc.analysis.get_latex_table(**a)),
        "get_max_posteriors": (dict(chains=None if rng.uniform() < 0.5 else list(names)), lambda cc, **a: cc.analysis.get_max_posteriors(**a)),
        "get_correlation_table": (dict(chain=k, columns=list(every[k])), lambda cc, **a: cc.analysis.get_correlation_table(**a)),
        "get_covariance_table": (dict(chain=k), lambda cc, **a: cc.analysis.get_covariance_table(**a)),
        "aic": ({}, lambda cc: cc.comparison.aic()),
        "bic": ({}, lambda cc: cc.comparison.bic()),
        "dic": ({}, lambda cc: cc.comparison.dic()),
        "comparison_table": (dict(sort="dic"), lambda cc, **a: cc.comparison.comparison_table(**a)) if any("log_posterior" in s["samples"] for s in st.chains.values()) else None,
        "gelman_rubin": (dict(chains=[n for n in names if st.chains[n]["walkers"] > 1]), lambda cc, **a: cc.diagnostic.gelman_rubin(**a)) if any(s["walkers"] > 1 for s in st.chains.values()) else None,
        "divide": (dict(k=k), lambda cc, k: cc.get_chain(k).divide()) if st.chains[k]["walkers"] > 1 else None,
        "get_covariance": (dict(k=k), lambda cc, k: cc.get_chain(k).get_covariance()),
        "get_correlation": (dict(k=k), lambda cc, k: cc.get_chain(k).get_correlation()),
        "max_posterior_point": (dict(k=k), lambda cc, k: cc.get_chain(k).get_max_posterior_point()) if have_post else None,
        "get_names": ({}, lambda cc: cc.get_names()),
        "plot": (dict(chains=sel, columns=two), lambda cc, **a: cc.plotter.plot(**a)),
        "plot_walks": (dict(chains=sel, columns=cols, convolve=5, log_weight=bool(rng.uniform() < 0.5)), lambda cc, **a: cc.plotter.plot_walks(**a)),
        "plot_distributions": (dict(chains=sel, columns=cols), lambda cc, **a: cc.plotter.plot_distributions(**a)),
        "plot_summary": (dict(chains=sel, columns=cols, errorbar=bool(rng.uniform() < 0.4)), lambda cc, **a: cc.plotter.plot_summary(**a)),
        "plot_dist": (dict(k=k, c=every[k][:1]), lambda cc, k, c: standalone("dist")(cc, k, c)) if st.chains[k].get("color") else None,
        "plot_contour": (dict(k=k, c=every[k][:2]), lambda cc, k, c: standalone("contour")(cc, k, c)) if len(every[k]) > 1 else None,
        "plot_surface": (dict(k=k, c=every[k][:2]), lambda cc, k, c: standalone("surface")(cc, k, c)) if len(every[k]) > 1 else None,
    }
    # figures of several chains need at least one column to show
    menu = {a: b for a, b in menu.items() if b is not None and not (nothing and a in ("plot", "plot_walks", "plot_distributions", "plot_summary")) and not (no_panel and a == "plot")}
    heavy = [a for a in menu if a.startswith("plot")]
    light = [a for a in menu if a not in heavy]
    name = str(rng.choice(heavy if heavy and rng.uniform() < 0.4 else light))
    return name, *menu[name]


def history(ctx):
    rng = ctx.rng
    st = State(ctx)
    cc = st.build()
    originals = {k: cc.get_chain(k) for k in cc.get_names()}
    trace, last = [], None
    for _ in range(9):
        if rng.uniform() < 0.4:
            what = str(rng.choice(["override", "config", "truth", "replace", "twin", "twin", "remove", "frame"]))
            if what == "override":
                st.new_override()
                cc.set_override(ChainConfig(**st.override))
            elif what == "config":
                st.new_config()
                cc.set_plot_config(PlotConfig(**st.config))
            elif what == "truth":
                st.new_truth()
                cc.add_truth(Truth(**st.truths[-1]))
            elif what in ("replace", "twin"):
                k = str(rng.choice(list(st.chains)))
                cc.remove_chain(k)
                originals.pop(k)
                if what == "replace":
                    st.chains.pop(k)
                    st.new_chain(k)
                else:
                    st.twin(k)
                    # it is added last
                    st.chains[k] = st.chains.pop(k)
                    ctx.count("same shape under the same name")
                cc.add_chain(Chain(**st.chains[k]))
                originals[k] = cc.get_chain(k)
                ctx.count("names reused")
            elif what == "remove" and len(st.chains) > 1:
                k = str(rng.choice(list(st.chains)))
                cc.remove_chain(k)
                st.chains.pop(k)
                originals.pop(k)
            elif what == "frame":
                # the user goes on working with a frame: the chain has a copy of its own
                k = str(rng.choice(list(st.chains)))
                df = st.chains[k]["samples"]
                st.chains[k]["samples"] = snap(df)
                df.iloc[:, 0] = 12345.0
                df.index = np.arange(len(df)) + 10**6
                ctx.count("frames changed after construction")
            trace.append(what)
            # often the call just made is made again after the change
            again = last is not None and what in ("override", "truth", "twin") and rng.uniform() < 0.7
            if not again:
                if what in ("replace", "remove", "config"):
                    last = None
                continue
            name, args, call = last
            ctx.count("calls made again after a change")
        else:
            name, args, call = calls(st, rng)
        last = name, args, call
        trace.append(name)
        watched = dict(
            frames=st.frames, args=args, specs=st.chains, override=cc._global_chain_override, config=cc.plotter._config, truths=list(cc._truths),
            default=cc.plotter._default_config, chains={k: cc.get_chain(k) for k in cc.get_names()})
        before = {k: snap(v) for k, v in watched.items()}
        res = call(cc, **args)
        if isinstance(res, plt.Figure) and rng.uniform() < 0.3:
            res.canvas.draw()
        for k, v in watched.items():
            ctx.check_that(same(before[k], snap(v)), f"{name} changed the {k}", calls=trace)
        ctx.check_that(cc.get_names() == list(originals) and all(cc.get_chain(k) is originals[k] for k in originals), f"{name} replaced a stored chain", calls=trace)
        got = canon(res)
        plt.close("all")
        want = canon(call(st.build(), **args))
        plt.close("all")
        ok = same(got, want)
        diff = figs.differences(got, want) if isinstance(got, dict) and isinstance(want, dict) and name.startswith("plot") else f"{str(got)[:200]} / {str(want)[:200]}"
        ctx.check_that(ok, f"the result of {name} depends on the calls before it", calls=trace, difference=diff, state=dict(override=st.override, config=st.config))
        ctx.count("results compared with a fresh replica")
        ctx.count(f"call {name}")
    ctx.describe(calls=trace, chains={k: {a: b for a, b in s.items() if a != "samples"} for k, s in st.chains.items()}, override=st.override, config=st.config)
    ctx.distinct(tuple(trace))


def company(ctx):
    """A chain's own results do not depend on the other chains present, nor on the order they were added in."""
    rng = ctx.rng
    st = State(ctx)
    names = list(st.chains)
    cc = st.build()
    every = cc.analysis.get_summary()
    mp = cc.analysis.get_max_posteriors()
    k = str(rng.choice(names))
    rest = [str(x) for x in rng.permutation([n for n in names if n != k])[: rng.integers(0, len(names))]]
    alone = st.build(only=[k, *rest])
    ctx.describe(chain=k, others=names, kept=rest)
    a, b = every[k], alone.analysis.get_summary()[k]
    # a column used for the colours of a cloud is summarised only where another chain has it as a parameter
    own = {c for c in st.chains[k]["samples"].columns if c not in ("weight", "log_posterior", st.chains[k].get("color_param"))}
    if ctx.check_that(own <= set(a) and own <= set(b), "a chain's own parameters are not all summarised", a=sorted(a), b=sorted(b), own=sorted(own)):
        for c in own:
            ctx.check_that(same(canon(a[c]), canon(b[c])), "a chain's summary depends on the other chains", column=c, a=repr(a[c]), b=repr(b[c]))
            ctx.count("summaries in company")
    ctx.check_that(same(canon(mp.get(k)), canon(alone.analysis.get_max_posteriors().get(k))), "a chain's maximum posterior depends on the other chains")
    ctx.check_that(same(cc.get_chain(k).get_covariance().matrix, alone.get_chain(k).get_covariance().matrix), "a chain's covariance depends on the other chains")
    ctx.distinct("company", k, tuple(rest), tuple(a))


def own(ctx):
    """A chain has samples of its own, whatever the size, layout or types of the frame it came from."""
    rng = ctx.rng
    n = 4 * int(10 ** rng.uniform(1.5, 5.2 if rng.uniform() < 0.8 else 5.8))
    k = int(rng.integers(1, 4 if n > 200000 else 9))
    names = gen.names(rng, k)
    layout = str(rng.choice(["c array", "f array", "columns", "float32", "ints", "view"]))
    base = rng.normal(size=(n, k)) * 3 + 10
    if layout == "ints":
        base = np.round(base).astype(np.int64)
    if layout == "float32":
        base = base.astype(np.float32)
    if layout == "f array":
        base = np.asfortranarray(base)
    if layout == "columns":
        df = pd.DataFrame({c: base[:, i].copy() for i, c in enumerate(names)})
    elif layout == "view":
        wide = pd.DataFrame(np.concatenate([base, base], axis=1), columns=[*names, *(f"copy of {c}" for c in names)])
        df = wide.loc[:, names]
    else:
        df = pd.DataFrame(base, columns=names, copy=False)
    weighted = layout in ("columns", "view") and bool(rng.uniform() < 0.6)
    if weighted:
        df = df.assign(weight=rng.uniform(0.5, 2, size=n), log_posterior=-rng.exponential(size=n))
    before = snap(df)
    ctx.describe(rows=n, columns=k, layout=layout, weighted=weighted)
    chain = Chain(samples=df, name="c", walkers=int(rng.choice([1, 4])))
    cc = ChainConsumer().add_chain(chain)
    first = canon(cc.analysis.get_summary()), canon(chain.get_covariance()), canon(chain.get_max_posterior_point())
    ctx.check_that(same(df, before), "analysing a chain changed the user's frame", layout=layout, rows=n)
    ctx.check_that(same(chain.samples[list(df.columns)].reset_index(drop=True), before.reset_index(drop=True)), "the samples of a chain are not those of the frame", layout=layout, rows=n)
    held = snap(chain.samples)
    # the user goes on working with the frame, and with the array behind it
    for c in df.columns:
        v = df[c].to_numpy()
        if v.flags.writeable:
            v[: n // 2] = v[0] + 7
    df.iloc[-3:, :] = 99
    df.iloc[:, 0] = 5
    if layout in ("c array", "f array", "float32", "ints"):
        base[:] = 4
    df.drop(index=df.index[::2], inplace=True)
    ctx.check_that(same(chain.samples, held), "a chain shares its samples with the user's frame", layout=layout, rows=n, columns=k)
    ctx.check_that(same((canon(cc.analysis.get_summary()), canon(chain.get_covariance()), canon(chain.get_max_posterior_point())), first), "a change to the user's frame changed the results of a chain", layout=layout, rows=n)
    ctx.count("own samples")
    if n > 100000:
        ctx.count("own samples of a large frame")
    ctx.distinct("own", layout, n, k, weighted)


CASES = {"own": (own, 120, 2000), "history": (history, 160, 4000), "company": (company, 200, 4000)}
REQUIRED = {"own samples": 60, "own samples of a large frame": 10, "results compared with a fresh replica": 150, "names reused": 5, "same shape under the same name": 20, "calls made again after a change": 20, "frames changed after construction": 5, "summaries in company": 100}
BATCH = 2
