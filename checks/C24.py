"""Chains made from emcee, NumPyro and ArviZ against the raw arrays of the source."""
import numpy as np
from chainconsumer import Chain, ChainConsumer
from chainconsumer.statistics import SummaryStatistic as S

from vlib import gen

ID = "C24"
TITLE = "translators"
RULE = (
    "Each case builds a source: an emcee sampler run for a random number of steps and walkers (thinned while running or not), a NumPyro MCMC object that holds random draws or was really run, or ArviZ data of 1-4 chains, with 1-6 scalar variables "
    "whose names can be prefixes of one another. A random thin and discard, or a list of variables kept or left out, and further settings are asked for, and every cell of the chain is compared with the source. Distinct by source, shape and selection."
)
PRELOAD = ["arviz", "emcee"]
ASSUMPTIONS = ["emcee, NumPyro and ArviZ hold their draws as documented"]
VARS = ["a", "ab", "abc", "b", "mu", "sigma", "log_sigma", "x", "β", "H0", "tau", "mu_0", "theta1", "theta10", "a~", "b~c"]


def settings(rng, rows):
    """Further settings, and the chain's own view of them."""
    kw = {}
    if rng.uniform() < 0.5:
        kw["kde"] = float(rng.uniform(0.5, 2))
    if rng.uniform() < 0.5:
        kw["statistics"] = S.HDI
        if rng.uniform() < 0.5:
            kw["multimodal"] = True
    if rng.uniform() < 0.5:
        kw["color"] = "#123456"
    if rng.uniform() < 0.5:
        kw["summary_area"] = float(rng.uniform(0.2, 0.95))
    if rng.uniform() < 0.5:
        kw["linewidth"] = 3.5
    if rows % 2 == 0 and rng.uniform() < 0.5:
        kw["walkers"] = 2
    if rng.uniform() < 0.3:
        kw["show_label_in_legend"] = False
    return kw


def compare(ctx, chain, want, kw, name):
    """want: {variable: values in order}."""
    ctx.check_that(chain.name == name, "the chain does not have the name given", name=chain.name)
    ctx.check_that(list(chain.data_columns) == list(want), "the parameters are not the variables asked for", got=list(chain.data_columns), want=list(want))
    if list(chain.data_columns) != list(want):
        return
    for k, v in want.items():
        got = chain.samples[k].to_numpy()
        ok = got.shape == v.shape and np.array_equal(got.astype(float), np.asarray(v, float))
        ctx.check_that(ok, "a column does not hold its variable's draws in order", column=k, shape=got.shape, source=v.shape, got=got[:4], want=np.asarray(v[:4]))
        d = np.asarray(chain.get_data(k), float)
        ctx.check_that(d.shape == v.shape and np.array_equal(d, np.asarray(v, float)), "get_data does not give the variable's draws in order", column=k)
    ctx.check_that(np.array_equal(chain.weights, np.ones(len(next(iter(want.values()))))), "the draws are not equally weighted")
    for k, v in kw.items():
        ctx.check_that(getattr(chain, k) == v, "a setting passed on did not reach the chain", setting=k, got=getattr(chain, k), want=v)
    ctx.count("draws compared", len(next(iter(want.values()))) * len(want))


def use(ctx, chain, want):
    """The chain is an ordinary one."""
    if len(chain.samples) < 200 or ctx.rng.uniform() < 0.7:
        return
    chain = chain.model_copy(update=dict(statistics=S.CUMULATIVE, multimodal=False, summary_area=0.6, kde=False))
    out = ChainConsumer().add_chain(chain).analysis.get_summary()[chain.name]
    for k, v in want.items():
        lo, hi = np.quantile(np.asarray(v, float), [0.1, 0.9])
        ctx.check_that(lo < out[k].center < hi and out[k].lower < out[k].center < out[k].upper, "the summary of a translated chain is not its variable's", column=k, bound=out[k].array, q=(lo, hi))
    ctx.count("translated chains summarised")


def emcee_case(ctx):
    import emcee

    rng = ctx.rng
    nd = int(rng.integers(1, 6))
    nw = int(rng.integers(2 * nd, 4 * nd + 4))
    nw += nw % 2
    steps = int(rng.integers(3, 60))
    by = int(rng.choice([1, 1, 2]))
    s = 10 ** rng.uniform(-2, 2, size=nd)
    m = rng.normal(size=nd) * 5

    def logp(x):
        return -0.5 * np.sum(((x - m) / s) ** 2, axis=1)

    seed = int(rng.integers(2**31))
    sampler = emcee.EnsembleSampler(nw, nd, logp, vectorize=True)
    sampler.random_state = np.random.RandomState(seed).get_state()
    sampler.run_mcmc(m + s * rng.normal(size=(nw, nd)), steps, thin_by=by, progress=False)
    full = np.array(sampler.backend.chain[: sampler.backend.iteration])
    ctx.check_that(full.shape == (steps, nw, nd), "harness: emcee does not hold every step") if full.shape != (steps, nw, nd) else None
    cols = [str(c) for c in rng.permutation(VARS)[:nd]]
    kw = {}
    thin, discard = 1, 0
    if rng.uniform() < 0.7:
        discard = int(rng.integers(0, max(1, steps - 2)))
        kw["discard"] = discard
    if rng.uniform() < 0.7:
        thin = int(rng.integers(1, max(2, (steps - discard) // 2 + 1)))
        kw["thin"] = thin
    kept = full[discard + thin - 1 :: thin]
    more = settings(rng, kept.shape[0] * nw)
    ctx.describe(source="emcee", dimensions=nd, walkers=nw, steps=steps, thin=thin, discard=discard, columns=cols, settings=more)
    before = full.copy()
    chain = Chain.from_emcee(sampler, cols, "sampled", **kw, **more)
    flat = kept.reshape(-1, nd)
    want = {c: flat[:, i] for i, c in enumerate(cols)}
    compare(ctx, chain, want, more, "sampled")
    ctx.check_that(np.array_equal(sampler.get_chain(), before), "the sampler's own draws were changed")
    use(ctx, chain, want)
    ctx.count("emcee samplers" + (" thinned" if thin > 1 else "") + (" discarded" if discard else ""))
    ctx.distinct("emcee", nd, nw, steps, thin, discard, tuple(more))


def selection(rng, names):
    """(argument, variables kept in the source's order)."""
    mode = str(rng.choice(["none", "empty", "keep", "drop", "keep", "drop"]))
    if mode == "none":
        return None, names
    if mode == "empty":
        return [], names
    k = int(rng.integers(1, len(names) + 1)) if mode == "keep" else int(rng.integers(1, len(names))) if len(names) > 1 else 0
    pick = [str(v) for v in rng.permutation(names)[:k]]
    if mode == "keep":
        return pick, [n for n in names if n in pick]
    if not pick:
        return None, names
    return ["~" + p for p in pick], [n for n in names if n not in pick]


def draws(rng, names, nc, nd):
    out = {}
    for n in names:
        x = rng.normal(size=(nc, nd)) * 10 ** rng.uniform(-3, 3) + rng.normal() * 10
        u = rng.uniform()
        if u < 0.15:
            x = rng.integers(-50, 50, size=(nc, nd))
        elif u < 0.3:
            x = x.astype(np.float32)
        out[n] = x
    return out


def source_case(ctx, kind):
    rng = ctx.rng
    nc = int(rng.choice([1, 1, 2, 3, 4]))
    nd = int(rng.integers(2, 400))
    names = [str(v) for v in rng.permutation(VARS)[: rng.integers(1, 7)]]
    raw = draws(rng, names, nc, nd)
    if kind == "arviz":
        import arviz as az

        extra = {}
        if rng.uniform() < 0.4:
            extra["sample_stats"] = {"lp": rng.normal(size=(nc, nd))}
        if rng.uniform() < 0.4:
            extra["prior"] = {n: rng.normal(size=(nc, nd)) for n in names}
        coords = {}
        if rng.uniform() < 0.4:
            # what a burn-in and a thinning leave behind
            coords = {"draw": np.arange(nd) * int(rng.integers(1, 4)) + int(rng.integers(0, 500)), "chain": np.arange(nc) + int(rng.integers(0, 3))}
        source = az.from_dict(posterior=raw, coords=coords, **extra)
        make, names = Chain.from_arviz, list(source.posterior.data_vars)
    else:
        from numpyro.infer import MCMC, NUTS

        def model():
            pass

        source = MCMC(NUTS(model), num_warmup=1, num_samples=nd, num_chains=nc, progress_bar=False)
        source._states = {"z": dict(raw)}
        source._states_flat = {"z": {k: v.reshape(-1) for k, v in raw.items()}}
        source._sample_field = "z"
        make = Chain.from_numpyro
        names = list(source.get_samples())
    arg, kept = selection(rng, names)
    more = settings(rng, nc * nd)
    kw = {} if arg is None and rng.uniform() < 0.5 else {"var_names": arg}
    given = list(arg) if arg is not None else None
    ctx.describe(source=kind, chains=nc, draws=nd, variables=names, var_names=arg, settings=more)
    chain = make(source, "sampled", **kw, **more)
    want = {n: raw[n].reshape(-1) for n in kept}
    compare(ctx, chain, want, more, "sampled")
    ctx.check_that(arg == given, "the list of names was changed", before=given, after=arg)
    if kind == "arviz":
        ctx.check_that(all(np.array_equal(source.posterior[n].values, raw[n]) for n in raw), "the ArviZ data were changed")
    if "walkers" in more:
        pieces = chain.divide()
        n = nc * nd // 2
        ctx.check_that(all(np.array_equal(p.samples[k].to_numpy(), v[i * n : (i + 1) * n]) for i, p in enumerate(pieces) for k, v in want.items()), "the walkers of a translated chain are not blocks of its draws")
        ctx.count("translated chains divided")
    # a mixture cannot be meant
    if len(names) > 1:
        bad = [names[0], "~" + names[1]]
        if rng.uniform() < 0.5:
            bad = bad[::-1]
        if len(names) > 2 and rng.uniform() < 0.5:
            bad.insert(int(rng.integers(0, 3)), str(rng.choice(["~", ""])) + names[2])
        try:
            got = make(source, "sampled", var_names=bad)
        except ValueError:
            ctx.count("mixtures rejected")
            ctx.count("oracle_evaluations")
        else:
            ctx.fail("a list of kept and left out variables was accepted", var_names=bad, got=list(got.samples.columns))
    use(ctx, chain, want)
    ctx.count(f"{kind} sources, {'all' if arg is None else 'empty list' if not arg else 'left out' if arg[0][0] == '~' else 'kept'}")
    ctx.distinct(kind, nc, nd, tuple(names), tuple(arg or ()), tuple(more))


def arviz_case(ctx):
    source_case(ctx, "arviz")


def numpyro_case(ctx):
    source_case(ctx, "numpyro")


def numpyro_run(ctx):
    """A sampler that really ran; ArviZ's view of it has the same draws."""
    import arviz as az
    import jax
    import numpyro
    import numpyro.distributions as dist
    from numpyro.infer import MCMC, NUTS

    rng = ctx.rng
    names = [str(v) for v in rng.permutation(VARS)[: rng.integers(2, 4)]]
    at = rng.normal(size=len(names)) * 3

    def model():
        for n, m in zip(names, at, strict=True):
            numpyro.sample(n, dist.Normal(float(m), 1.0))

    nc, nd = int(rng.integers(1, 4)), int(rng.integers(20, 60))
    mcmc = MCMC(NUTS(model), num_warmup=20, num_samples=nd, num_chains=nc, progress_bar=False, chain_method="sequential")
    mcmc.run(jax.random.PRNGKey(int(rng.integers(2**31))))
    raw = {k: np.asarray(v) for k, v in mcmc.get_samples(group_by_chain=True).items()}
    arg, kept = selection(rng, list(raw))
    ctx.describe(source="NumPyro run", chains=nc, draws=nd, variables=list(raw), var_names=arg)
    want = {n: raw[n].reshape(-1) for n in kept}
    compare(ctx, Chain.from_numpyro(mcmc, "run", var_names=arg), want, {}, "run")
    idata = az.from_numpyro(mcmc)
    order = [n for n in idata.posterior.data_vars if n in kept]
    compare(ctx, Chain.from_arviz(idata, "run", var_names=arg), {n: want[n] for n in order}, {}, "run")
    ctx.count("NumPyro runs")
    ctx.distinct("run", nc, nd, tuple(names), tuple(arg or ()))


CASES = {"emcee": (emcee_case, 120, 3000), "arviz": (arviz_case, 120, 3000), "numpyro": (numpyro_case, 120, 3000), "run": (numpyro_run, 6, 80)}
REQUIRED = {"draws compared": 20000, "mixtures rejected": 60, "translated chains summarised": 5, "NumPyro runs": 3, "emcee samplers thinned discarded": 10, "arviz sources, left out": 5, "numpyro sources, kept": 5}
