"""C17: the log posterior is the log prior plus the log likelihood of every likelihood."""

import inspect

import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree import Context
from lib import keys, toys
from lib.vh import case
from checks.c14 import table, EX, poisson

PROPERTY = "C17"
RULE = (
    "contexts of 1-4 binned and literature likelihoods (deterministic, random, minus infinity), parameters inside, on and outside of their "
    "priors, 1-4 repetitions, subsets of the parameters; distinct by (composition, situation, repetitions)"
)
TECHNIQUE = "runtime monitoring: recorded calls of every likelihood, conservation of their sum"


class Spy:
    """Record the calls of get_log_likelihood of every likelihood of a context."""

    def __init__(self, tree, force=None):
        self.calls = []
        self.force = force or {}
        for name, llh in tree.likelihoods.items():
            self.wrap(name, llh)

    def wrap(self, name, llh):
        old = llh.get_log_likelihood
        sig = inspect.signature(lambda key, batch_size, parameters: None)

        def wrapped(*args, **kwargs):
            a = sig.bind(*args, **kwargs).arguments
            par = {k: np.array(v) for k, v in a["parameters"].items()}
            out_key, ll = old(a["key"], a["batch_size"], a["parameters"])
            if name in self.force:
                ll = self.force[name].pop(0) if isinstance(self.force[name], list) else self.force[name]
            self.calls.append(dict(name=name, key=keys.raw(a["key"]), batch=a["batch_size"], par=par, ll=ll, out=keys.raw(out_key)))
            return out_key, ll

        llh.get_log_likelihood = wrapped

    def clear(self):
        self.calls = []


def _lit():
    from checks.c15 import toy

    return toy("P")


def define(kinds):
    """The components of a context."""
    for i, kind in enumerate(kinds):
        if kind == "det":
            table(f"Det{i}", (4,), f"mu{i}", EX)
        elif kind == "rand":
            toys.component_cls("PostBand", toys.band_plugins(jit=False))
        else:
            _lit()


def context(rng, kinds, backend=None, make=True):
    """kinds: det (deterministic table), rand (random band) or lit (literature)."""
    define(kinds)
    ins = {"configs": {}, "likelihoods": {}}
    par = {}
    for i, kind in enumerate(kinds):
        name = f"llh_{'cabd'[i]}{i}"
        if kind == "det":
            x = rng.uniform(0, 8, 100)
            ins["likelihoods"][name] = dict(
                components={f"c{i}": f"TableDet{i}"}, copy_parameters={f"c{i}_rate": "rate"}, data_file_name=toys.csv({"gx": x}),
                bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8])
            par[f"mu{i}"] = toys.par_uniform(1.0, 50.0)
        elif kind == "rand":
            ins["likelihoods"][name] = toys.toy_instruct(rng, {f"c{i}": "PostBand"}, par_config={}, bins=(2, 2))["likelihoods"]["toy_llh"]
            par.update({k: v for k, v in toys.band_par_config().items() if k != "rate"})
        else:
            ins["likelihoods"][name] = dict(
                type="LikelihoodLit", components={f"c{i}": "LitCompP"}, copy_parameters={f"c{i}_rate": "lit_rate"},
                bins_on=["l_energy", "l_yield"], variable_type="norm", logpdf_args=[["loc", "scale"], [[2.0, 3.0], [0.5, 0.7]]])
            par.update({"lit_rate": toys.par_fixed(1.0), "en": toys.par_fixed(1.0), "yi": toys.par_norm(2.5, 0.3, 0.0, 5.0), "ef": toys.par_fixed(1.0)})
    if any(k != "lit" for k in kinds):
        par["rate"] = toys.par_uniform(0.1, 3000.0, init_mean=100.0)
    ins["par_config"] = toys.dump_json(par, name="par.json")
    if backend:
        ins["backend_h5"] = backend
    return Context(ins) if make else ins


def inside(rng, tree):
    out = {}
    for k in tree.par_manager.parameter_fit:
        s = tree.par_config[k]
        if s["prior_type"] == "uniform":
            lo, hi = s["prior_args"]["lower"], s["prior_args"]["upper"]
            out[k] = float(rng.uniform(lo + 0.2 * (hi - lo), hi - 0.2 * (hi - lo)))
        else:
            c = s["prior_args"].get("mean", s["prior_args"].get("mu"))
            out[k] = float(c + rng.uniform(-0.3, 0.3) * s["init_std"])
    return out


def prior(tree, values):
    p = apt.Parameter(tree.par_config)
    p.set_parameter({**{k: s["prior_args"]["val"] for k, s in tree.par_config.items() if s["prior_type"] == "fixed"}, **values})
    return float(p.log_prior)


def judge(m, tree, spy, values, batch, repeat, got, composition):
    want_prior = prior(tree, values)
    post, lp = got
    m.check(lp == want_prior or abs(lp - want_prior) < 1e-9, "the returned log prior", got=lp, want=want_prior)
    names = list(tree.likelihoods)
    m.check(len(spy.calls) == len(names) * repeat, "every likelihood once per repetition", calls=[c["name"] for c in spy.calls], repeat=repeat)
    everything = {k: v for k, v in values.items()}
    everything.update({k: s["prior_args"]["val"] for k, s in tree.par_config.items() if s["prior_type"] == "fixed"})
    sums = [0.0] * repeat
    seen = set()
    per = {n: 0 for n in names}
    for c in spy.calls:
        m.check(c["batch"] == batch, "batch size", got=c["batch"], want=batch)
        m.check(set(c["par"]) == set(everything), "names seen by a likelihood", got=set(c["par"]) ^ set(everything), name=c["name"])
        for k, v in everything.items():
            m.check(np.array_equal(c["par"][k], v), "a likelihood sees another value", name=c["name"], parameter=k, got=c["par"][k], want=v)
        m.check(c["key"] not in seen, "two likelihoods or repetitions share their key", name=c["name"])
        seen.add(c["key"])
        sums[per[c["name"]]] += c["ll"]
        per[c["name"]] += 1
    want = np.mean([s + want_prior for s in sums])
    m.check(post == want or abs(post - want) <= 1e-9 * (abs(want) + sum(abs(c["ll"]) for c in spy.calls)), "log posterior",
            got=post, want=want, prior=want_prior, calls=[(c["name"], c["ll"]) for c in spy.calls])
    m.count("posteriors")
    m.count("likelihood calls", len(spy.calls))
    m.seen("posterior", (composition, repeat, bool(np.isfinite(post))))


COMPOSITIONS = [("det",), ("det", "det"), ("rand", "det"), ("lit", "det"), ("det", "rand", "lit"), ("lit",), ("rand", "rand"), ("det", "lit", "rand", "det")]


@case(repeat=(1, 3))
def posteriors(m):
    """Inside of the priors."""
    rng = m.rng()
    chosen = [COMPOSITIONS[int(i)] for i in rng.permutation(len(COMPOSITIONS))[:4]] if m.quick else COMPOSITIONS
    if m.quick:
        chosen += [COMPOSITIONS[-1]]
    for comp in chosen:
        apt.clear_cache()
        tree = context(rng, comp)
        spy = Spy(tree)
        for repeat in (1, 2, 4):
            for batch in (40, 400):
                values = inside(rng, tree)
                items = list(values.items())
                values = dict(items[i] for i in rng.permutation(len(items)))
                spy.clear()
                saved = dict(values)
                got = tree.log_posterior(values, batch_size=batch, **({} if repeat == 1 else {"repeat_times": repeat}))
                m.check(values == saved, "the given parameters are modified")
                judge(m, tree, spy, values, batch, repeat, got, comp)
        if set(comp) == {"det"}:
            a = {tree.log_posterior(values, batch_size=40)[0] for _ in range(3)}
            m.check(len(a) == 1, "deterministic posterior changes", got=a)
        m.sample(likelihoods=comp, posterior=got)


@case(repeat=(1, 4))
def value(m):
    """The value itself, from scratch, for deterministic likelihoods."""
    rng = m.rng()
    tree = context(rng, ("det", "det"))
    for _ in range(m.pick(10, 40)):
        values = inside(rng, tree)
        post, lp = tree.log_posterior(values, batch_size=4 * int(rng.integers(1, 20)))
        want = lp
        for i, llh in enumerate(tree.likelihoods.values()):
            want += poisson(llh.data_hist, np.full(4, np.float32(values[f"mu{i}"]) * np.float32(values[f"c{i}_rate"])))
        m.check(abs(post - want) <= 2e-5 * (abs(want) + 4e5), "value of the log posterior", got=post, want=want, values=values)
    m.seen("value", 1)


@case(repeat=(1, 4))
def outside(m):
    """An invalid prior does not simulate."""
    rng = m.rng()
    for comp in (("det", "lit"), ("rand",)) if not m.quick else (("det", "lit"),):
        apt.clear_cache()
        tree = context(rng, comp)
        spy = Spy(tree)
        simulated = []
        for llh in tree.likelihoods.values():
            for c in llh.components.values():
                old = c.simulate
                c.simulate = lambda *a, old=old: (simulated.append(1), old(*a))[1]
        good = inside(rng, tree)
        m.check(np.isfinite(tree.log_posterior(good, batch_size=40)[1]), "valid prior")
        n_good = len(simulated)
        m.check(n_good == len(comp) and len(spy.calls) == len(comp), "the monitor saw no simulation", simulated=n_good)
        for k in tree.par_manager.parameter_fit:
            lo, hi = tree.par_config[k]["allowed_range"]
            for v in (lo - 1e-6 * abs(lo) - 1e-9, hi + 1e-6 * abs(hi), -1e9, 1e9, np.inf, -np.inf):
                for repeat in (1, 3):
                    spy.clear()
                    del simulated[:]
                    post, lp = tree.log_posterior({**good, k: float(v)}, batch_size=40, repeat_times=repeat)
                    m.check(post == -np.inf and lp == -np.inf, "posterior outside of the prior", got=(post, lp), parameter=k, value=v)
                    m.check(not spy.calls and not simulated, "simulated although the prior is invalid", parameter=k, value=v)
                    m.count("outside")
            for v in (lo, hi):  # the range is closed
                spy.clear()
                got = tree.log_posterior({**good, k: float(v)}, batch_size=40)
                if np.isfinite(prior(tree, {**good, k: float(v)})):
                    judge(m, tree, spy, {**good, k: float(v)}, 40, 1, got, comp)
            m.seen("outside", (comp, k))
        # an undefined prior is no valid one either
        if "yi" in good:
            spy.clear()
            post, lp = tree.log_posterior({**good, "yi": float("nan")}, batch_size=40)
            m.check(post == -np.inf and not spy.calls, "undefined prior", got=(post, lp))
        spy.clear()
        got = tree.log_posterior(good, batch_size=40)
        judge(m, tree, spy, good, 40, 1, got, comp)
        m.raises(Exception, lambda: tree.log_posterior({**good, "no_such": 1.0}, batch_size=40), "unknown parameter")


@case(repeat=(1, 3))
def infinite(m):
    """Likelihoods that return minus infinity."""
    rng = m.rng()
    tree = context(rng, ("det", "det", "lit"))
    names = list(tree.likelihoods)
    spy = Spy(tree)
    for which in ((0,), (1,), (2,), (0, 2), (0, 1, 2)):
        for repeat in (1, 3):
            spy.force = {names[i]: -np.inf for i in which}
            spy.clear()
            values = inside(rng, tree)
            got = tree.log_posterior(values, batch_size=40, repeat_times=repeat)
            m.check(got[0] == -np.inf, "minus infinity of one likelihood", got=got, which=which)
            judge(m, tree, spy, values, 40, repeat, got, "inf")
    # one of the repetitions, and values that differ between them
    spy.force = {names[0]: [-5.0, -np.inf, -7.0]}
    spy.clear()
    values = inside(rng, tree)
    got = tree.log_posterior(values, batch_size=40, repeat_times=3)
    m.check(got[0] == -np.inf, "minus infinity of one repetition", got=got)
    spy.force = {names[0]: [-5.0, 3.0, 11.5], names[1]: [1.0, 2.0, 4.0], names[2]: [0.5, 0.25, 0.0]}
    spy.clear()
    got = tree.log_posterior(values, batch_size=40, repeat_times=3)
    judge(m, tree, spy, values, 40, 3, got, "forced")
    spy.force = {}
    # the second likelihood is really empty at zero rate
    spy.clear()
    table_rate = {**values, "c1_rate": 0.1}
    got = tree.log_posterior(table_rate, batch_size=40)
    judge(m, tree, spy, table_rate, 40, 1, got, "low rate")


@case(repeat=(1, 3))
def sequences(m):
    """Earlier evaluations do not change later ones; parameters not given keep their value."""
    rng = m.rng()
    tree = context(rng, ("det", "rand"))
    spy = Spy(tree)
    state = {}
    fit = tree.par_manager.parameter_fit
    tree.log_posterior(inside(rng, tree), batch_size=40)
    for _ in range(m.pick(12, 40)):
        values = inside(rng, tree)
        state.update(values) if not state else None
        some = {k: values[k] for k in fit if rng.random() < 0.7} if state and rng.random() < 0.5 else values
        state = {**state, **some}
        if rng.random() < 0.2:
            tree.log_posterior({**values, fit[0]: 1e12}, batch_size=40)
            state = {**values}
            tree.log_posterior(values, batch_size=40)
        tree.par_manager.set_parameter(state)
        spy.clear()
        some = {k: state[k] for k in some}
        got = tree.log_posterior(some, batch_size=40)
        judge(m, tree, spy, state, 40, 1, got, "sequence")
    m.check(len({c["key"] for c in spy.calls}) == len(spy.calls), "keys repeat")


@case
def accepted(m):
    """Accepted events of a context: all binned likelihoods, without the literature."""
    rng = m.rng()
    tree = context(rng, ("det", "lit", "det"))
    values = inside(rng, tree)
    everything = {**values, **{k: s["prior_args"]["val"] for k, s in tree.par_config.items() if s["prior_type"] == "fixed"}}
    got = float(tree.get_num_events_accepted(everything, batch_size=40))
    want = sum(4 * values[f"mu{i}"] * values[f"c{i}_rate"] for i in (0, 2))
    m.close(got, want, "accepted events of a context", rtol=1e-4)
    m.seen("accepted", 1)
    for n in (4, 4000, 100000, 400000, 1000000, None):
        got = float(tree.get_num_events_accepted(everything, **({} if n is None else {"batch_size": n})))
        m.close(got, want, "accepted events of a context", rtol=1e-3 if n and n < 10**4 else 0.05, batch=n)
        m.seen("accepted with batch", n)
    for scale in (1e-8, 1e-3, 1e3):
        scaled = {k: v * scale if k.endswith("_rate") and k != "lit_rate" else v for k, v in everything.items()}
        got = float(tree.get_num_events_accepted(scaled, batch_size=40))
        m.close(got, want * scale, "accepted events of a context", rtol=1e-4, scale=scale)


class Evaluations:
    """Count the evaluations of the posterior and the calls of the likelihoods within each of them."""

    def __init__(self, tree, spy):
        self.old, self.spy, self.rows = type(tree).log_posterior.__get__(tree), spy, []
        tree.log_posterior = self

    def __call__(self, parameters, *args, **kwargs):
        n = len(self.spy.calls)
        out = self.old(parameters, *args, **kwargs)
        self.rows.append((out, self.spy.calls[n:]))
        return out


@case(repeat=(1, 2))
def fits(m):
    """The number of repetitions and of simulated events of a fit reach every evaluation, with any way to move."""
    import emcee

    rng = m.rng()
    np.random.seed(int(rng.integers(2**31)))
    tree = context(rng, ("det", "lit"))
    spy = Spy(tree)
    ev = Evaluations(tree, spy)
    nw = 2 * len(tree.par_manager.parameter_fit) + 2

    def judged(repeat, batch, what):
        m.check(len(ev.rows) >= nw, "monitor saw no evaluation", what=what, evaluations=len(ev.rows))
        some = False
        for out, calls in ev.rows:
            names = [c["name"] for c in calls]
            want = {n: repeat if np.isfinite(out[1]) else 0 for n in tree.likelihoods}
            m.check({n: names.count(n) for n in tree.likelihoods} == want, "repetitions of an evaluation of a fit", what=what, got=names, want=want)
            m.check(all(c["batch"] == batch for c in calls), "batch size of an evaluation of a fit", what=what, got=[c["batch"] for c in calls], want=batch)
            some = some or bool(calls)
        m.check(some, "no valid evaluation", what=what)
        m.seen("fit", (what, repeat, batch))
        m.count("evaluations of fits", len(ev.rows))
        del ev.rows[:]
        spy.clear()

    for moves in (None, emcee.moves.DEMove(), [(emcee.moves.StretchMove(), 0.5), (emcee.moves.DEMove(), 0.5)]):
        for repeat, batch in ((1, 40), (3, 8), (2, 40)):
            kw = {} if moves is None else {"moves": moves}
            kr = {} if repeat == 1 else {"repeat_times": repeat}
            tree.fitting(nwalkers=nw, iteration=2, batch_size=batch, **kw, **kr)
            judged(repeat, batch, ("fitting", moves is None))
            tree.continue_fitting(iteration=1, batch_size=batch + 4, **kw)
            judged(1, batch + 4, ("continue", moves is None))
            tree.continue_fitting(iteration=1, batch_size=batch, **kw, **kr)
            judged(repeat, batch, ("continue", moves is None))
            tree.continue_fitting(context=tree, iteration=1, batch_size=batch, **kw, **kr)
            judged(repeat, batch, ("continue the same", moves is None))


assert jnp
