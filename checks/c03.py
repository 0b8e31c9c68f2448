"""C03: a simulation is a pure function of key, batch size and parameters."""

import copy
import time

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree.likelihood import Likelihood
from lib import keys, shipped, stat, toys
from lib.vh import case

PROPERTY = "C03"
RULE = (
    "histories of 6-14 operations (other keys, sizes, parameters, components, caches, global random state) between two "
    "simulations with the same arguments; chains of 3-40 simulations through the returned key; distinct by (operation, "
    "component) and (chain length, batch size)"
)
TECHNIQUE = "runtime monitoring: bit-identity of repeated simulations in generated histories, key log of every draw"

PAR = {"t_mu": 3.0, "t_sig": 1.0, "t_eff": 0.9}
BINS = (np.linspace(0, 30, 6), np.sort(np.random.default_rng(0).uniform(0, 1000, (5, 4)), axis=1))


def _list(res):
    key, out = res
    return [np.asarray(key)] + [np.asarray(o) for o in (out if isinstance(out, (list, tuple)) else [out])]


def _toy(llh_name="pure_llh", name="toy", prefix="", **kw):
    return toys.build(toys.band_plugins(prefix, **kw.pop("plug", {})), kw.pop("data_names", ["cs1", "cs2"]),
                      llh_name=llh_name, name=name, bins=BINS, bins_type="irreg", rate_name="r", **kw)


FORMS = {
    "simulate": lambda c, k, n, p: c.simulate(k, n, p),
    "simulate_hist": lambda c, k, n, p: c.simulate_hist(k, n, p),
    "simulate_weighted_data": lambda c, k, n, p: c.simulate_weighted_data(k, n, p),
    "multiple": lambda c, k, n, p: c.multiple_simulations(k, n, p, 3),
    "multiple eff": lambda c, k, n, p: c.multiple_simulations(k, n, p, 2, apply_eff=True),
}


def _disturb(m, rng, c, other, par):
    op = str(rng.choice(["key", "size", "parameters", "other", "hist", "weighted", "multiple", "caches", "numpy",
                         "get_key", "build", "compile", "set"]))
    k = jax.random.PRNGKey(int(rng.integers(2**31 - 1)))
    if op == "key":
        c.simulate(k, 50, par)
    elif op == "size":
        c.simulate(k, int(rng.choice([1, 2, 7])), par)
    elif op == "parameters":
        c.simulate(k, 50, {**par, "t_mu": float(rng.uniform(2, 4)), "t_eff": float(rng.uniform(0, 1))})
    elif op == "other":
        other.simulate(k, 50, par)
    elif op == "hist":
        c.simulate_hist(k, 50, par)
    elif op == "weighted":
        c.simulate_weighted_data(k, 50, par)
    elif op == "multiple":
        c.multiple_simulations(k, 50, par, 2, apply_eff=bool(rng.random() < 0.5))
    elif op == "caches":
        jax.clear_caches()
    elif op == "numpy":
        np.random.seed(int(rng.integers(1000)))
        np.random.uniform(size=int(rng.integers(100)))
    elif op == "get_key":
        apt.randgen.get_key()
        apt.randgen.get_key(int(rng.integers(100)))
    elif op == "build":
        _toy("pure_%d" % rng.integers(1 << 30)).simulate(k, 50, par)
    elif op == "compile":
        c.compile()
    elif op == "set":
        apt.set_global_config({"some_option": float(rng.uniform())})
    return op


@case(repeat=(1, 6))
def histories(m):
    """The same arguments give the same result whatever ran before."""
    rng = m.rng()
    c, other = _toy(), _toy(name="other", func_name="other_sim")
    ref = []
    for form, f in FORMS.items():
        for n in (50, 7):
            k = m.key(form, n)
            par = {**PAR, "r": float(rng.uniform(1, 100)), "t_mu": float(rng.uniform(2.5, 3.5))}
            par["t_eff"] = float(rng.uniform(0.3, 1.0))
            ref.append((form, n, k, par, _list(f(c, k, n, par))))
    for step in range(m.pick(8, 14)):
        ops = [_disturb(m, rng, c, other, {**PAR, "r": 5.0}) for _ in range(int(rng.integers(1, 3)))]
        for i in rng.permutation(len(ref))[:4]:
            form, n, k, par, want = ref[i]
            if rng.random() < 0.5:  # the same values in other clothes
                par = dict(reversed(list(par.items())))
            m.same(_list(FORMS[form](c, k, n, par)), want, "the same arguments give another result", form=form, n=n, after=ops)
            m.count("repetitions compared")
        for op in ops:
            m.seen("operation", op)
    # another component of the same plugins computes the same
    again = _toy("pure_again")
    for form, n, k, par, want in ref:
        m.same(_list(FORMS[form](again, k, n, par)), want, "a rebuilt component gives another result", form=form)
        m.seen("rebuilt", form)
    m.sample(forms=list(FORMS), head=want[1][:3])


@case
def keys_differ(m):
    """The returned key is new, other keys give other events."""
    c = _toy()
    par = {**PAR, "r": 10.0}
    for n in (1, 50):
        seen = set()
        k = m.key(n)
        events = []
        for i in range(m.pick(30, 200)):
            seen.add(keys.raw(k))
            form = "simulate" if i % 3 else ["simulate_hist", "simulate_weighted_data", "multiple"][i // 3 % 3]
            k2, out = FORMS[form](c, k, n, par)
            m.check(keys.raw(k2) not in seen, "the returned key was used before", step=i, form=form, n=n)
            if form == "simulate":
                events.append(np.asarray(out[0]))
            k = k2
        e = np.concatenate(events)
        m.check(len(np.unique(e)) > 0.99 * len(e), "chained simulations repeat events", n=n, distinct=len(np.unique(e)), total=len(e))
        m.seen("chain", (n, len(seen)))
        # the returned key depends on the key given
        back = set()
        for i in range(20):
            back.add(keys.raw(c.simulate(jax.random.PRNGKey(i), n, par)[0]))
        m.check(len(back) == 20, "different keys return the same key")
    a = _list(c.simulate(m.key(1), 200, par))[1]
    b = _list(c.simulate(m.key(2), 200, par))[1]
    m.check(not np.any(a == b), "another key gives the same events")


@case
def independent(m):
    """Chained simulations are independent samples of the same distribution."""
    c = _toy()
    par = {**PAR, "r": 10.0, "t_eff": 1.0}
    n = 4000
    k = m.key()
    batches = []
    for i in range(m.pick(6, 20)):
        k, out = c.simulate(k, n, par)
        batches.append([np.asarray(o) for o in out])
    for i in range(1, len(batches)):
        for o in (0, 1):
            m.pvalue(stat.rank_corr(batches[i - 1][o], batches[i][o]), "successive simulations are correlated", output=o)
            m.pvalue(stat.stats.ks_2samp(batches[i - 1][o], batches[i][o], method="asymp").pvalue, "another distribution", output=o)
    for shift in (1, 2):
        m.pvalue(stat.rank_corr(batches[0][0][:-shift], batches[1][0][shift:]), "successive simulations are shifted copies")
    m.seen("independent", len(batches))


@case
def disjoint_draws(m):
    """Chained simulations never draw from the same key."""
    c = _toy()
    par = {**PAR, "r": 10.0}
    with keys.monitor() as log:
        k, sets = m.key(), []
        for i in range(6):
            del log[:]
            k, _ = c.simulate(k, 5, par)
            jax.effects_barrier()
            m.check(len(log) >= 3, "the monitor saw no draws", draws=len(log))
            m.check(not log.duplicates(), "one key is used for two draws", dup=log.duplicates()[:3])
            now = log.keys()
            for s in sets:
                m.check(not (s & now), "two chained simulations draw from the same key")
            sets.append(now)
            m.count("draws", len(log))
        del log[:]
        c.multiple_simulations(k, 5, par, 4)
        jax.effects_barrier()
        m.check(not log.duplicates(), "multiple simulations use one key twice", dup=log.duplicates()[:3])
        m.check(len(log) == 4 * len(sets[0]), "number of draws of multiple simulations", draws=len(log), one=len(sets[0]))
        m.check(not (set().union(*sets) & log.keys()), "a simulation of an earlier key is repeated")
        m.seen("draws", len(log))


@case(repeat=(1, 4))
def multiple(m):
    """Simulating several times chains single simulations."""
    rng = m.rng()
    for force in (False, True):
        c = _toy("multi_%s" % force, force_no_eff=force, data_names=["cs2", "t_energy", "cs1"])
        for n, times in ((1, 1), (6, 1), (6, 2), (6, 7)):
            par = {**PAR, "t_mu": float(rng.uniform(0.5, 2))}  # a few events below the threshold
            k0 = m.key(n, times)
            k, batches = k0, []
            for _ in range(times):
                k, out = c.simulate(k, n, par)
                batches.append([np.asarray(o) for o in out])
            for name in ("multiple_simulations", "multiple_simulations_compile"):
                if name == "multiple_simulations_compile" and times > 2 and m.quick:
                    continue
                f = getattr(c, name)
                got_key, got = f(k0, n, par, times)
                m.same(np.asarray(got_key), np.asarray(k), f"{name}: returned key is not the one of the last simulation", n=n, times=times)
                m.check(len(got) == len(batches[0]), f"{name}: outputs", got=len(got))
                for i in range(len(got)):
                    m.same(np.asarray(got[i]), np.concatenate([b[i] for b in batches]), f"{name}: not the chained simulations",
                           output=i, n=n, times=times)
                m.seen(name, (force, n, times))
                if force:
                    m.raises(Exception, lambda: f(k0, n, par, times, apply_eff=True), f"{name}: efficiency of a workflow without it")
                    continue
                got_key, got = f(k0, n, par, times, apply_eff=True)
                m.same(np.asarray(got_key), np.asarray(k), f"{name}: returned key with efficiency")
                for i in range(len(got)):
                    want = np.concatenate([b[i][b[-1] > 0] for b in batches])
                    m.same(np.asarray(got[i]), want, f"{name}: events of zero efficiency", output=i, n=n, times=times)
                m.count("events dropped", n * times - len(got[0]))
        for bad in (0, -1):
            m.raises(Exception, lambda: c.multiple_simulations(m.key(), 5, PAR, bad), "no simulation at all")
    m.check(m.counters.get("events dropped", 0) > 0, "no event was dropped in this workload")
    # only events of zero efficiency are dropped, however small it is
    plugs = toys.band_plugins("Tiny")

    def eff(self, key, parameters, cs1, cs2):
        i = jnp.arange(len(cs1)) % 5
        return key, jnp.array([0.0, 1e-30, 1e-9, 1e-4, 1.0])[i]

    plugs = [p for p in plugs if "eff" not in p.provides] + [toys.plugin("TinyEff", ["cs1", "cs2"], ["eff"], eff)]
    c = toys.build(plugs, ["cs1", "cs2"], llh_name="tiny")
    for name in ("multiple_simulations", "multiple_simulations_compile"):
        _, got = getattr(c, name)(m.key(), 20, PAR, 2, apply_eff=True)
        m.check(len(got[0]) == 32, f"{name}: events of a small efficiency are dropped", got=len(got[0]))
        m.close(np.sort(np.unique(got[-1])), [1e-30, 1e-9, 1e-4, 1.0], f"{name}: efficiencies", rtol=1e-5)
    m.seen("tiny efficiency", 4)


@case
def caller(m):
    """The parameters of the caller are untouched."""
    rng = m.rng()
    c = _toy()
    toys.component_cls("PureComp", toys.band_plugins())
    toys.fixed_cls("PureFixed", norm_type="on_pdf")
    data = toys.write_band_data(rng, 200)
    llh = Likelihood(name="pure_like", data_file_name=data, bins_type="equiprob", bins_on=["cs1", "cs2"], bins=[3, 2],
                     x_clip=[3, 28], y_clip=[120, 1000], parameter_alias={"alias_mu": "t_mu", "alias_r": "c_rate"})
    llh.register_component(apt.components.PureComp, "c")
    llh.register_component(apt.components.PureFixed, "fix", file_name=data)
    par = {**PAR, "r": 10.0, "alias_mu": 3.1, "alias_r": 7.0, "fix_rate": 3.0, "unused": np.arange(3.0), "nested": {"a": [1]}}
    sim_par = {k: v for k, v in par.items() if k != "nested"}
    calls = {name: (lambda f=f: f(c, m.key(), 6, sim_par), sim_par) for name, f in FORMS.items()}
    calls["compile"] = (lambda: c.multiple_simulations_compile(m.key(), 6, sim_par, 2), sim_par)
    for name in ("get_log_likelihood", "simulate_weighted_data"):
        calls["likelihood " + name] = (lambda name=name: getattr(llh, name)(m.key(), 60, sim_par), sim_par)
    calls["likelihood events"] = (lambda: llh.get_num_events_accepted(60, sim_par), sim_par)
    for name, (f, p) in calls.items():
        saved, ids, order = copy.deepcopy(p), {k: id(v) for k, v in p.items()}, list(p)
        f()
        m.check(list(p) == order, "names of the caller's parameters", call=name, got=list(p))
        m.check({k: id(v) for k, v in p.items()} == ids, "the caller's parameters are replaced", call=name)
        for k in saved:
            m.check(np.array_equal(p[k], saved[k]), "the caller's parameters are modified", call=name, parameter=k)
        m.seen("caller", name)
    # the same through the likelihood: key and parameters decide
    for f in (lambda k, n: llh.get_log_likelihood(k, n, sim_par), lambda k, n: llh.simulate_weighted_data(k, n, sim_par)):
        want = _list(f(m.key(), 60))
        f(m.key(3), 60)
        f(m.key(), 30)
        time.sleep(0.01)
        got = _list(f(m.key(), 60))
        m.same(got, want, "the likelihood is not a function of key, size and parameters")
        m.check(keys.raw(want[0]) != keys.raw(m.key()), "the likelihood returns the key it was given")
    # components of one likelihood get different keys
    llh2 = Likelihood(name="pure_like2", data_file_name=data, bins_type="equiprob", bins_on=["cs1", "cs2"], bins=[3, 2],
                      x_clip=[3, 28], y_clip=[120, 1000])
    llh2.register_component(apt.components.PureComp, "one")
    llh2.register_component(apt.components.PureComp, "two")
    par2 = {**PAR, "one_rate": 5.0, "two_rate": 5.0, "t_eff": 1.0}
    for g in (lambda k: llh2.simulate_weighted_data(k, 200, par2)[1], ):
        s = np.asarray(g(m.key())[0])
        m.check(len(np.unique(s)) > 0.99 * len(s), "components of one likelihood repeat each other's events", n=len(s), distinct=len(np.unique(s)))
    with keys.monitor() as log:
        for name in ("get_log_likelihood", "simulate_weighted_data"):
            del log[:]
            getattr(llh2, name)(m.key(4), 20, par2)
            jax.effects_barrier()
            m.check(len(log) >= 6, "the monitor saw no draws", draws=len(log))
            m.check(not log.duplicates(), "components of one likelihood draw from the same keys", call=name, dup=log.duplicates()[:3])
            m.seen("likelihood draws", name)


NAMES = {
    "ERBand": ["cs1", "cs2"], "ERPeak": ["cs1", "cs2"], "NR": ["cs1", "cs2"], "ERBandNestV2": ["cs1", "cs2"],
    "ERPeakNestV2": ["cs1", "cs2"], "MonoEnergiesYields": ["energy_center", "charge_yield"],
    "BandEnergiesYields": ["energy", "charge_yield"],
}


@case(repeat=(1, 1))
def shipped_components(m):
    """Shipped components are pure functions too."""
    rng = m.rng()
    names = [str(rng.choice(["ERBand", "NR", "ERBandNestV2"]))] if m.quick else list(NAMES)
    for cname in names:
        c = shipped.build(cname, NAMES[cname], llh_name="p" + cname)
        yields = "Yields" in cname
        par = shipped.parameters(cname)
        n = 1 if yields else 300
        want = _list(c.simulate(m.key(), n, par))
        k, chain = m.key(), []
        for i in range(3):
            k2, out = c.simulate(k, n, par)
            m.check(yields or keys.raw(k2) != keys.raw(k), "the returned key is the one given", component=cname)
            chain.append([np.asarray(o) for o in out])
            k = k2
        np.random.seed(3)
        c.simulate(m.key(1), n, {**par, **{p: v * 1.01 for p, v in par.items()}})
        m.same(_list(c.simulate(m.key(), n, par)), want, "the same arguments give another result", component=cname)
        got_key, got = c.multiple_simulations(m.key(), n, par, 3)
        m.same(np.asarray(got_key), np.asarray(k), "returned key of multiple simulations", component=cname)
        for i in range(len(got)):
            # (measurement points of the literature yields are along the last axis)
            m.same(np.ravel(got[i]), np.ravel(np.hstack([b[i] for b in chain])), "multiple simulations", component=cname, output=i)
        if not yields:
            m.check(not np.array_equal(chain[0][0], chain[1][0]), "chained simulations are identical", component=cname)
            for o in (0, 1):
                m.pvalue(stat.rank_corr(chain[0][o], chain[1][o]), "chained simulations are correlated", component=cname)
        with keys.monitor() as log:
            for key in (m.key(), k):
                c.simulate(key, 1 if yields else 20, par)
            jax.effects_barrier()
            m.check(len(log) >= 4, "the monitor saw no draws", component=cname, draws=len(log))
            m.check(not log.duplicates(), "plugins of one component draw from the same key", component=cname,
                    dup=log.duplicates()[:3])
            m.count("shipped draws", len(log))
        m.seen("shipped", cname)


@case
def shipped_plugins(m):
    """Every shipped plugin alone: same key same output, and a random one passes on a new key."""
    rng = m.rng()
    n = 64
    data, par = shipped.plugin_inputs(rng, n), shipped.merged_parameters(field=23.0)
    for k in ("s1_eff_3f_sigma", "s1_cut_acc_sigma", "s2_cut_acc_sigma"):
        par.setdefault(k, 0.3)
    for pname, cls in sorted(shipped.all_plugins().items()):
        try:
            inst = cls("plug_llh")
        except ValueError:
            m.count("plugins without default configuration")
            continue
        if not set(inst.depends_on) <= set(data):
            m.count("plugins without prepared input")
            continue
        d = dict(data)
        if inst.depends_on == ["batch_size"] or "batch_size" in inst.depends_on:
            d["batch_size"] = n
        k0 = m.key(pname)
        try:
            k1, a = shipped.run_plugin(inst, k0, par, d)
        except KeyError as e:
            m.check(False, "a shipped plugin reads a parameter of no shipped file", plugin=pname, error=repr(e))
        k2, b = shipped.run_plugin(inst, k1, par, d)
        k3, c = shipped.run_plugin(inst, k0, par, d)
        m.same(np.asarray(k3), np.asarray(k1), "the same key returns another key", plugin=pname)
        m.same(list(c.values()), list(a.values()), "the same key gives another result", plugin=pname)
        random = keys.raw(k1) != keys.raw(k0)
        _, e = shipped.run_plugin(inst, m.key(pname, "other"), par, d)
        differ = any(not np.array_equal(a[o], e[o], equal_nan=True) for o in a)
        # the next plugin would draw from the same key
        m.check(random or not differ, "the output depends on the key, but the key is returned as it was given", plugin=pname)
        if random:
            m.check(keys.raw(k2) not in (keys.raw(k0), keys.raw(k1)), "keys of a chain repeat", plugin=pname)
        m.seen("plugin", (pname, random))
