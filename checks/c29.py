"""C29: profiling reports every plugin and does not change the model."""

import contextlib
import copy
import io
import re
import time
import warnings

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree import profiler
from lib import toys
from lib.vh import case

PROPERTY = "C29"
RULE = (
    "components of random dependency graphs (several outputs, overwritten outputs, unused plugins, random and deterministic, jitted or not), "
    "contexts of 1-3 likelihoods with fixed and several simulated components and aliases; batch sizes 1-300, 0-3 warmups, 1-5 runs; "
    "distinct by (graph, counts) and (use, likelihoods, aliases)"
)
TECHNIQUE = "runtime monitoring: recorded calls of every plugin (inputs, outputs, parameters) against the graph, simulations before and after"

RUNS = []  # (likelihood, plugin, parameter, value) of everything which is executed, compiled or not
LOG = []  # (plugin, likelihood, inputs, outputs, parameters)


def quiet(f):
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        res = f()
    return res


def concrete(x):
    return not isinstance(x, jax.core.Tracer)


def value(x):
    return x if isinstance(x, (int, float)) or not concrete(x) else np.asarray(x)


def spy(name, depends_on, provides, factor, random=False, par=(), configs=(), sleep=0.0, first_sleep=0.0):
    """A plugin adding its dependencies, which records what it gets and gives."""
    state = {"calls": 0}

    def body(self, key, parameters, *args):
        t = first_sleep if state["calls"] == 0 else sleep
        state["calls"] += 1
        if t:
            time.sleep(t)
        base = sum((jnp.ones(a) if isinstance(a, int) else jnp.asarray(a)) * (i + 1.0) for i, a in enumerate(args))
        if random:
            key, u = apt.randgen.uniform(key, 0.0, 1.0, shape=base.shape)
            base = base + u
        for p in par:
            base = base + parameters[p]
        outs = [base * factor + j for j in range(len(provides))]
        LOG.append((name, self.llh_name, [value(a) for a in args], [value(o) for o in outs], {k: value(v) for k, v in parameters.items()}))
        return (key, *outs)

    return toys.plugin(name, depends_on, provides, body, par, configs=configs)


def graph(rng, n, tag, random=False, par=False):
    """Plugins of a random acyclic graph, and the names they provide (the last registered plugin of a name counts)."""
    plugins, names, reg = [], ["batch_size"], {}
    for i in range(n):
        if i == 0:
            dep = ["batch_size"]
        else:
            pool = [x for x in names if x != "batch_size"]
            k = int(rng.integers(1, min(3, len(pool)) + 1))
            dep = [str(x) for x in rng.choice(pool, k, replace=False)]
            if rng.random() < 0.15:
                dep.insert(int(rng.integers(len(dep) + 1)), "batch_size")
        prov = [f"{tag}v{i}"] + [f"{tag}w{i}_{j}" for j in range(int(rng.integers(0, 3)))]
        # some also make what another one makes later
        rng.shuffle(prov)
        p = spy(f"Toy{tag}P{i}", dep, prov, float(np.round(rng.uniform(0.5, 1.5), 2)), random=random and rng.random() < 0.4,
                par=("pa",) if par and rng.random() < 0.5 else ())
        plugins.append(p)
        names += prov
    # a plugin overwriting one output of an earlier one
    multi = [i for i in range(n) if len(plugins[i].provides) > 1]
    if multi and rng.random() < 0.6:
        i = int(rng.choice(multi))
        dep = list(plugins[i].depends_on)
        plugins.append(spy(f"Toy{tag}Over", dep, [str(rng.choice(plugins[i].provides))], 2.5))
    for p in plugins:
        for x in p.provides:
            reg[x] = p
    return plugins, reg


def needed(reg, wanted):
    """Plugins needed for the wanted names."""
    out, todo = set(), list(wanted)
    while todo:
        x = todo.pop()
        if x == "batch_size" or reg[x] in out:
            continue
        out.add(reg[x])
        todo += list(reg[x].depends_on)
    return out


def traced_order(c, batch, par):
    """Plugins in the order the simulation executes them."""
    LOG.clear()
    jax.eval_shape(lambda k: c.simulate(k, batch, par), jax.random.PRNGKey(0))
    order = [e[0] for e in LOG]
    LOG.clear()
    return order


def judge_rows(m, rows, order, plugins, **where):
    by = {p.__name__: p for p in plugins}
    m.check([r["plugin"] for r in rows] == list(order), "every plugin once, in the order of execution", got=[r["plugin"] for r in rows], want=order, **where)
    for r in rows:
        p = by[r["plugin"]]
        m.check(list(r["depends_on"]) == list(p.depends_on), "dependencies of the plugin", row=r, **where)
        m.check(len(r["provides"]) > 0 and set(r["provides"]) <= set(p.provides), "outputs of the plugin", row=r, **where)
        for k in ("mean_time_ms", "std_time_ms"):
            m.check(np.isfinite(r[k]) and r[k] >= 0, "times are not negative", row=r, **where)
    m.count("rows", len(rows))


def judge_calls(m, order, reg, batch, n_warmup, n_runs, parameters, **where):
    """Every plugin is run as asked, on outputs of the plugins which provide its inputs."""
    calls = {}
    made = {}
    for name, llh, args, outs, par in LOG:
        calls.setdefault(name, []).append((args, outs, par))
    by = {p.__name__: p for p in set(reg.values())}
    for name in order:
        got = calls.get(name, [])
        m.check(len(got) == n_warmup + n_runs, "warmups and runs of the plugin", plugin=name, got=len(got), n_warmup=n_warmup, n_runs=n_runs, **where)
        for args, outs, par in got:
            for dep, a in zip(by[name].depends_on, args):
                if dep == "batch_size":
                    m.check(isinstance(a, (int, np.integer)) and a == batch, "batch size", got=a, want=batch, plugin=name, **where)
                else:
                    m.check(a.shape == (batch,) and any(np.array_equal(a, o) for o in made[dep]), "input is an output of the plugin providing it",
                            plugin=name, name=dep, **where)
            for k, v in parameters.items():
                m.check(k in par and float(par[k]) == v, "parameters of the plugin", name=k, got=par.get(k), want=v, plugin=name, **where)
        for i, x in enumerate(by[name].provides):
            if reg[x] is by[name]:
                made[x] = [outs[i] for _, outs, _ in got]
    m.check(set(calls) == set(order), "no other plugin is run", got=sorted(calls), want=order, **where)


@case(repeat=(2, 12))
def graphs(m):
    """Components of random graphs."""
    rng = m.rng()
    for j in range(m.pick(5, 8)):
        apt.clear_cache()
        n = int(rng.integers(2, 8))
        random = bool(rng.integers(2))
        plugins, reg = graph(rng, n, "g", random=random, par=True)
        names = list(reg)
        wanted = [str(x) for x in rng.choice(names, int(rng.integers(1, min(4, len(names)) + 1)), replace=False)]
        regs = list(plugins)
        c = quiet(lambda: toys.build(regs, wanted, force_no_eff=True))
        par = {"pa": float(np.round(rng.uniform(0, 1), 3)), "not_needed": 2.0}
        batch = int(rng.choice([1, 2, 17, 300]))
        w, r = int(rng.integers(0, 4)), int(rng.integers(1, 6))
        order = traced_order(c, batch, par)
        m.check(sorted(order) == sorted(p.__name__ for p in needed(reg, wanted)), "the workflow has the needed plugins", order=order)
        key = m.key("sim", j)
        before = [np.asarray(x) for x in c.simulate(key, batch, par)[1]]
        LOG.clear()
        saved = copy.deepcopy(par)
        rows = quiet(lambda: profiler.profile_component(c, par, batch_size=batch, n_warmup=w, n_runs=r, verbose=bool(rng.integers(2))))
        judge_rows(m, rows, order, plugins, wanted=wanted)
        judge_calls(m, order, reg, batch, w, r, par, wanted=wanted)
        m.check(par == saved, "parameters of the caller are not changed")
        LOG.clear()
        after = [np.asarray(x) for x in c.simulate(key, batch, par)[1]]
        again = [np.asarray(x) for x in c.simulate(key, batch + 1, par)[1]]
        m.check(all(np.array_equal(a, b) for a, b in zip(before, after)), "simulations are not changed", batch=batch)
        m.check(all(x.shape == (batch + 1,) for x in again), "other batch sizes still work")
        m.seen("graph", (len(order), len(plugins) - len(order), len(wanted), random, batch, w, r))
        # the values of a component without randomness
        if not random:
            LOG.clear()
            quiet(lambda: profiler.profile_component(c, par, batch_size=batch, n_warmup=0, n_runs=1, verbose=False))
            last = {e[0]: e[3] for e in LOG}
            for x, v in zip(wanted, before):
                p = reg[x]
                m.close(last[p.__name__][list(p.provides).index(x)], v, "profiled outputs are the ones of the simulation", rtol=1e-5, name=x)
    m.sample(order=order, rows=[{k: r_[k] for k in ("plugin", "provides")} for r_ in rows])


@case(repeat=(1, 2))
def overwritten(m):
    """Outputs which another plugin overwrites are the ones of that plugin, whichever runs first."""
    for j, (dep, wanted) in enumerate(((["a", "b"], ["c"]), (["b", "a"], ["c"]), (["b", "x"], ["c", "a"]), (["x", "b"], ["a", "c"]))):
        for first in (0, 1):
            apt.clear_cache()
            multi, over = spy("ToygP0", ["batch_size"], ["a", "b", "x"], 1.5), spy("ToygOver", ["batch_size"], ["b"], 7.0)
            use, more = spy("ToygP2", dep, ["c"], 1.0), spy("ToygP3", ["b"], ["b2"], 0.5)
            plugins = [multi, use, over, more] if first else [multi, over, more, use]
            reg = {x: p for p in plugins for x in p.provides}
            names = wanted + ["b2"] if j % 2 else ["b2"] + wanted
            c = quiet(lambda: toys.build(plugins, names, force_no_eff=True))
            order = traced_order(c, 6, {})
            want = [np.asarray(x) for x in c.simulate(m.key(), 6, {})[1]]
            LOG.clear()
            rows = quiet(lambda: profiler.profile_component(c, {}, batch_size=6, n_warmup=1, n_runs=1, verbose=False))
            judge_rows(m, rows, order, plugins, wanted=names)
            judge_calls(m, order, reg, 6, 1, 1, {}, wanted=names)
            last = {e[0]: e[3] for e in LOG}
            for x, v in zip(names, want):
                m.close(last[reg[x].__name__][list(reg[x].provides).index(x)], v, "profiled outputs are the ones of the simulation", rtol=1e-5, name=x)
            m.seen("overwritten", (j, first, tuple(order)))


@case(repeat=(1, 6))
def times(m):
    """Times are those of the runs, in milliseconds, without the warmups."""
    rng = m.rng()
    for j in range(m.pick(2, 4)):
        apt.clear_cache()
        nap = [0.0, float(rng.uniform(0.004, 0.02)), float(rng.uniform(0.02, 0.04))]
        rng.shuffle(nap)
        slow = 0.25
        w, r = int(rng.integers(1, 3)), int(rng.integers(2, 5))
        plugins = [
            spy("ToyT0", ["batch_size"], ["a"], 1.0, sleep=nap[0]),
            spy("ToyT1", ["a"], ["b"], 1.0, sleep=nap[1], first_sleep=0.0),
            spy("ToyT2", ["b"], ["c"], 1.0, sleep=nap[2]),
        ]
        c = quiet(lambda: toys.build(plugins, ["c"], force_no_eff=True))
        traced_order(c, 5, {})
        # the first call of the profiler is slow
        late = spy("ToyT3", ["batch_size"], ["d"], 1.0, first_sleep=slow)
        c2 = quiet(lambda: toys.build([late], ["d"], force_no_eff=True, name="toy2", func_name="simulate_toy2"))
        for comp, naps, lazy in ((c, nap, 0.0), (c2, [0.0], slow)):
            t0 = time.perf_counter()
            rows = quiet(lambda: profiler.profile_component(comp, {}, batch_size=5, n_warmup=w, n_runs=r, verbose=False))
            wall = (time.perf_counter() - t0) * 1e3
            m.check(sum(x["mean_time_ms"] for x in rows) * r <= wall - lazy * 1e3 + 0.5, "the runs fit in the time of the profile, without the warmups",
                    rows=rows, wall=wall, runs=r)
            for x, nap_ in zip(rows, naps):
                m.check(x["mean_time_ms"] >= nap_ * 1e3 * 0.999, "mean time of a run in ms", row=x, nap=nap_)
                # a spread over runs can not be beyond what their sum allows
                m.check(x["std_time_ms"] <= x["mean_time_ms"] * np.sqrt(r) + 1e-9, "spread of the runs", row=x)
            m.seen("times", (w, r, len(rows)))
        # one single run has no spread; alternating times have theirs
        rows = quiet(lambda: profiler.profile_component(c, {}, batch_size=5, n_warmup=1, n_runs=1, verbose=False))
        m.check(all(x["std_time_ms"] == 0 for x in rows), "a single run has no spread", rows=rows)
        alt = {"n": 0}

        def body(self, key, parameters, batch_size):
            alt["n"] += 1
            time.sleep(0.08 if alt["n"] % 2 else 0.0)
            return key, jnp.ones(batch_size)

        p = toys.plugin("ToyAlt", ["batch_size"], ["alt"], body)
        inst = p("toy_llh")
        key, out, mean, std = profiler.profile_plugin(inst, m.key(), {}, {"batch_size": 4}, n_warmup=0, n_runs=4)
        m.check(alt["n"] == 4 and mean >= 40 and std > 0, "mean and spread of alternating runs", mean=mean, std=std, calls=alt["n"])
        m.check(set(out) == {"alt"} and np.array_equal(out["alt"], np.ones(4)), "outputs of the plugin")


@case(repeat=(1, 4))
def one_plugin(m):
    """A single plugin: outputs by name, the key, input left alone."""
    rng = m.rng()
    for _ in range(m.pick(6, 12)):
        k = int(rng.integers(1, 4))
        dep = [f"x{i}" for i in range(k)]
        p = spy("ToySolo", dep, ["u", "v", "w"][: int(rng.integers(1, 4))], 2.0, random=bool(rng.integers(2)), par=("pa",))
        inst = p("toy_llh")
        n = int(rng.integers(1, 50))
        data = {d: jnp.asarray(rng.uniform(0, 1, n)) for d in dep}
        data["unrelated"] = jnp.zeros(3)
        keys_before, par = list(data), {"pa": 0.5}
        LOG.clear()
        w, r = int(rng.integers(0, 3)), int(rng.integers(1, 4))
        key, out, mean, std = profiler.profile_plugin(inst, m.key(), par, data, n_warmup=w, n_runs=r)
        m.check(list(data) == keys_before and par == {"pa": 0.5}, "inputs are not changed")
        m.check(len(LOG) == w + r, "warmups and runs", got=len(LOG), want=(w, r))
        m.check(list(out) == list(p.provides), "every output by its name", got=list(out))
        m.check(all(np.array_equal(out[x], LOG[-1][3][i]) for i, x in enumerate(p.provides)), "outputs of the last run by name")
        m.check(mean >= 0 and std >= 0, "times")
        jax.random.uniform(key, ())  # a usable key
        m.seen("plugin", (k, len(out), w, r))


# ------------------------------------------------------------------ contexts


def make_context(rng, n_llh, with_fixed, n_comp, alias):
    """A context of spying components; returns it, the names of its components and what each likelihood has to use."""
    apt.clear_cache()
    cls = []
    for k in range(n_comp):
        tag = f"c{k}"

        def obs(name, dep, out, scale, par, tag=tag):
            def body(self, key, parameters, *args):
                a = args[0]
                key, u = apt.randgen.uniform(key, 1.0, 10.0, shape=(a,)) if isinstance(a, int) else (key, a)
                v = u * scale + parameters[par] - parameters[par] if par else u * scale
                if par:
                    jax.debug.callback(lambda x, llh=self.llh_name: RUNS.append((llh, name, par, float(x))), parameters[par])
                LOG.append((name, self.llh_name, [value(x) for x in args], [value(v)], {k_: value(x) for k_, x in parameters.items()}))
                return key, v

            return toys.plugin(name, dep, out, body, (par,) if par else ())

        ps = [obs(f"ToyE{tag}", ["batch_size"], ["t_energy"], 1.0, None), obs(f"ToyA{tag}", ["t_energy"], ["cs1"], 3.0, "t_mu"),
              obs(f"ToyB{tag}", ["t_energy"], ["cs2"], 100.0, "t_sig"), obs(f"ToyF{tag}", ["cs1"], ["eff"], 0.0, "t_eff")]
        # an efficiency of one
        def eff(self, key, parameters, cs1, name=f"ToyF{tag}"):
            v = jnp.ones_like(cs1) * (1.0 + 0.0 * parameters["t_eff"])
            LOG.append((name, self.llh_name, [value(cs1)], [value(v)], {k_: value(x) for k_, x in parameters.items()}))
            return key, v

        ps[3] = toys.plugin(f"ToyF{tag}", ["cs1"], ["eff"], eff, ("t_eff",))
        toys.component_cls(f"ToySpy{k}", ps)
        cls.append(ps)
    toys.fixed_cls("ToyFixedP", add_eps=True)
    ins, want = None, {}
    par = {"rate": toys.par_uniform(0.1, 3000, init_mean=300, init_std=10.0)}
    for p, v in (("t_mu", 3.0), ("t_sig", 1.0), ("t_eff", 0.9)):
        par[p] = toys.par_norm(v, 0.1)
    tpl = toys.write_band_data(rng, 200)
    for i in range(n_llh):
        llh = f"l{i}"
        comps = {f"c{k}": f"ToySpy{k}" for k in range(n_comp)}
        cp = {f"c{k}_rate": "rate" for k in range(n_comp)}
        if with_fixed:
            comps["fix"] = {"component_cls": "ToyFixedP", "file_name": tpl}
            cp["fix_rate"] = "rate"
        al = {}
        if alias and i % 2 == 0:
            for p in ("t_mu", "t_sig", "t_eff"):
                if rng.random() < 0.7:
                    al[f"{p}_{llh}"] = p
                    par[f"{p}_{llh}"] = toys.par_norm(5.0 + i, 0.1)
        one = toys.toy_instruct(rng, comps, llh_name=llh, copy=cp, alias=al or None, par_config={})
        if ins is None:
            ins = one
        else:
            ins["likelihoods"].update(one["likelihoods"])
        for k in range(n_comp):
            want[f"{llh}/c{k}"] = (cls[k], {p: next((a for a, b in al.items() if b == p), p) for p in ("t_mu", "t_sig", "t_eff")})
    ins["par_config"] = toys.dump_json(par, name="par.json")
    c = quiet(lambda: apt.Context(ins))
    return c, want


def pars(rng, c):
    quiet(lambda: c.par_manager.sample_init())
    return {k: float(np.float32(v)) for k, v in c.par_manager.get_all_parameter().items()}


def judge_context(m, results, want, par, batch, w, r):
    m.check(set(results) == set(want), "every simulated component under its own name", got=sorted(results), want=sorted(want))
    for name, (plugins, use) in want.items():
        llh = name.split("/")[0]
        rows = results[name]
        m.check(sorted(x["plugin"] for x in rows) == sorted(p.__name__ for p in plugins), "plugins of the component", name=name, rows=rows)
        place = {x["plugin"]: i for i, x in enumerate(rows)}
        reg = {x: p for p in plugins for x in p.provides}
        for x in rows:
            m.check(x["mean_time_ms"] >= 0 and x["std_time_ms"] >= 0, "times are not negative", row=x)
            for d in x["depends_on"]:
                if d != "batch_size":
                    m.check(place[reg[d].__name__] < place[x["plugin"]], "in the order of execution", rows=rows)
        for p in plugins:
            calls = [e for e in LOG if e[0] == p.__name__ and e[1] == llh and all(concrete(a) for a in e[2])]
            m.check(len(calls) == w + r, "runs of the plugin", plugin=p.__name__, llh=llh, got=len(calls), want=w + r)
            for e in calls:
                for a in e[2]:
                    m.check(a == batch if isinstance(a, int) else a.shape == (batch,), "batch size", plugin=p.__name__)
                if par is not None:
                    for orig, own in use.items():
                        m.check(orig in e[4] and float(e[4][orig]) == par[own], "parameters with aliases", plugin=p.__name__, llh=llh, name=orig,
                                got=e[4].get(orig), want=par[own])


@case(repeat=(3, 12))
def whole_contexts(m):
    """All components of a context."""
    rng = m.rng()
    for j in range(m.pick(2, 3)):
        n_llh, n_comp = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        fixed, alias = bool(rng.integers(2)), bool(rng.random() < 0.7)
        c, want = make_context(rng, n_llh, fixed, n_comp, alias)
        par = pars(rng, c)
        batch, w, r = int(rng.choice([1, 30, 200])), int(rng.integers(0, 3)), int(rng.integers(1, 4))
        key, llhs = m.key(j), sorted({k.split("/")[0] for k in want})

        def state():
            out = [float(c[x].get_log_likelihood(key, 600, par)[1]) for x in llhs]
            for k in want:
                a, b = k.split("/")
                out += [np.asarray(v).tolist() for v in c[a][b].simulate(key, 20, c[a].replace_alias(par))[1]]
            return out

        before, manager = quiet(state), copy.deepcopy(c.par_manager.get_all_parameter())
        saved = copy.deepcopy(par)
        LOG.clear()
        verbose = bool(rng.integers(2))
        res = quiet(lambda: profiler.profile_context(c, batch_size=batch, n_warmup=w, n_runs=r, parameters=par, verbose=verbose))
        judge_context(m, res, want, par, batch, w, r)
        m.check(par == saved, "parameters of the caller are not changed", par=par, saved=saved)
        m.check(c.par_manager.get_all_parameter() == manager, "parameters of the context are not changed")
        LOG.clear()
        m.check(quiet(state) == before, "simulations are not changed")
        jax.effects_barrier()
        RUNS.clear()
        full = quiet(lambda: profiler.profile_full_simulation(c, batch_size=batch, n_warmup=w, n_runs=r, parameters=par, verbose=verbose))
        jax.effects_barrier()
        for k, (plugins, use) in want.items():
            names = {p.__name__ for p in plugins}
            for orig in ("t_mu", "t_sig"):
                got = [v for llh, name, q, v in RUNS if llh == k.split("/")[0] and name in names and q == orig]
                m.check(len(got) == w + r, "warmups and runs of the full simulation", name=k, got=len(got), want=w + r)
                m.check(all(v == par[use[orig]] for v in got), "parameters of the full simulation, with aliases", name=k, parameter=orig, got=got, want=par[use[orig]])
        m.check(set(full) == set(want), "every simulated component under its own name", got=sorted(full), want=sorted(want))
        for k, v in full.items():
            m.check(np.isfinite(v["mean_time_ms"]) and v["mean_time_ms"] >= 0 and v["std_time_ms"] >= 0, "times", name=k, got=v)
        quiet(lambda: profiler.compare_plugin_vs_full(c, batch_size=batch, n_warmup=1, n_runs=1, parameters=par))
        m.check(par == saved and c.par_manager.get_all_parameter() == manager, "parameters are not changed")
        m.check(quiet(state) == before, "simulations are not changed")
        # without parameters, with own ones of the context
        LOG.clear()
        out = []
        text = printed(lambda: out.append(profiler.profile_context(c, batch_size=batch, n_warmup=1, n_runs=1, verbose=False)))
        res = out[0]
        judge_context(m, res, want, None, batch, 1, 1)
        m.check(not text.strip(), "nothing is printed unless it is asked for", text=text)
        kept = list(LOG)
        shown = printed(lambda: profiler.profile_full_simulation(c, batch_size=5, n_warmup=0, n_runs=1, parameters=par, verbose=False))
        jax.effects_barrier()
        LOG[:] = kept
        m.check(not shown.strip(), "nothing is printed unless it is asked for", text=shown)
        for e in LOG:
            for k, v in e[4].items():
                m.check(np.isfinite(float(v)), "sampled parameters", name=k)
        m.check(quiet(state) == before, "simulations are not changed")
        m.seen("context", (n_llh, n_comp, fixed, alias, batch, w, r))
    m.sample(components=sorted(want), rows=[x["plugin"] for x in res[sorted(want)[0]]])


@case(repeat=(1, 3))
def full_simulation(m):
    """Times of the full simulation are those of its runs."""
    rng = m.rng()
    apt.clear_cache()
    nap, n = 0.012, {"n": 0}

    def wait(x):
        n["n"] += 1
        time.sleep(nap if n["n"] > 1 else 0.3)
        return np.asarray(x)

    plugins = toys.band_plugins(jit=False)

    def energy(self, key, parameters, batch_size):
        key, e = apt.randgen.uniform(key, 1.0, 10.0, shape=(batch_size,))
        return key, jax.pure_callback(wait, jax.ShapeDtypeStruct(e.shape, e.dtype), e)

    plugins[0] = toys.plugin("ToyEnergy", ["batch_size"], ["t_energy"], energy)
    toys.component_cls("ToyBand", plugins)
    c = quiet(lambda: apt.Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l0")))
    par = pars(rng, c)
    for w, r in ((1, 2), (2, 4)):
        n["n"] = 0
        t0 = time.perf_counter()
        full = quiet(lambda: profiler.profile_full_simulation(c, batch_size=40, n_warmup=w, n_runs=r, parameters=par, verbose=False))
        wall = (time.perf_counter() - t0) * 1e3
        row = full["l0/er"]
        m.check(n["n"] == w + r, "warmups and runs", got=n["n"], want=w + r)
        m.check(row["mean_time_ms"] >= nap * 1e3 * 0.999, "mean time in ms", row=row)
        m.check(row["mean_time_ms"] * r <= wall - 300 + 0.5, "without the warmups", row=row, wall=wall)
        m.check(0 <= row["std_time_ms"] <= row["mean_time_ms"] * np.sqrt(r), "spread", row=row)
        m.seen("full", (w, r))


# ------------------------------------------------------------------ printed reports


def printed(f):
    out = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(out):
        warnings.simplefilter("ignore")
        f()
    return out.getvalue()


@case(repeat=(1, 6))
def reports(m):
    """The printed summary has the totals of the components and the slowest plugins in order."""
    rng = m.rng()
    for _ in range(m.pick(5, 20)):
        res, flat = {}, []
        for i in range(int(rng.integers(1, 4))):
            rows = []
            for j in range(int(rng.integers(1, 7))):
                t = float(np.round(rng.uniform(0.1, 500), 3))
                while any(abs(t - x) < 0.01 for x, _ in flat):
                    t = float(np.round(rng.uniform(0.1, 500), 3))
                rows.append(dict(plugin=f"Plug{i}x{j}", provides=["a"], depends_on=["b"], mean_time_ms=t, std_time_ms=0.1))
                flat.append((t, f"Plug{i}x{j}"))
            res[f"llh{i}/comp{i}"] = rows
        saved = copy.deepcopy(res)
        top = int(rng.integers(1, 8))
        text = printed(lambda: profiler.print_profile_summary(res, top_n=top))
        m.check(res == saved, "results are not changed")
        for k, rows in res.items():
            total = sum(x["mean_time_ms"] for x in rows)
            line = next((ln for ln in text.splitlines() if k in ln), "")
            nums = [float(x) for x in re.findall(r"[-+]?\d+\.\d+", line)]
            m.check(any(abs(x - total) < 0.006 for x in nums), "total of the component", line=line, want=total)
        grand = sum(t for t, _ in flat)
        nums = [float(x) for x in re.findall(r"[-+]?\d+\.\d+", text)]
        m.check(any(abs(x - grand) < 0.006 for x in nums), "grand total", text=text, want=grand)
        shown = re.findall(r"Plug\dx\d", text)
        m.check(shown == [p for _, p in sorted(flat, reverse=True)][:top], "the slowest plugins, slowest first", got=shown, want=sorted(flat, reverse=True)[:top])
        m.seen("summary", (len(flat), top))


@case(repeat=(1, 4))
def worksheets(m):
    """Printed worksheets, code and verbose reports name the plugins in the order of execution."""
    rng = m.rng()
    for _ in range(m.pick(3, 6)):
        apt.clear_cache()
        plugins, reg = graph(rng, int(rng.integers(2, 7)), "q")
        wanted = [str(rng.choice(list(reg)))]
        c = quiet(lambda: toys.build(plugins, wanted, force_no_eff=True))
        order = traced_order(c, 3, {})
        for text in (printed(lambda: profiler.print_worksheet(c)),
                     printed(lambda: profiler.profile_component(c, {}, batch_size=3, n_warmup=0, n_runs=1, verbose=True))):
            m.check(re.findall(r"Toyq(?:P\d|Over)\b", text) == order, "plugins in the order of execution", text=text, want=order)
        text = printed(lambda: profiler.profile_component(c, {}, batch_size=3, n_warmup=0, n_runs=1, verbose=False))
        m.check(not text.strip(), "nothing is printed unless it is asked for", text=text)
        text = printed(lambda: profiler.print_component_code(c))
        m.check(c.code in text, "the code of the component")
        m.seen("printed", len(order))
    # nothing deduced yet
    fresh = type("ToyComp", (apt.component.ComponentSim,), {"norm_type": "on_pdf"})(name="fresh", llh_name="toy_llh")
    m.raises(Exception, lambda: profiler.profile_component(fresh, {}, batch_size=3, verbose=False), "a component which is not deduced")


@case(repeat=(1, 1))
def shipped(m):
    """The shipped contexts: every component with its plugins."""
    for name in ("ContextRn220", "ContextRn220Ar37")[: m.pick(1, 2)]:
        apt.clear_cache()
        c = quiet(lambda: getattr(apt, name)())
        par = pars(m.rng(), c)
        saved = dict(par)
        res = quiet(lambda: profiler.profile_context(c, batch_size=100, n_warmup=0, n_runs=1, parameters=par, verbose=False))
        want = {}
        for ln, llh in c.likelihoods.items():
            for cn, comp in llh.components.items():
                if not isinstance(comp, apt.component.ComponentFixed):
                    want[f"{ln}/{cn}"] = comp
        m.check(set(res) == set(want), "every simulated component", got=sorted(res), want=sorted(want))
        m.check(par == saved, "parameters of the caller are not changed")
        for k, rows in res.items():
            names = [x["plugin"] for x in rows]
            m.check(len(set(names)) == len(names) and len(names) > 5, "every plugin once", names=names)
            have = set()
            for x in rows:
                m.check(all(d in have or d == "batch_size" for d in x["depends_on"]), "in the order of execution", row=x)
                have |= set(x["provides"])
                m.check(x["mean_time_ms"] >= 0 and x["std_time_ms"] >= 0, "times", row=x)
            m.check({"eff"} <= have, "the efficiency is reported", have=sorted(have))
            m.seen("shipped", (name, k, len(names)))
