"""C02: needed parameters are exactly what the simulation reads."""

import numpy as np
import jax
from jax import numpy as jnp

import appletree as apt
from appletree import Context, Likelihood
from lib import toys, shipped as sh
from lib.record import reads
from lib.vh import case

PROPERTY = "C02"
RULE = (
    "shipped plugins and components (whole and deduced subsets), generated components with every form of "
    "map configuration, likelihoods with aliases and contexts; each name read inside of the traced "
    "simulation is an event; distinct by (component, requested names, set of reads)"
)
TECHNIQUE = "runtime monitoring: recorder of every parameter name read inside of the traced simulation"

BINS = (np.linspace(0, 30, 4), np.tile(np.linspace(0, 1000, 4), (3, 1)))


@case
def shipped_plugins(m):
    """What a shipped plugin declares (and the scalers of its maps) is what it reads."""
    rng = m.rng()
    data = sh.plugin_inputs(rng, 4)
    for variant in range(2):
        if variant:
            apt.set_global_config({"efield_position_dependence": True})
        for name, cls in sh.all_plugins().items():
            if not set(cls.depends_on) <= set(data):
                continue
            inst = cls("toy_llh")
            par = {k: 0.5 for k in sh.merged_parameters()}
            par.update({k: 0.5 for k in cls.parameters})
            want = set(cls.parameters)
            for c in cls.takes_config.values():
                r = c.required_parameter("toy_llh")
                if r is not None:
                    want.add(r)
                    par[r] = 0.5
            got = reads(
                lambda p: jax.eval_shape(
                    lambda k, q: inst.simulate(k, q, *[data[d] for d in cls.depends_on]), m.key(), p
                ),
                par,
            )
            m.check(got <= want, f"{name} reads parameters it does not declare", got=got, want=want)
            if not variant:
                m.check(got >= want, f"{name} declares parameters it does not read", got=got, want=want)
            m.seen("plugin", (name, tuple(sorted(got))))
        from lib.vh import reset

        reset()


def _exact(m, c, needed, par, what, withhold=3, batch=3, rng=None, func="simulate_hist"):
    """needed is exactly what func reads: enough, nothing more, nothing less."""
    needed = set(needed)
    m.check(needed <= set(par), f"{what}: needs an unknown parameter", needed=needed, known=sorted(par))
    just = {k: par[k] for k in needed}
    f = getattr(c, func)
    got = reads(lambda p: f(m.key(what), batch, p), just)
    m.check(got == needed, f"{what}: reads differ from the needed parameters",
            read_only=got - needed, needed_only=needed - got)
    m.count("names read", len(got))
    m.seen("reads", (what, tuple(sorted(got))))
    names = sorted(needed)
    if withhold and names:
        for k in list(rng.permutation(names)[:withhold]):
            less = {a: b for a, b in just.items() if a != k}
            try:
                f(m.key(what), batch, less)
            except KeyError:
                m.count("withheld")
            else:
                m.fail(f"{what}: simulates without the needed parameter {k}")
    m.check(True, "ok")


@case
def shipped_components(m):
    """Shipped components through their histogram, weighted data and bare simulation."""
    rng = m.rng()
    par0 = sh.merged_parameters(shipped_rate=100.0, field=80.0)
    for cname in m.pick(["ERBandNestV2"], [c for c in sh.FILES if "Yields" not in c]):
        par = dict(par0)
        par.update(sh.parameters(cname), shipped_rate=100.0)
        c = getattr(apt.components, cname)(name="shipped", llh_name=cname, bins=BINS, bins_type="irreg")
        c.rate_name = "shipped_rate"
        c.deduce(data_names=["cs1", "cs2"])
        c.compile()
        _exact(m, c, c.needed_parameters, par, cname, withhold=1, rng=rng)
        m.sample(component=cname, needed=sorted(c.needed_parameters))
    # subsets
    subsets = {
        "ERBand": [["num_photon", "num_electron"], ["s1_area"], ["energy", "z"], ["drift_survive_prob"], ["recomb"]],
        "MonoEnergiesYields": [["energy", "light_yield"], ["charge_yield"], ["ThomasImel"]],
        "NR": [["light_yield"], ["cs1"]],
    }
    for cname, subs in subsets.items():
        c = getattr(apt.components, cname)(name="shipped", llh_name=cname + "s")
        for i, sub in enumerate(subs):
            # the same component deduced again: nothing left from before
            c.rate_name = ""
            c.llh_name = f"{cname}s{i}"
            c.deduce(data_names=sub, func_name=f"f{i}", force_no_eff=True)
            c.compile()
            par = dict(par0, **sh.parameters(cname))
            needed = set(c.needed_parameters)
            m.check(needed <= set(par), "unknown needed parameter", needed=needed)
            just = {k: par[k] for k in needed}
            got = reads(lambda p: jax.eval_shape(lambda k, q: c.simulate(k, 3, q), m.key(), p), just)
            m.check(got == needed, f"{cname} {sub}: reads differ from the needed parameters",
                    read_only=got - needed, needed_only=needed - got)
            m.seen("subset", (cname, tuple(sub), tuple(sorted(got))))


def _generated(rng, prefix, n, curve):
    """Component of plugins with parameters and maps of every kind of configuration."""
    plugins, last, names, want, configs = [], ["batch_size"], {}, set(), {}
    for i in range(n):
        kind = str(rng.choice(["par", "none", "four", "three", "string", "dict4", "dictstr", "setfour", "map"]))
        name = f"{prefix}m{i}"
        conf, pars, reads_ = [], (), set()
        four = [curve, curve, curve, f"{prefix}scaler{i}"]
        if kind == "par":
            pars = (f"{prefix}p{i}", f"{prefix}q{i}")
            reads_ = set(pars)
        elif kind == "four":
            conf = [toys.SigmaMap(name=name, method="LERP", default=four)]
            reads_ = {four[-1]}
        elif kind == "three":
            conf = [toys.SigmaMap(name=name, method="LERP", default=four[:3])]
            reads_ = {name + "_sigma"}
        elif kind == "string":
            conf = [toys.SigmaMap(name=name, method="LERP", default=curve)]
        elif kind == "dict4":
            conf = [toys.SigmaMap(name=name, method="LERP", default=curve)]
            configs[name] = {prefix + "llh": four, "other": [curve, curve, curve, "wrong_scaler"]}
            reads_ = {four[-1]}
        elif kind == "dictstr":
            conf = [toys.SigmaMap(name=name, method="LERP", default=four)]
            configs[name] = {prefix + "llh": curve, "other": four}
        elif kind == "setfour":
            conf = [toys.SigmaMap(name=name, method="LERP", default=[curve] * 3 + [f"{prefix}unused"])]
            configs[name] = four
            reads_ = {four[-1]}
        elif kind == "map":
            conf = [toys.Map(name=name, method="LERP", default=curve)]
        dep = str(last[int(rng.integers(len(last)))])
        out = f"{prefix}d{i}"

        def body(self, key, parameters, a, kind=kind, name=name, pars=pars, dep=dep):
            x = jnp.ones(a) if dep == "batch_size" else a
            for p in pars:
                x = x * parameters[p]
            if kind in ("four", "three", "string", "dict4", "dictstr", "setfour"):
                x = x + getattr(self, name).apply(x, parameters)
            if kind == "map":
                x = x + getattr(self, name).apply(x)
            return key, x

        plugins.append(toys.plugin(f"{prefix}P{i}", [dep], [out], body, pars, conf))
        names[out] = (dep, reads_)
        last.append(out)
    return plugins, names, configs


def _closure(names, req):
    want, todo = set(), list(req)
    seen = set()
    while todo:
        d = todo.pop()
        if d == "batch_size" or d in seen:
            continue
        seen.add(d)
        dep, r = names[d]
        want |= r
        todo.append(dep)
    return want


@case(repeat=(1, 5))
def generated(m):
    """Generated components: needed == declared by the plugins of the workflow and their maps."""
    rng = m.rng()
    curve = toys.point_map([0, 1, 2], [1, 1, 1])
    for g in range(m.pick(8, 25)):
        prefix = f"N{g}x"
        plugins, names, configs = _generated(rng, prefix, int(rng.integers(2, 8)), curve)
        if configs:
            apt.set_global_config(configs)
        cls = toys.component_cls(prefix + "C", plugins, add=False)
        c = cls(name=prefix + "c", llh_name=prefix + "llh")
        for k in range(2):
            req = [str(d) for d in rng.permutation(sorted(names))[: int(rng.integers(1, 3))]]
            rate = str(rng.choice(["", prefix + "rate"]))
            c.rate_name = rate
            c.deduce(data_names=req, func_name=f"f{k}", force_no_eff=True) if k == 0 else None
            if k == 1:
                c = cls(name=prefix + "c2", llh_name=prefix + "llh")
                c.rate_name = rate
                c.deduce(data_names=req, func_name=f"f{k}", force_no_eff=True)
            c.compile()
            want = _closure(names, req)
            m.check(set(c.needed_parameters) == want | ({rate} - {""}), "needed parameters of a generated component",
                    got=set(c.needed_parameters), want=want | ({rate} - {""}), requested=req)
            par = {p: 1.0 for p in want}
            got = reads(lambda p: jax.eval_shape(lambda kk, q: c.simulate(kk, 3, q), m.key(), p), par)
            m.check(got == want, "reads of a generated component", got=got, want=want)
            for miss in sorted(want)[:2]:
                m.raises(KeyError, lambda: c.simulate(m.key(), 3, {p: 1.0 for p in want if p != miss}),
                         "withheld parameter of a generated component", withheld=miss)
            m.seen("generated", (len(want), len(req), tuple(sorted(w[0][len(prefix):] for w in c.worksheet))))


@case
def likelihoods(m):
    """Likelihoods with simulated and fixed components, aliases, scalers, normalisations."""
    rng = m.rng()
    curve = toys.point_map([0, 100], [1, 1])
    plugins = toys.band_plugins()

    def acc(self, key, parameters, cs2):
        return key, self.lk_map.apply(cs2, parameters) * parameters["lk_par"]

    plugins[-1] = toys.plugin(
        "ToyEffMap", ["cs2"], ["eff"], acc, ("lk_par",),
        [toys.SigmaMap(name="lk_map", method="LERP", default=[curve] * 3)],
    )
    Sim = toys.component_cls("LkSim", plugins)
    SimN = toys.component_cls("LkSimN", plugins, norm_type="on_sim")
    Fix = toys.fixed_cls("LkFix")
    ac = toys.write_band_data(rng, 200)
    conf = dict(data_file_name=toys.write_band_data(rng, 200), bins_type="equiprob", bins_on=["cs1", "cs2"],
                bins=[3, 3], x_clip=[3, 28], y_clip=[120, 1000])
    base = {"t_mu", "t_sig", "lk_par", "lk_map_sigma"}
    aliases = [
        {},
        {"my_mu": "t_mu"},
        {"my_mu": "t_mu", "my_sigma": "lk_map_sigma", "unrelated": "nothing"},
        {"my_rate": "a_rate", "my_par": "lk_par"},
        {"x_b": "b_rate"},
    ]
    for i, alias in enumerate(aliases):
        if m.quick and i not in (2, 3):
            continue
        llh = Likelihood(name=f"lk{i}", **conf, parameter_alias=alias)
        llh.register_component(Sim, "a")
        llh.register_component(SimN if i % 2 else Sim, "b")
        if i != 3:
            llh.register_component(Fix, "f", ac)
        want = base | {"a_rate", "b_rate"} | ({"f_rate"} if i != 3 else set())
        for k, v in alias.items():
            if v in want:
                want = (want - {v}) | {k}
        m.check(set(llh.needed_parameters) == want, "needed parameters of a likelihood",
                got=set(llh.needed_parameters), want=want, alias=alias)
        values = dict(t_mu=3.0, t_sig=1.0, lk_par=0.9, lk_map_sigma=0.1)
        par = {k: values.get(alias.get(k, k), 100.0) for k in want}
        # another batch size each time, the simulation has to be traced to be observed
        for what, f in (
            ("log likelihood", lambda p: llh.get_log_likelihood(m.key(i), 2000, p)),
            ("weighted data", lambda p: llh.simulate_weighted_data(m.key(i), 2001, p)),
            ("number of events", lambda p: llh.get_num_events_accepted(2002, p)),
        ):
            got = reads(f, par)
            real = {alias.get(k, k) for k in want}
            m.check(got - set(alias) == real, f"reads of the {what}", got=got, want=real, alias=alias)
            m.seen(what, (i, tuple(sorted(got))))
        for k in [str(x) for x in rng.permutation(sorted(want))[: m.pick(4, 20)]]:
            less = {a: b for a, b in par.items() if a != k}
            m.raises(KeyError, lambda: llh.get_log_likelihood(m.key(i), 50, less), "withheld parameter", withheld=k,
                     alias=alias)
    # a component of fixed shape needs its rate only
    fix = Fix(name="fx", llh_name="fx", bins=llh._bins, bins_type="irreg", file_name=ac)
    fix.rate_name = "fx_rate"
    fix.deduce(data_names=["cs1", "cs2"])
    m.check(set(fix.needed_parameters) == {"fx_rate"}, "needed parameters of a fixed component",
            got=set(fix.needed_parameters))
    fix.simulate_hist({"fx_rate": 3.0})
    m.raises(KeyError, lambda: fix.simulate_hist({"other": 3.0}), "fixed component without rate")


@case
def contexts(m):
    """A context starts with exactly the needed parameters and refuses to start with others."""
    rng = m.rng()
    toys.component_cls("CxSim", toys.band_plugins())
    toys.fixed_cls("CxFix")
    ac = toys.write_band_data(rng, 200)
    data = toys.write_band_data(rng, 200)
    extra_names = ["surplus", "t_mu2", "a_ratee", "eff", "cs1", "er_rate"]
    for i in range(m.pick(3, 8)):
        par = toys.band_par_config()
        comps = {"a": "CxSim"}
        copy = {"a_rate": "rate"}
        if i % 2:
            comps["f"] = {"component_cls": "CxFix", "file_name": ac}
            copy["f_rate"] = "rate"
        alias = {"mu_alias": "t_mu"} if i % 3 == 2 else {}
        if alias:
            par["mu_alias"] = par.pop("t_mu")
        apt.clear_cache()
        c = Context(toys.toy_instruct(rng, comps, par_config=par, copy=copy, alias=alias, data=data))
        want = ({"t_mu", "t_sig", "t_eff"} - set(alias.values())) | set(alias) | set(copy)
        m.check(set(c.needed_parameters) == want, "needed parameters of a context",
                got=set(c.needed_parameters), want=want)
        m.check(set(c.par_manager.get_all_parameter()) == want, "parameters of a context",
                got=set(c.par_manager.get_all_parameter()), want=want)
        c.print_context_summary(short=bool(i % 2))
        c.fitting(nwalkers=8, iteration=1, batch_size=500)
        m.check(c.sampler.iteration == 1, "context fits with exactly the needed parameters")
        m.count("contexts accepted")
        for extra in [str(e) for e in rng.permutation(extra_names)[:3]]:
            kind = [toys.par_norm(1, 0.1), toys.par_fixed(1.0), toys.par_uniform(0, 2)][int(rng.integers(3))]
            bad = dict(par, **{extra: kind})
            apt.clear_cache()
            ctx = Context(toys.toy_instruct(rng, comps, par_config=bad, copy=copy, alias=alias, data=data))
            m.raises(RuntimeError, lambda: ctx.fitting(nwalkers=8, iteration=1, batch_size=500),
                     "fit with a parameter nothing needs", extra=extra)
            m.raises(RuntimeError, lambda: ctx.print_context_summary(), "summary with a parameter nothing needs",
                     extra=extra)
            m.seen("refused", (extra, tuple(comps), bool(alias)))
        # one that nothing needs, in a list that lacks as many (or more) that are needed
        for lacking in (1, 2):
            for extra in [str(e) for e in rng.permutation(extra_names)[: m.pick(1, 3)]]:
                bad = dict(par, **{extra: toys.par_norm(1, 0.1)})
                for k in [str(k) for k in rng.permutation(sorted(want - set(copy)))[:lacking]]:
                    bad.pop(k)
                apt.clear_cache()
                try:
                    ctx = Context(toys.toy_instruct(rng, comps, par_config=bad, copy=copy, alias=alias, data=data))
                except Exception:
                    m.count("refused on construction")
                    continue
                m.raises(Exception, lambda: ctx.fitting(nwalkers=8, iteration=1, batch_size=500),
                         "fit with a parameter nothing needs, others lacking", extra=extra, have=sorted(bad))
                m.raises(RuntimeError, lambda: ctx.print_context_summary(),
                         "summary with a parameter nothing needs, others lacking", extra=extra, have=sorted(bad))
                m.seen("refused, others lacking", (extra, tuple(sorted(bad))))
        if alias:
            bad = dict(par, t_mu=toys.par_norm(3.0, 0.1))
            apt.clear_cache()
            ctx = Context(toys.toy_instruct(rng, comps, par_config=bad, copy=copy, alias=alias, data=data))
            m.raises(RuntimeError, lambda: ctx.fitting(nwalkers=8, iteration=1, batch_size=500),
                     "fit with the original of an alias that nothing needs any more")
