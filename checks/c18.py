"""C18: aliases and copies of parameters act on their own likelihood only."""

import copy
import json

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree import Context, profiler
from appletree.utils import get_file_path
from lib import toys
from lib.vh import case
from checks.c14 import EX, poisson
from checks.c15 import log_density

PROPERTY = "C18"
RULE = (
    "contexts of 2-4 binned and literature likelihoods with none, own, shared and several aliases (also of rates), with and without the "
    "original parameter present, all uses of a likelihood; distinct by (use, kind of alias, originals present)"
)
TECHNIQUE = "runtime monitoring: recorded parameter values seen by every plugin, deterministic outputs"
LOG = []  # (likelihood, parameter, value) as seen by the plugins


def observer(tag, par):
    """A component whose expectation of every bin is par_a + par_b, recording what it sees."""
    a, b = par
    cx = (EX[:-1] + EX[1:]) / 2
    n = len(cx)

    def fx(self, key, parameters, batch_size):
        key, _ = jax.random.split(key)
        return key, jnp.tile(jnp.asarray(cx), batch_size // n)

    def fe(self, key, parameters, gx):
        llh = self.llh_name
        for p in (a, b):
            jax.debug.callback(lambda v, p=p: LOG.append((llh, p, float(v))), jnp.asarray(parameters[p], float))
        v = jnp.asarray(parameters[a], float) + jnp.asarray(parameters[b], float)
        return key, jnp.broadcast_to(v * n, gx.shape)

    return toys.component_cls(
        f"Obs{tag}",
        [toys.plugin(f"ObsX{tag}", ["batch_size"], ["gx"], fx), toys.plugin(f"ObsE{tag}", ["gx"], ["eff"], fe, par)],
        "on_sim", False,
    )


def literature(tag, par):
    def en(self, key, parameters, batch_size):
        key, _ = jax.random.split(key)
        return key, jnp.tile(jnp.array([1.0, 2.0, 3.0]), (batch_size, 1))

    def yi(self, key, parameters, l_energy):
        llh = self.llh_name
        jax.debug.callback(lambda v: LOG.append((llh, par, float(v))), jnp.asarray(parameters[par], float))
        return key, l_energy * parameters[par]

    def ef(self, key, parameters, l_energy):
        return key, jnp.ones_like(l_energy)

    return toys.component_cls(
        f"ObsLit{tag}",
        [toys.plugin(f"OLE{tag}", ["batch_size"], ["l_energy"], en), toys.plugin(f"OLY{tag}", ["l_energy"], ["l_yield"], yi, (par,)),
         toys.plugin(f"OLF{tag}", ["l_energy"], ["eff"], ef)],
        "", False,
    )


LIT = dict(mu=[2.0, 3.0, 5.0], sigma_pos=[0.5, 0.6, 0.7], sigma_neg=[0.8, 0.7, 0.6])


class Model:
    """specs: llh name -> {kind, alias, components}; builds the context and computes what each use has to be."""

    def __init__(self, rng, specs, settings, tag="", backend=None, keep=()):
        self.specs = specs
        ins = {"configs": {}, "likelihoods": {}}
        self.data = {}
        cls = observer(tag, ("qa", "qb"))
        lit = literature(tag, "qa")
        par = {}
        for name, s in specs.items():
            comps = s["components"]
            if s["kind"] == "bin":
                ins["likelihoods"][name] = dict(
                    components={c: cls.__name__ for c in comps}, copy_parameters={c + "_rate": "rate" for c in comps if c + "_rate" not in s["alias"].values()},
                    data_file_name=toys.csv({"gx": rng.uniform(0, 8, 60)}), bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8])
            else:
                ins["likelihoods"][name] = dict(
                    type="LikelihoodLit", components={comps[0]: lit.__name__}, copy_parameters={comps[0] + "_rate": "lit_rate"},
                    bins_on=["l_energy", "l_yield"], variable_type="twohalfnorm", logpdf_args=[list(LIT), list(LIT.values())])
                par["lit_rate"] = toys.par_fixed(1.0)
            if s["alias"] is not None and s["alias"] != {}:
                ins["likelihoods"][name]["parameter_alias"] = dict(s["alias"])
        par["rate"] = toys.par_uniform(0.5, 4.0)
        par.update(settings)
        for k in keep:
            par[k] = toys.par_uniform(0.5, 4.0)
        ins["par_config"] = toys.dump_json(par, name="par.json")
        if backend:
            ins["backend_h5"] = backend
        self.saved = copy.deepcopy(ins)
        self.tree = Context(ins)
        assert ins == self.saved
        self.instruct = ins

    def names(self, name):
        """original -> name of the parameter that this likelihood has to use."""
        s = self.specs[name]
        inv = {v: k for k, v in (s["alias"] or {}).items()}
        used = (["qa", "qb"] if s["kind"] == "bin" else ["qa"]) + [c + "_rate" for c in s["components"]]
        return {u: inv.get(u, u) for u in used}

    def value(self, name, par):
        use = {u: float(np.float32(par[k])) for u, k in self.names(name).items() if k in par}
        return use

    def expectation(self, name, par):
        use = self.value(name, par)
        return np.full(4, sum((use["qa"] + use["qb"]) * use[c + "_rate"] for c in self.specs[name]["components"]))

    def ll(self, name, par):
        if self.specs[name]["kind"] == "bin":
            return poisson(self.tree[name].data_hist, self.expectation(name, par))
        x = np.array([1.0, 2.0, 3.0])
        return float(log_density("twohalfnorm", LIT, x, x * self.value(name, par)["qa"]).sum())

    def everything(self, rng, distinct=True):
        out = {}
        for k in self.tree.par_config:
            out[k] = float(np.round(rng.uniform(0.6, 3.9), 3))
        return out

    def originals(self, rng, par):
        """Also give the originals (with other values), which nobody asked for."""
        out = dict(par)
        for name in self.specs:
            for u in self.names(name):
                out.setdefault(u, float(rng.uniform(50, 60)))
        return out


SPECS = {
    "own": {"a": dict(kind="bin", alias={}, components=["ca"]), "b": dict(kind="bin", alias={"qa_b": "qa"}, components=["cb"])},
    "both": {"a": dict(kind="bin", alias={"qa_a": "qa", "qb_a": "qb"}, components=["ca"]),
             "b": dict(kind="bin", alias={"qa_b": "qa", "qb_b": "qb"}, components=["cb1", "cb2"])},
    "rate": {"a": dict(kind="bin", alias={"my_rate": "ca_rate", "qb_a": "qb"}, components=["ca"]),
             "b": dict(kind="bin", alias={}, components=["cb"])},
    "shared": {"a": dict(kind="bin", alias={"qq": "qa"}, components=["ca"]), "b": dict(kind="bin", alias={}, components=["cb"]),
               "c": dict(kind="bin", alias={"qq": "qa"}, components=["cc1", "cc2"])},
    "other": {"a": dict(kind="bin", alias={"qq": "qa"}, components=["ca"]), "b": dict(kind="bin", alias={"qq": "qb"}, components=["cb"]),
              "c": dict(kind="bin", alias={}, components=["cc"])},
    "lit": {"a": dict(kind="lit", alias={"qa_l": "qa"}, components=["la"]), "b": dict(kind="bin", alias={"qa_b": "qa"}, components=["cb"]),
            "c": dict(kind="lit", alias={}, components=["lc"])},
    "two_comp": {"z": dict(kind="bin", alias={"qa_z": "qa", "other_rate": "c2_rate"}, components=["c1", "c2", "c3"]),
                 "a": dict(kind="bin", alias={}, components=["cc"])},
}


def settings(specs):
    out = {}
    for s in specs.values():
        alias = s["alias"] or {}
        inv = {v: k for k, v in alias.items()}
        for u in ["qa", "qb"] if s["kind"] == "bin" else ["qa"]:
            out[inv.get(u, u)] = toys.par_uniform(0.5, 4.0)
        for c in s["components"]:
            if c + "_rate" in inv:
                out[inv[c + "_rate"]] = toys.par_uniform(0.5, 4.0)
    return out


def seen_values(m, model, name, par, what, at_least=1):
    """What the plugins of a likelihood saw is what its aliases say, and no other likelihood ran."""
    jax.effects_barrier()
    use = model.value(name, par)
    rows = [r for r in LOG if r[0] == name]
    m.check(len(rows) >= at_least, "monitor saw no parameter", use=what, likelihood=name)
    for llh, p, v in rows:
        m.check(np.float32(v) == np.float32(use[p]), "a plugin saw another value than its alias", use=what, likelihood=name, parameter=p, got=v, want=use[p])
    m.count("values seen by plugins", len(rows))


def replaced(m, rng, model, which):
    """The parameters which a likelihood hands to its components: each alias under its original name, and no alias left."""
    for name, s in model.specs.items():
        for orig in (False, True):
            par = model.everything(rng)
            par["an extra one"] = 3.25
            if orig:
                par = model.originals(rng, par)
            saved = dict(par)
            got = model.tree[name].replace_alias(par)
            want = {k: v for k, v in par.items() if k not in (s["alias"] or {})}
            want.update({v: par[k] for k, v in (s["alias"] or {}).items()})
            m.check(dict(got) == want, "parameters after replacing the aliases", likelihood=name, got=got, want=want)
            m.check(par == saved and got is not par, "replacing the aliases changes the caller's parameters", likelihood=name)
            got["an extra one"] = 1.0
            m.check(par == saved, "the replaced parameters are the caller's", likelihood=name)
        m.seen("replaced", (which, name))


def uses(m, rng, model, which, orig):
    tree = model.tree
    par = model.everything(rng)
    if orig:
        par = model.originals(rng, par)
    saved = copy.deepcopy(par)
    for name, s in model.specs.items():
        llh = tree[name]
        key = m.key(which, name)

        def unchanged(what):
            m.check(par == saved and list(par) == list(saved), "the caller's parameters are changed", use=what, got=par, want=saved)
            m.seen(what, (which, name, orig))

        del LOG[:]
        for call in (lambda: llh.get_log_likelihood(key, 40, par), lambda: llh.get_log_likelihood(key=key, parameters=par, batch_size=40)):
            _, ll = call()
            want = model.ll(name, par)
            m.check(abs(ll - want) <= 1e-4 * (abs(want) + 10), "log likelihood with aliases", likelihood=name, got=ll, want=want)
        seen_values(m, model, name, par, "log likelihood")
        unchanged("log likelihood")
        # giving the original name directly to a likelihood that has an alias, without the alias: the same value
        direct = {k: v for k, v in par.items() if k not in (s["alias"] or {})}
        direct.update({u: par[k] for u, k in model.names(name).items()})
        m.check(llh.get_log_likelihood(key, 40, direct)[1] == ll, "the aliased quantity is not the original one", likelihood=name)
        if s["kind"] == "bin":
            del LOG[:]
            _, w = llh.simulate_weighted_data(key, 40, par)
            m.close(float(np.sum(np.asarray(w[-1], float))), model.expectation(name, par).sum(), "weighted events with aliases", rtol=1e-4, likelihood=name)
            seen_values(m, model, name, par, "weighted data")
            unchanged("weighted data")
            del LOG[:]
            n = llh.get_num_events_accepted(40, par)
            m.close(float(n), model.expectation(name, par).sum(), "accepted events with aliases", rtol=1e-4, likelihood=name)
            n = llh.get_num_events_accepted(batch_size=8, parameters=par)
            m.close(float(n), model.expectation(name, par).sum(), "accepted events with aliases", rtol=1e-4, likelihood=name)
            seen_values(m, model, name, par, "accepted events")
            unchanged("accepted events")
    # everything at once
    del LOG[:]
    total = tree.get_num_events_accepted(par, batch_size=40)
    want = sum(model.expectation(n, par).sum() for n, s in model.specs.items() if s["kind"] == "bin")
    m.close(float(total), want, "accepted events of the context", rtol=1e-4)
    for name, s in model.specs.items():
        if s["kind"] == "bin":
            seen_values(m, model, name, par, "context accepted")
    m.check(par == saved, "the caller's parameters are changed")


@case(repeat=(1, 4))
def all_uses(m):
    """Expectation, weighted events, log likelihood, event numbers."""
    rng = m.rng()
    for which, specs in SPECS.items():
        apt.clear_cache()
        model = Model(rng, specs, settings(specs), tag=which)
        tree = model.tree
        for name in specs:
            want = set(model.names(name).values())
            if specs[name]["kind"] == "lit":
                want = {w for w in want if not w.endswith("_rate")} | (set(tree[name].needed_parameters) & {c + "_rate" for c in specs[name]["components"]})
            m.check(set(tree[name].needed_parameters) == want, "names needed by a likelihood with aliases", likelihood=name,
                    got=set(tree[name].needed_parameters), want=want)
        replaced(m, rng, model, which)
        for orig in (False, True):
            uses(m, rng, model, which, orig)
        # withholding the alias fails, the original does not help nobody
        for name, s in specs.items():
            for k, v in s["alias"].items():
                par = model.everything(rng)
                par = {x: y for x, y in par.items() if x != k and x != v}
                m.raises(Exception, lambda: tree[name].get_log_likelihood(m.key(), 40, par), "no value for an aliased quantity", likelihood=name)
        # the order of evaluation of the likelihoods does not matter
        par = model.everything(rng)
        a = {n: tree[n].get_log_likelihood(m.key(), 40, par)[1] for n in specs}
        b = {n: tree[n].get_log_likelihood(m.key(), 40, par)[1] for n in reversed(list(specs))}
        m.check(a == b, "likelihoods influence each other", a=a, b=b)
        m.sample(which=which, aliases={n: s["alias"] for n, s in specs.items()}, parameters=par, log_likelihoods=a)


@case(repeat=(1, 3))
def posterior(m):
    """Through the log posterior: each likelihood sees its alias, the manager keeps its values."""
    rng = m.rng()
    for which in ("other", "lit", "both", "two_comp") if not m.quick else ("other", "lit"):
        specs = SPECS[which]
        apt.clear_cache()
        model = Model(rng, specs, settings(specs), tag="P" + which)
        tree = model.tree
        for _ in range(3):
            fit = tree.par_manager.parameter_fit
            values = {k: float(np.round(rng.uniform(0.6, 3.9), 3)) for k in fit}
            del LOG[:]
            post, lp = tree.log_posterior(values, batch_size=40)
            full = {**values, **{k: s["prior_args"]["val"] for k, s in tree.par_config.items() if s["prior_type"] == "fixed"}}
            want = lp + sum(model.ll(n, full) for n in specs)
            m.check(abs(post - want) <= 1e-4 * (abs(want) + 50), "log posterior with aliases", got=post, want=want, which=which)
            for n in specs:
                seen_values(m, model, n, full, "posterior")
            got = tree.par_manager.get_all_parameter()
            m.check({k: float(v) for k, v in got.items()} == full, "the evaluation changes the parameters", got=got, want=full)
            m.seen("posterior", which)


@case(repeat=(1, 3))
def templates(m):
    """After a fit: templates use the alias."""
    rng = m.rng()
    specs = {"a": dict(kind="bin", alias={}, components=["ca"]), "b": dict(kind="bin", alias={"qa_b": "qa", "qb_b": "qb"}, components=["cb"])}
    model = Model(rng, specs, settings(specs), tag="T")
    tree = model.tree
    tree.fitting(nwalkers=16, iteration=3, batch_size=8)
    best = tree.get_post_parameters()
    for name in specs:
        del LOG[:]
        for seed in (None, 3):
            comp = specs[name]["components"][0]
            out = tree.get_template(name, comp, batch_size=8, seed=seed)
            use = model.value(name, best)
            m.close(np.asarray(out[-1]), np.full(8, 4 * (use["qa"] + use["qb"])), "template", rtol=1e-5, likelihood=name)
        seen_values(m, model, name, best, "template")
        m.seen("template", name)
    m.check(tree.get_post_parameters() == best, "a template changes the parameters")


@case(repeat=(1, 3))
def profiles(m):
    """Profiling uses the alias."""
    rng = m.rng()
    for which in ("both", "lit") if m.quick else ("both", "lit", "shared", "two_comp"):
        specs = SPECS[which]
        apt.clear_cache()
        model = Model(rng, specs, settings(specs), tag="R" + which)
        for orig in (False, True):
            par = model.everything(rng)
            if orig:
                par = model.originals(rng, par)
            saved = dict(par)
            for func in (profiler.profile_context, profiler.profile_full_simulation):
                del LOG[:]
                func(model.tree, batch_size=8, n_warmup=1, n_runs=2, parameters=par, verbose=False)
                m.check(par == saved, "profiling changes the caller's parameters", use=func.__name__)
                for name in specs:
                    seen_values(m, model, name, par, func.__name__, 3)
                m.seen("profile", (which, func.__name__, orig))
            del LOG[:]
            profiler.compare_plugin_vs_full(model.tree, batch_size=8, n_warmup=1, n_runs=1, parameters=par)
            for name in specs:
                seen_values(m, model, name, par, "compare", 2)
        del LOG[:]
        np.random.seed(int(rng.integers(2**31)))
        profiler.profile_context(model.tree, batch_size=8, n_warmup=0, n_runs=1, verbose=False)
        jax.effects_barrier()
        now = model.tree.par_manager.get_all_parameter()
        for name in specs:
            seen_values(m, model, name, now, "profile of sampled parameters")


SETTINGS = {
    "src_rate": toys.par_uniform(0.5, 4.0, init_mean=1.25, init_std=0.06),
    "src": toys.par_norm(2.0, 0.3, 0.5, 4.0, init_mean=2.1, init_std=0.05),
    "src_u": toys.par_uniform(0.5, 4.0, init_mean=1.5, init_std=0.07),
    "src_t": toys.par_thn(2.0, 0.2, 0.4, 0.5, 4.0, init_mean=2.2, init_std=0.1),
    "src_f": toys.par_fixed(1.75),
}


@case(repeat=(1, 4))
def copies(m):
    """Copies start with the settings of their source, and are their own parameters."""
    rng = m.rng()
    cls = observer("C", ("qa", "qb"))

    def llh(comps, copies, alias=None):
        out = dict(components={c: cls.__name__ for c in comps}, copy_parameters=copies, data_file_name=toys.csv({"gx": rng.uniform(0, 8, 60)}),
                   bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8])
        if alias:
            out["parameter_alias"] = alias
        return out

    for source, cfg in SETTINGS.items():
        apt.clear_cache()
        kept = source == "src_u"  # a source which is itself a rate
        par = {"qa": toys.par_uniform(0.5, 4.0), "qb": toys.par_uniform(0.5, 4.0)}
        name = "c0_rate" if kept else source
        par[name] = copy.deepcopy(cfg)
        path = toys.dump_json(par, name="par.json")
        ins = {"configs": {}, "likelihoods": {
            "one": llh(["c0", "c1"] if kept else ["c1"], {"c1_rate": name}),
            "two": llh(["c2", "c3"], {"c3_rate": name, "c2_rate": name, "qa_two": "qa"}, {"qa_two": "qa"}) if source == "never"
            else llh(["c2", "c3"], {"c3_rate": name, "c2_rate": name})}, "par_config": path}
        saved = copy.deepcopy(ins)
        tree = Context(ins)
        m.check(ins == saved, "the instruction is modified")
        m.check(json.load(open(path)) == par, "the parameter file is modified")
        names = ["c1_rate", "c2_rate", "c3_rate"] + ([name] if kept else [])
        m.check(set(tree.par_config) == {"qa", "qb"} | set(names), "parameters of the context", got=set(tree.par_config))
        for k in names:
            m.check(tree.par_config[k] == cfg, "settings of a copy", copy=k, got=tree.par_config[k], want=cfg)
        # values are independent
        if cfg["prior_type"] != "fixed":
            m.check(set(names) <= set(tree.par_manager.parameter_fit), "copies are not fitted", got=tree.par_manager.parameter_fit)
            values = {k: float(np.round(rng.uniform(1.2, 3.0), 3)) for k in tree.par_manager.parameter_fit}
            for _ in range(3):
                k0 = names[int(rng.integers(len(names)))]
                base = tree.log_posterior(values, batch_size=8)
                tree.par_manager.set_parameter({k0: values[k0] + 0.25})
                now = tree.par_manager.get_all_parameter()
                for k in values:
                    m.check(float(now[k]) == values[k] + (0.25 if k == k0 else 0.0), "a copy is not independent", set=k0, changed=k)
                post = tree.log_posterior({**values, k0: values[k0] + 0.25}, batch_size=8)
                hist = {}
                for n, comps in (("one", ["c0", "c1"] if kept else ["c1"]), ("two", ["c2", "c3"])):
                    d, p = [], []
                    for dst, v in ((d, values), (p, {**values, k0: values[k0] + 0.25})):
                        f = {k: float(np.float32(x)) for k, x in v.items()}
                        dst.append(np.full(4, sum((f["qa"] + f["qb"]) * f[c + "_rate"] for c in comps)))
                    hist[n] = poisson(tree[n].data_hist, p[0]) - poisson(tree[n].data_hist, d[0])
                want = sum(hist.values()) + post[1] - base[1]
                m.check(abs((post[0] - base[0]) - want) <= 1e-3 * (abs(want) + 5), "a copy acts on other likelihoods", changed=k0,
                        got=post[0] - base[0], want=want, per_likelihood=hist)
            np.random.seed(int(rng.integers(2**31)))
            tree.par_manager.sample_init()
            got = [float(tree.par_manager.get_all_parameter()[k]) for k in names]
            m.check(len(set(got)) == len(got), "copies are sampled together", got=got)
        # settings are independent too
        for k in names:
            others = {o: copy.deepcopy(tree.par_config[o]) for o in tree.par_config if o != k}
            if cfg["prior_type"] == "fixed":
                tree.par_config[k]["prior_args"]["val"] = 3.5
            else:
                a = tree.par_config[k]["prior_args"]
                a[list(a)[0]] = 1.125
                tree.par_config[k]["allowed_range"][0] = 1.0625
            for o, c in others.items():
                m.check(tree.par_config[o] == c, "changing a copy's settings changes another parameter", changed=k, other=o)
            m.check(tree.par_config[k] != others.get("never") and tree.par_config[k] != cfg, "monitor changed nothing")
        m.check(json.load(open(path)) == par, "the parameter file is modified")
        m.seen("copy", (source, kept))
        m.sample(source=source, copies=names)
    # a context given its parameters directly does not modify them
    par = {"qa": toys.par_uniform(0.5, 4.0), "qb": toys.par_uniform(0.5, 4.0), "src": copy.deepcopy(SETTINGS["src"])}
    saved = copy.deepcopy(par)
    apt.clear_cache()
    tree = Context({"configs": {}, "likelihoods": {"one": llh(["c1"], {"c1_rate": "src"}), "two": llh(["c2"], {"c2_rate": "src"})}}, par_config=par)
    m.check(par == saved, "parameters given to a context are modified")
    tree.par_config["c1_rate"]["prior_args"]["mean"] = -3.0
    m.check(par == saved, "parameters given to a context are modified")
    m.check(tree.par_config["c2_rate"] == saved["src"], "copies share their settings")
    apt.clear_cache()
    m.raises(Exception, lambda: Context({"configs": {}, "likelihoods": {"one": llh(["c1"], {"c1_rate": "no_such"})}}, par_config=par), "copy of nothing")


@case(repeat=(1, 2))
def with_maps(m):
    """Aliased scalers of maps, also of several components and several likelihoods."""
    rng = m.rng()
    x = [-10.0, 10.0]
    files = [toys.point_map(x, [v, v], name=f"m{i}.json") for i, v in enumerate((2.0, 1.0, 5.0))]
    cx = (EX[:-1] + EX[1:]) / 2

    def fx(self, key, parameters, batch_size):
        key, _ = jax.random.split(key)
        return key, jnp.tile(jnp.asarray(cx), batch_size // 4)

    def fe(self, key, parameters, gx):
        return key, self.al_map.apply(gx, parameters) * 4

    def cfg():
        return toys.SigmaMap(name="al_map", default=list(files), method="LERP", help="")

    cls = toys.component_cls("AlMap", [toys.plugin("AlX", ["batch_size"], ["gx"], fx), toys.plugin("AlE", ["gx"], ["eff"], fe, ("al_map_sigma",), (cfg(),))],
                             "on_sim", False)

    def llh(alias, comps):
        return dict(components={c: cls.__name__ for c in comps}, copy_parameters={c + "_rate": "rate" for c in comps},
                    data_file_name=toys.csv({"gx": rng.uniform(0, 8, 60)}), bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8],
                    **({"parameter_alias": alias} if alias else {}))

    par = {"rate": toys.par_uniform(0.5, 4.0), **{k: toys.par_norm(0.0, 1.0, -2, 2) for k in ("al_map_sigma", "al_map_sigma_b", "al_map_sigma_c")}}
    tree = Context({"configs": {}, "par_config": toys.dump_json(par, name="par.json"), "likelihoods": {
        "a": llh(None, ["c1"]), "b": llh({"al_map_sigma_b": "al_map_sigma"}, ["c2", "c3"]), "c": llh({"al_map_sigma_c": "al_map_sigma"}, ["c4"])}})
    m.check(set(tree["b"].needed_parameters) == {"al_map_sigma_b", "c2_rate", "c3_rate"}, "needed names", got=tree["b"].needed_parameters)
    for _ in range(4):
        p = {k: float(np.round(rng.uniform(-1.5, 1.5), 2)) for k in ("al_map_sigma", "al_map_sigma_b", "al_map_sigma_c")}
        p.update({f"c{i}_rate": float(np.round(rng.uniform(1, 3), 2)) for i in (1, 2, 3, 4)})
        for name, s, comps in (("a", "al_map_sigma", ("c1",)), ("b", "al_map_sigma_b", ("c2", "c3")), ("c", "al_map_sigma_c", ("c4",))):
            eff = 2.0 + p[s] * (3.0 if p[s] > 0 else 1.0)
            want = 4 * eff * sum(p[c + "_rate"] for c in comps)
            m.close(float(tree[name].get_num_events_accepted(8, p)), want, "aliased scaler of a map", rtol=1e-4, likelihood=name, scalers=p)
        m.seen("scaler", 1)


@case(tiers=("thorough",), repeat=(1, 1))
def shipped_context(m):
    """The shipped fit of two data sets: the aliased cut acceptances act on their own data set."""
    with open(get_file_path("rn220_ar37.json")) as f:
        ins = json.load(f)
    x = [0.0, 1e5]
    for k in ("s1_cut_acc", "s2_cut_acc"):
        ins["configs"][k] = [toys.point_map(x, [v, v], name=f"{k}{i}.json") for i, v in enumerate((0.5, 0.25, 0.75))]
    tree = Context(ins)
    par = {k: (s["prior_args"]["val"] if s["prior_type"] == "fixed" else s["init_mean"]) for k, s in tree.par_config.items()}
    for name in tree.likelihoods:
        tag = name.split("_")[0]
        other = "ar37" if tag == "rn220" else "rn220"
        m.check(f"s1_cut_acc_sigma_{tag}" in tree[name].needed_parameters and "s1_cut_acc_sigma" not in tree[name].needed_parameters, "needed names")
        out = {}
        for own, oth in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0)):
            p = {**par, f"s1_cut_acc_sigma_{tag}": own, f"s2_cut_acc_sigma_{tag}": 0.0, f"s1_cut_acc_sigma_{other}": oth, f"s2_cut_acc_sigma_{other}": oth}
            for c in list(tree[name].components):
                if c.endswith("_ac"):
                    p[c + "_rate"] = 0.0
            _, w = tree[name].simulate_weighted_data(m.key("k"), 20000, p)
            sim = tree[name][f"{tag}_er"].simulate(m.key("k"), 20000, tree[name].replace_alias(p))[1]
            out[own, oth] = float(np.asarray(sim[-1]).sum())
        m.check(out[0.0, 0.0] == out[0.0, 1.0], "the alias of another likelihood acts", got=out)
        m.close(out[1.0, 0.0] / out[0.0, 0.0], 1.5, "the own alias does not act", rtol=1e-3, got_all=out)
        m.seen("shipped", name)
