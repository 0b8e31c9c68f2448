"""C32: a context is assembled as its instruction says."""

import copy
import json
import os

import numpy as np

import appletree as apt
from appletree import Context
from appletree.utils import get_file_path
from lib import toys
from lib.vh import case
from checks.c14 import EX, EY, poisson, table
from checks.c15 import log_density, toy as lit_toy

PROPERTY = "C32"
RULE = (
    "random instructions (1-4 binned and literature likelihoods in any order, 1-3 simulated and fixed components each, short and long form, shared "
    "component names, dictionaries, files and lists registered by hand, given parameter lists, url_base), faulty instructions, the shipped "
    "instructions and contexts; distinct by (composition, way of assembling)"
)
TECHNIQUE = (
    "runtime monitoring: the expectation, data and posterior of the assembled context against an independent reading of the instruction, "
    "fingerprints of the given objects and files"
)
NB = 24  # multiple of the number of bins of every table
REFUSED = (ValueError, AttributeError, KeyError, RuntimeError, TypeError, AssertionError, NotImplementedError, FileNotFoundError, OSError)


class World:
    """Components which can be named, with their known expectation."""

    def __init__(self, rng):
        self.sim = {}
        for k in range(6):
            for dim in (1, 2):
                name = f"C32x{k}d{dim}"
                table(name, (4,) if dim == 1 else (4, 3), f"mu{k}", EX, EY if dim == 2 else None)
                self.sim[f"Table{name}", dim] = k
        self.fixed = []
        for k in range(2):
            toys.fixed_cls(f"C32Fixed{k}", norm_type=["on_pdf", "on_sim"][k], add_eps=False)
            self.fixed.append(f"C32Fixed{k}")
        lit_toy("C32")
        self.rng = rng
        self.mu = {f"mu{k}": float(rng.uniform(1, 9)) + k for k in range(6)}

    def points(self, n, lo=-1.0):
        """Data in and around the region of interest, some of it outside."""
        r = self.rng
        return r.uniform(lo, 9, n), r.uniform(lo, 8, n)

    def likelihood(self, names, i):
        """(configuration, reference) of a binned likelihood."""
        r = self.rng
        dim = int(r.integers(1, 3))
        kind = ["irreg", "meshgrid"][int(r.integers(2))]
        x, y = self.points(int(r.integers(20, 300)))
        cfg = dict(data_file_name=toys.csv({"other": x + 100, "gx": x, "gy": y}, name=f"data{i}.csv"), bins_type=kind)
        if int(r.integers(2)):
            cfg["type"] = "Likelihood"
        if dim == 1:
            cfg.update(bins_on="gx", bins=[EX.tolist()], clip=[0, 8])
            keep = (x > 0) & (x < 8)
            data = np.histogram(x[keep], EX)[0]
        else:
            by = np.tile(EY, (4, 1)).tolist() if kind == "irreg" else EY.tolist()
            cfg.update(bins_on=["gx", "gy"], bins=[EX.tolist(), by], x_clip=[0, 8], y_clip=[0, 7])
            keep = (x > 0) & (x < 8) & (y > 0) & (y < 7)
            data = np.histogram2d(x[keep], y[keep], [EX, EY])[0]
        comps, shapes = {}, {}
        for name in names:
            style = int(r.integers(5))
            if style < 3:
                k = int(r.integers(6))
                cls = f"TableC32x{k}d{dim}"
                comps[name] = [cls, {"component_cls": cls}, {"component_cls": cls, "file_name": None}][style]
                shapes[name] = ("sim", cls, np.full(data.shape, self.mu[f"mu{k}"]), None, f"mu{k}")
            else:
                n_fixed = int(r.integers(5, 90))
                # every bin has some
                fx = np.append(np.repeat((EX[:-1] + EX[1:]) / 2, 3), r.uniform(0, 8, n_fixed))
                fy = np.append(np.tile((EY[:-1] + EY[1:]) / 2, 4), r.uniform(0, 7, n_fixed))
                n_all = len(fx)
                f = toys.csv({"gy": fy, "gx": fx}, name=f"{name}.csv")
                k = style - 3
                comps[name] = {"component_cls": self.fixed[k], "file_name": f}
                h = np.histogram(fx, EX)[0] if dim == 1 else np.histogram2d(fx, fy, [EX, EY])[0]
                shapes[name] = ("fixed", self.fixed[k], h / (h.sum() if k == 0 else n_all), f, None)
        cfg["components"] = comps
        return cfg, dict(data=data, comps=shapes, kind=kind, dim=dim, n_in=int(keep.sum()), file=cfg["data_file_name"])

    def literature(self, names):
        args = dict(mu=self.rng.uniform(1, 5, 3).tolist(), sigma_pos=self.rng.uniform(0.3, 1, 3).tolist(), sigma_neg=self.rng.uniform(0.3, 1, 3).tolist())
        cfg = dict(type="LikelihoodLit", components={names[0]: "LitCompC32"}, bins_on=["l_energy", "l_yield"], variable_type="twohalfnorm",
                   logpdf_args=[list(args), list(args.values())])
        return cfg, dict(lit=args, comps={names[0]: ("lit", "LitCompC32", None, None, None)})


NAMES = ["er", "nr", "ac", "wall", "neutrino", "radon_2", "B8"]
LLHS = ["sr0", "a_llh", "Zeta", "llh_10", "llh_9", "mid"]
EN = 1.5


def instruction(w, composition):
    """(instruction, reference, parameters)."""
    r = w.rng
    names = [str(s) for s in r.permutation(LLHS)[: len(composition)]]
    ins, ref, par = {"likelihoods": {}}, {}, {}
    rates = {}
    n_base = 0
    for i, (name, kind) in enumerate(zip(names, composition)):
        if kind == "lit":
            comp = ["lit_component"]
            cfg, rf = w.literature(comp)
            par["ef"] = toys.par_fixed(1.0)
            par["en"] = toys.par_fixed(EN)
            par["yi"] = toys.par_norm(2.5, 1.0, 0.5, 5.0)
        else:
            comp = [str(s) for s in r.permutation(NAMES)[: int(r.integers(1, 4))]]
            cfg, rf = w.likelihood(comp, i)
        copies = {}
        for c in comp:
            own = [k for k, v in rates.items() if v is None]
            if c + "_rate" in rates:
                if rates[c + "_rate"] and int(r.integers(2)):
                    copies[c + "_rate"] = rates[c + "_rate"]
                continue
            if int(r.integers(2)):  # given by its own name
                rates[c + "_rate"] = None
                par[c + "_rate"] = toys.par_uniform(1.0, 40.0)
            elif own and int(r.integers(2)):  # copied from the one of another component, which keeps it
                b = own[int(r.integers(len(own)))]
                rates[c + "_rate"] = b
                copies[c + "_rate"] = b
            else:  # copied from a common one
                if n_base == 0 or int(r.integers(2)):
                    n_base += 1
                    par[f"base{n_base}"] = toys.par_uniform(0.5, 30.0 + n_base)
                b = f"base{int(r.integers(1, n_base + 1))}"
                rates[c + "_rate"] = b
                copies[c + "_rate"] = b
        cfg["copy_parameters"] = copies
        ins["likelihoods"][name] = cfg
        ref[name] = rf
    used = {rf["comps"][c][4] for rf in ref.values() for c in rf["comps"]} - {None}
    for k in sorted(used):
        par[k] = toys.par_uniform(w.mu[k] * 0.5, w.mu[k] * 2)
    copied = {b for b in rates.values() if b}
    for k in [k for k in par if k.startswith("base") and k not in copied]:
        par.pop(k)
    items = list(par.items())
    par = dict(items[i] for i in r.permutation(len(items)))
    # what the parameter manager should hold
    final = {k: v for k, v in par.items() if k not in copied or k in rates}
    for k, b in rates.items():
        if b:
            final[k] = par[b]
    return ins, ref, par, final


def values(w, final):
    out = {}
    for k, s in final.items():
        if s["prior_type"] == "uniform":
            lo, hi = s["prior_args"]["lower"], s["prior_args"]["upper"]
            out[k] = w.mu[k] if k in w.mu else float(w.rng.uniform(lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo)))
        elif s["prior_type"] == "norm":
            out[k] = float(w.rng.uniform(2.0, 3.0))
    return out


def reference(ref, par):
    """(log likelihood, scale) of an independent reading."""
    total, scale = 0.0, 0.0
    for rf in ref.values():
        if "lit" in rf:
            ll = float(np.sum(log_density("twohalfnorm", rf["lit"], EN, np.full(3, par["yi"]))))
            total += ll
            scale += abs(ll)
            continue
        mu = expectation(rf, par)
        total += poisson(rf["data"], mu)
        scale += float(np.sum(np.abs(rf["data"] * np.log(mu))) + np.sum(mu))
    return total, scale


def expectation(rf, par):
    return sum(par[c + "_rate"] * s[2] for c, s in rf["comps"].items())


def judge(m, w, tree, ref, final, how):
    """The assembled context against its instruction."""
    # structure
    m.check(list(tree.likelihoods) == list(ref), "likelihoods of the context", got=list(tree.likelihoods), want=list(ref), how=how)
    needed = set()
    for name, rf in ref.items():
        llh = tree[name]
        m.check(llh is tree.likelihoods[name] and llh.name == name, "likelihood under its name", name=name)
        m.check(type(llh) is (apt.LikelihoodLit if "lit" in rf else apt.Likelihood), "type of the likelihood", got=type(llh).__name__, how=how)
        m.check(list(llh.components) == list(rf["comps"]), "components of the likelihood", got=list(llh.components), want=list(rf["comps"]), how=how)
        for c, (kind, cls, _, f, p) in rf["comps"].items():
            comp = llh[c]
            m.check(type(comp) is getattr(apt.components, cls), "class of the component", got=type(comp).__name__, want=cls, how=how)
            m.check((comp.name, comp.llh_name, comp.rate_name) == (c, name, c + "_rate"), "names of the component", got=(comp.name, comp.llh_name, comp.rate_name))
            needed |= {c + "_rate"}
            if p:
                needed |= {p}
            if kind == "lit":
                needed |= {"en", "yi", "ef"}
        if "lit" not in rf:
            m.same(np.asarray(llh.data_hist, float).reshape(rf["data"].shape), rf["data"].astype(float), "data of the likelihood", name=name, how=how)
            m.check(len(llh.data) == rf["n_in"], "selected data", got=len(llh.data), want=rf["n_in"])
        m.seen("likelihood", ("lit",) if "lit" in rf else (rf["kind"], rf["dim"], tuple(sorted(s[0] for s in rf["comps"].values()))))
    m.check(set(tree.needed_parameters) == needed, "needed parameters", got=set(tree.needed_parameters) ^ needed, how=how)
    m.check(set(tree.par_manager.get_all_parameter()) == set(final), "parameters", got=set(tree.par_manager.get_all_parameter()) ^ set(final), how=how)
    fit = {k for k, s in final.items() if s["prior_type"] != "fixed"}
    m.check(sorted(tree.par_manager.parameter_fit) == sorted(fit), "fitted parameters", got=tree.par_manager.parameter_fit, want=fit)
    # behaviour
    vals = values(w, final)
    for name, rf in ref.items():
        if "lit" in rf:
            continue
        for c, s in rf["comps"].items():
            comp = tree[name][c]
            h = comp.simulate_hist(vals) if s[0] == "fixed" else comp.simulate_hist(m.key(name, c), NB, vals)[1]
            m.close(np.asarray(h, float).reshape(s[2].shape), vals[c + "_rate"] * s[2], "expectation of a component", rtol=1e-4, atol=1e-5, component=c, how=how)
        n = float(np.sum(expectation(rf, vals)))
        got = float(tree[name].get_num_events_accepted(NB, vals))
        m.check(abs(got - n) <= 1e-4 * n, "expected events of a likelihood", got=got, want=n, how=how)
    prior = apt.Parameter(copy.deepcopy(final))
    prior.set_parameter(vals)
    lp_want = float(prior.log_prior)
    post, lp = tree.log_posterior(vals, batch_size=NB)
    m.check(abs(lp - lp_want) < 1e-6 * max(1, abs(lp_want)), "log prior of the parameter list", got=lp, want=lp_want, how=how)
    ll, scale = reference(ref, vals)
    m.check(abs(post - lp - ll) <= 1e-4 * scale + 1e-3, "posterior of the assembled context", got=post - lp, want=ll, how=how)
    binned = {k: v for k, v in ref.items() if "lit" not in v}
    if binned:
        want = sum(float(np.sum(expectation(rf, vals))) for rf in binned.values())
        got = float(tree.get_num_events_accepted(vals, batch_size=NB))
        m.check(abs(got - want) <= 1e-4 * want, "expected events of the context", got=got, want=want)
    m.count("contexts judged")


def frozen(path):
    with open(path, "rb") as f:
        return f.read()


COMPS = [("bin",), ("bin", "bin"), ("lit",), ("bin", "lit"), ("lit", "bin", "bin"), ("bin", "bin", "bin", "lit")]


@case(repeat=(2, 8))
def random_instructions(m):
    """Dictionaries and files, parameter lists as a file or given, and by hand."""
    rng = m.rng()
    w = World(rng)
    for j, composition in enumerate(COMPS):
        ways = ["dict", "file", "given", "hand", "halfway", "given and dropped"]
        picked = [ways[(j + m.iteration * 3 + k) % len(ways)] for k in range(m.pick(2, 6))]
        ins, ref, par, final = instruction(w, composition)
        for how in picked:
            apt.clear_cache()
            parfile = toys.dump_json(par, name="par.json")
            full = {**copy.deepcopy(ins), "par_config": parfile}
            before = copy.deepcopy(full)
            held = frozen(parfile)
            if how == "dict":
                tree = Context(full)
            elif how == "file":
                path = toys.dump_json(full, name="instruct.json")
                text = frozen(path)
                tree = Context(path)
                m.check(frozen(path) == text, "the instruction file is changed")
                m.check(json.loads(json.dumps(tree.instruct)) == json.loads(text), "the kept instruction")
            elif how.startswith("given"):
                mine = copy.deepcopy(par)
                if how == "given":
                    other = {k: toys.par_uniform(1e3, 2e3) for k in par}
                    full["par_config"] = toys.dump_json(other, name="other.json")
                else:
                    full.pop("par_config")
                before = copy.deepcopy(full)
                tree = Context(full, mine) if rng.integers(2) else Context(full, par_config=mine)
                m.check(mine == par, "the given parameter list is changed", got=set(mine) ^ set(par))
                held_list = copy.deepcopy(tree.par_config)
                m.check(held_list == final, "the parameter list of the context", got=held_list, want=final)
                for k in mine:  # changing it later is of no effect
                    mine[k]["prior_args"].clear()
                    mine[k]["allowed_range"] = [1e5, 2e5]
                mine.clear()
                m.check(tree.par_config == held_list, "the given parameter list is copied", got=tree.par_config)
            else:
                keep = [] if how == "hand" else list(full["likelihoods"])[: len(ref) // 2]
                rest = {k: v for k, v in full["likelihoods"].items() if k not in keep}
                full["likelihoods"] = {k: v for k, v in full["likelihoods"].items() if k in keep}
                resolved = toys.dump_json(final, name="par.json")
                full["par_config"] = resolved
                for v in full["likelihoods"].values():
                    v["copy_parameters"] = {}
                before = copy.deepcopy(full)
                tree = Context(full)
                for name, cfg in rest.items():
                    c0 = copy.deepcopy(cfg)
                    tree.register_likelihood(name, cfg)
                    for c, v in cfg["components"].items():
                        cls = getattr(apt.components, v if isinstance(v, str) else v["component_cls"])
                        f = None if isinstance(v, str) else v.get("file_name")
                        if f is None and rng.integers(2):
                            tree.register_component(name, cls, c)
                        else:
                            tree.register_component(name, cls, c, f)
                    m.check(cfg == c0, "the given configuration of a likelihood is changed", name=name)
            m.check(full == before, "the given instruction is changed", how=how)
            m.check(frozen(parfile) == held, "the parameter file is changed")
            judge(m, w, tree, ref, final, how)
            m.seen("context", (composition, how))
            m.sample(composition=composition, how=how, likelihoods={k: list(v["comps"]) for k, v in ref.items()}, fitted=tree.par_manager.parameter_fit)
        toys_forget()


def toys_forget():
    apt.clear_cache()


@case(repeat=(1, 3))
def two_contexts(m):
    """Contexts of the same instruction do not share their state."""
    rng = m.rng()
    w = World(rng)
    ins, ref, par, final = instruction(w, ("bin", "bin"))
    full = {**copy.deepcopy(ins), "par_config": toys.dump_json(par, name="par.json")}
    a = Context(full)
    va = values(w, final)
    pa = a.log_posterior(va, batch_size=NB)
    apt.clear_cache()
    b = Context(full)
    for k in ("likelihoods", "par_config", "needed_parameters", "par_manager"):
        m.check(getattr(a, k) is not getattr(b, k), "two contexts share their state", what=k)
    name = list(ref)[0]
    m.check(a[name] is not b[name], "two contexts share a likelihood")
    # another likelihood in b only
    cfg, rf = w.likelihood(["extra"], 99)
    while list(rf["comps"].values())[0][0] != "sim":
        cfg, rf = w.likelihood(["extra"], 99)
    b.register_likelihood("later", {**cfg, "copy_parameters": {}})
    spec = cfg["components"]["extra"]
    b.register_component("later", getattr(apt.components, spec if isinstance(spec, str) else spec["component_cls"]), "extra")
    m.check("later" not in a.likelihoods and "extra_rate" not in a.needed_parameters, "a registration reaches another context")
    m.check("extra_rate" in b.needed_parameters, "needed parameters after a registration")
    again = a.log_posterior(va, batch_size=NB)
    m.check(again == pa, "a context changed by another one", got=again, want=pa)
    b.par_manager.set_parameter({k: v * 1.01 for k, v in list(va.items())[:1]})
    m.check(a.par_manager.get_all_parameter() == {**a.par_manager.get_all_parameter(), **va}, "parameters reach another context")
    m.seen("two contexts")


@case(repeat=(2, 4))
def refused(m):
    """Faulty instructions are refused, what was registered before stays."""
    rng = m.rng()
    w = World(rng)
    ins, ref, par, final = instruction(w, ("bin", "bin"))
    parfile = toys.dump_json(par, name="par.json")
    first = list(ref)[0]

    def fault(change):
        full = {**copy.deepcopy(ins), "par_config": parfile}
        change(full, full["likelihoods"][first])
        apt.clear_cache()
        return Context(full)

    comp = list(ref[first]["comps"])[0]

    def set_comp(value):
        def f(full, llh):
            llh["components"][comp] = value
        return f

    def drop(key):
        def f(full, llh):
            llh.pop(key)
        return f

    def put(key, value):
        def f(full, llh):
            llh[key] = value
        return f

    nowhere = os.path.join(toys.scratch(), "nothing_here.csv")
    cases = {
        "unknown class": set_comp("NoSuchComponent"),
        "unknown class, long form": set_comp({"component_cls": "NoSuchComponent"}),
        "no class": set_comp({"file_name": "x.csv"}),
        "fixed without a file": set_comp({"component_cls": "C32Fixed0"}),
        "fixed in short form": set_comp("C32Fixed1"),
        "fixed with a missing file": set_comp({"component_cls": "C32Fixed0", "file_name": nowhere}),
        "unknown type": put("type", "LikelihoodNone"),
        "no data": drop("data_file_name"),
        "missing data": put("data_file_name", nowhere),
        "no bins": drop("bins"),
        "no bins type": drop("bins_type"),
        "unknown bins type": put("bins_type", "hexagonal"),
        "no observables": drop("bins_on"),
        "unknown observable": put("bins_on", "no_such_column" if ref[first]["dim"] == 1 else ["gx", "no_such_column"]),
        "three observables": put("bins_on", ["gx", "gy", "other"]),
        "no components": drop("components"),
        "copy of a missing parameter": put("copy_parameters", {"z_rate": "no_such_parameter"}),
        "missing parameter file": lambda full, llh: full.update(par_config=nowhere),
        "no parameter file": lambda full, llh: full.pop("par_config"),
        "no likelihoods": lambda full, llh: full.pop("likelihoods"),
        "missing configuration file": lambda full, llh: full.update(configs={"a_map": nowhere}),
    }
    for what, change in cases.items():
        m.raises(REFUSED, lambda: fault(change), "faulty instruction", what=what)
        m.seen("refused", what)
    m.raises(REFUSED, lambda: Context(nowhere), "missing instruction")
    # by hand
    apt.clear_cache()
    full = {**copy.deepcopy(ins), "par_config": parfile}
    tree = Context(full)
    llh = tree[first]
    comps = dict(llh.components)
    sim = [c for c in w.sim if c[1] == ref[first]["dim"]][0][0]
    cls = getattr(apt.components, sim)
    m.raises(ValueError, lambda: tree.register_likelihood(first, copy.deepcopy(ins["likelihoods"][first])), "second likelihood of a name")
    m.check(tree[first] is llh and list(tree.likelihoods) == list(ref), "a refused likelihood replaced another")
    m.raises(ValueError, lambda: tree.register_component(first, cls, comp), "second component of a name")
    m.raises(REFUSED, lambda: tree.register_component(first, apt.components.C32Fixed0, "late"), "fixed component without a file")
    m.raises(REFUSED, lambda: tree.register_component("no_such_llh", cls, "late"), "component of an unknown likelihood")
    m.raises(REFUSED, lambda: tree["no_such_llh"], "unknown likelihood")
    m.raises(REFUSED, lambda: tree[first]["no_such_component"], "unknown component")
    m.check(dict(llh.components) == comps and all(llh[c] is comps[c] for c in comps), "a refused component replaced another")
    m.check("late_rate" not in tree.needed_parameters, "a refused component left its parameters")
    m.raises(REFUSED, lambda: tree.register_likelihood("late", {**copy.deepcopy(ins["likelihoods"][first]), "bins_type": "none"}), "unknown binning")
    m.check("late" not in tree.likelihoods, "a refused likelihood stays")
    judge(m, w, tree, ref, final, "after refusals")


@case(repeat=(1, 2))
def literature_refused(m):
    """Literature likelihoods have one component and two dimensions."""
    w = World(m.rng())
    cfg, _ = w.literature(["lit_a"])
    cfg["copy_parameters"] = {}
    par = {"ef": toys.par_fixed(1.0), "en": toys.par_fixed(EN), "yi": toys.par_norm(2.5, 1.0, 0.5, 5.0), "lit_a_rate": toys.par_fixed(1.0)}
    base = {"likelihoods": {}}
    tree = Context(base, par)
    tree.register_likelihood("lit", cfg)
    tree.register_component("lit", apt.components.LitCompC32, "lit_a")
    want = tree.log_posterior({"yi": 2.0}, batch_size=1)
    m.raises(AssertionError, lambda: tree.register_component("lit", apt.components.LitCompC32, "lit_b"), "second component of a literature likelihood")
    m.raises(REFUSED, lambda: tree.register_component("lit", apt.components.LitCompC32, "lit_a"), "the same component twice")
    m.check(list(tree["lit"].components) == ["lit_a"] and set(tree.needed_parameters) == {"ef", "en", "yi", "lit_a_rate"}, "a refused component stays",
            got=(list(tree["lit"].components), tree.needed_parameters))
    m.check(tree.log_posterior({"yi": 2.0}, batch_size=1) == want, "a refused component changes the posterior")
    for bad in (dict(bins_on=["l_energy"]), dict(bins_on=["l_energy", "l_yield", "eff"]), dict(variable_type="lognorm")):
        m.raises(REFUSED, lambda: tree.register_likelihood("lit2", {**cfg, **bad}), "faulty literature likelihood", what=bad)
        m.seen("refused", repr(bad))
    for k in ("logpdf_args", "variable_type", "bins_on"):
        m.raises(REFUSED, lambda: tree.register_likelihood("lit2", {kk: v for kk, v in cfg.items() if kk != k}), "incomplete literature likelihood", what=k)
    m.check(list(tree.likelihoods) == ["lit"], "a refused likelihood stays")


@case(repeat=(1, 2))
def base_folder(m):
    """Relative names are found in url_base, configurations are set before anything is built."""
    rng = m.rng()
    from jax import numpy as jnp

    for how in ("dict", "file"):
        apt.clear_cache()
        d = toys.scratch()
        x = rng.uniform(0, 8, 60)
        toys.csv({"gx": x}, path=os.path.join(d, "measured.csv"))
        fx = rng.uniform(0, 8, 50)
        toys.csv({"gx": fx}, path=os.path.join(d, "shape.csv"))
        toys.point_map([0, 10], [3.0, 3.0], path=os.path.join(d, "gain_map.json"))
        toys.dump_json({"er_rate": toys.par_uniform(0, 50), "wall_rate": toys.par_uniform(0, 50)}, path=os.path.join(d, "par_here.json"))

        def fe(self, key, parameters, gx):
            v = self.gain_map.apply(jnp.asarray(gx)) * self.gain_k.value
            return key, v * 4.0

        def fx_(self, key, parameters, batch_size):
            return key, jnp.tile(jnp.asarray([0.5, 2.0, 3.5, 6.0]), batch_size // 4)

        pl = [toys.plugin("BaseX", ["batch_size"], ["gx"], fx_),
              toys.plugin("BaseE", ["gx"], ["eff"], fe, configs=(toys.Map(name="gain_map", default="none.json", method="LERP"),
                                                                 toys.Constant(name="gain_k", type=float, default=1.0)))]
        toys.component_cls("BaseComp", pl, "on_sim", False)
        toys.fixed_cls("BaseFixed", add_eps=False)
        llh = lambda: dict(data_file_name="measured.csv", bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8], copy_parameters={},  # noqa
                           components={"er": "BaseComp", "wall": {"component_cls": "BaseFixed", "file_name": "shape.csv"}})
        full = {"url_base": d, "configs": {"gain_map": "gain_map.json", "gain_k": {"one": 2.0, "two": 5.0}}, "likelihoods": {"one": llh(), "two": llh()},
                "par_config": "par_here.json"}
        before = copy.deepcopy(full)
        tree = Context(toys.dump_json(full, name="instruct.json") if how == "file" else full)
        m.check(full == before, "the given instruction is changed")
        h = np.histogram(fx, EX)[0]
        for name, k in (("one", 2.0), ("two", 5.0)):
            _, got = tree[name]["er"].simulate_hist(m.key(), 8, {"er_rate": 7.0})
            m.close(got, np.full(4, 7.0 * 3.0 * k), "configuration of the instruction", rtol=1e-4, likelihood=name)
            m.close(tree[name]["wall"].simulate_hist({"wall_rate": 2.0}), 2.0 * h / h.sum(), "file of the base folder", rtol=1e-4)
            m.same(np.asarray(tree[name].data_hist, float), np.histogram(x, EX)[0].astype(float), "data of the base folder")
        m.seen("base folder", how)
    # no configurations and no base folder are needed
    apt.clear_cache()
    toys.fixed_cls("BaseFixed", add_eps=False)
    full = {"likelihoods": {"one": dict(data_file_name=os.path.join(d, "measured.csv"), bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8],
                                        copy_parameters={"wall_rate": "rate"},
                                        components={"wall": {"component_cls": "BaseFixed", "file_name": os.path.join(d, "shape.csv")}})},
            "par_config": toys.dump_json({"rate": toys.par_uniform(1, 90)}, name="par.json")}
    tree = Context(full)
    post, lp = tree.log_posterior({"wall_rate": 60.0}, batch_size=4)
    mu = 60.0 * h / h.sum()
    m.check(abs(post - lp - poisson(np.histogram(x, EX)[0], mu)) < 1e-2, "a minimal instruction", got=post - lp)
    m.check(tree.backend_h5 is None, "a backend nobody asked for")


SHIPPED = ["rn220.json", "rn220_ar37.json", "neutron_low.json", "literature_lyqy.json"]


@case(repeat=(1, 1))
def shipped(m):
    """The shipped instructions, as files, dictionaries and contexts."""
    classes = {"rn220.json": apt.ContextRn220, "rn220_ar37.json": apt.ContextRn220Ar37}
    for file in SHIPPED:
        with open(get_file_path(file)) as f:
            ins = json.load(f)
        with open(get_file_path(ins["par_config"])) as f:
            par = json.load(f)
        hashes = []
        ways = [lambda: Context(file)]
        if file in classes:
            ways.append(classes[file])
        if not m.quick:
            ways.append(lambda: Context(copy.deepcopy(ins)))
        for way in ways:
            apt.clear_cache()
            tree = way()
            m.check(list(tree.likelihoods) == list(ins["likelihoods"]), "likelihoods of a shipped instruction", file=file)
            needed = set()
            copied, final = set(), dict(par)
            for name, cfg in ins["likelihoods"].items():
                llh = tree[name]
                m.check(type(llh).__name__ == cfg.get("type", "Likelihood"), "type", file=file, name=name)
                m.check(list(llh.components) == list(cfg["components"]), "components", file=file, name=name)
                for c, v in cfg["components"].items():
                    cls = v if isinstance(v, str) else v["component_cls"]
                    m.check(type(llh[c]).__name__ == cls, "class of a component", got=type(llh[c]).__name__, want=cls)
                    needed |= {c + "_rate"}
                copied |= set(cfg["copy_parameters"].values())
                for k, b in cfg["copy_parameters"].items():
                    final[k] = par[b]
                if "data_file_name" in cfg:
                    data = apt.utils.load_data(cfg["data_file_name"])
                    on = cfg["bins_on"]
                    keep = np.ones(len(data), bool)
                    for col, (lo, hi) in zip(on, (cfg["x_clip"], cfg["y_clip"])):
                        keep &= (data[col].to_numpy() > lo) & (data[col].to_numpy() < hi)
                    m.same(llh.data, data[on].to_numpy()[keep], "data of a shipped likelihood", name=name)
                    bins = cfg["bins"]
                    want = tuple(bins) if isinstance(bins[0], int) else (len(bins[0]) - 1, len(bins[1][0]) - 1)
                    m.check(llh.data_hist.shape == want, "binning of a shipped likelihood", got=llh.data_hist.shape, want=want)
                m.seen("shipped", (file, name))
            for k in copied - needed:
                final.pop(k)
            m.check(set(tree.par_manager.get_all_parameter()) == set(final), "parameters of a shipped instruction", file=file,
                    got=set(tree.par_manager.get_all_parameter()) ^ set(final))
            hashes.append(tree.lineage_hash)
            if way is not ways[0] and m.quick:
                continue
            post, lp = tree.log_posterior({k: (final[k]["init_mean"] if final[k]["init_mean"] is not None else 0.0) for k in tree.par_manager.parameter_fit},
                                          batch_size=1 if file.startswith("lit") else 2000)
            m.check(np.isfinite(lp) and post == post, "posterior of a shipped instruction", got=(post, lp), file=file)
        m.check(len(set(hashes)) == 1, "ways to assemble a shipped context differ", hashes=hashes, file=file)
