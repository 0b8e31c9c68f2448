"""C21: the lineage identifies the model."""

import copy
import json
import os
import pickle
import subprocess
import sys

import numpy as np

import appletree as apt
from appletree import Context
from appletree.share import _cached_functions
from appletree.utils import dump_lineage
from lib import toys
from lib.vh import case

PROPERTY = "C21"
RULE = (
    "a model with every kind of configuration, data, binning, component, alias and literature constraint, all single changes of it, the "
    "shipped contexts, rebuilt in other processes with other hash seeds; distinct by (change, level)"
)
TECHNIQUE = "runtime monitoring: recorded lineages of pairs of models, within and across processes"


# ---------------------------------------------------------------- the model

FILES = ("map_a", "map_b", "med", "low", "up", "data", "data_lit", "fixed")


def base_spec(rng, folder):
    f = {}
    x = np.linspace(0, 10, 6)
    for name in ("map_a", "map_b", "med", "low", "up"):
        f[name] = toys.point_map(x, np.round(rng.uniform(0.4, 0.8, 6), 3), path=os.path.join(folder, name + ".json"))
        if rng.random() < 0.4:  # a long description in front of the map
            with open(f[name]) as h:
                d = json.load(h)
            with open(f[name], "w") as h:
                json.dump({"comment": "x" * int(rng.integers(1, 3_000_000)), **d}, h)
    v = np.round(rng.uniform(0, 8, (80, 2)), 3)
    f["data"] = toys.csv({"gx": v[:, 0], "gy": v[:, 1]}, path=os.path.join(folder, "data.csv"))
    f["data2"] = toys.csv({"gx": v[:60, 0], "gy": v[:60, 1]}, path=os.path.join(folder, "data2.csv"))
    v = np.round(rng.uniform(0, 8, (50, 2)), 3)
    f["fixed"] = toys.csv({"gx": v[:, 0], "gy": v[:, 1]}, path=os.path.join(folder, "fixed.csv"))
    return {
        "files": f,
        "configs": {
            "lin_const": 1.5, "lin_list": {"one": 2.0, "two": 3.0}, "lin_map": f["map_a"], "lin_pmap": {"one": f["map_a"], "two": f["map_b"]},
            "lin_sigma": {"one": [f["med"], f["low"], f["up"], "scaler_one"], "two": [f["med"], f["low"], f["up"]]},
            "lin_set": {"one": [["a", "b"], [[1.0, 2.0], [0.5, 0.25]]], "two": [["a", "b"], [[3.0, 2.0], [0.5, 0.25]]]},
        },
        "method": "LERP", "default": 0.75, "chain": "short", "norm": "on_pdf", "eps": False, "fixed_norm": "on_pdf", "fixed_eps": True,
        "two_cls": "LinComp", "extra": {}, "alias": {"qa_one": "qa"}, "depends": 1,
        "llh": {
            "one": dict(bins_type="equiprob", bins=[2, 3], bins_on=["gx", "gy"], x_clip=[0, 8], y_clip=[0, 7.5]),
            "two": dict(bins_type="irreg", bins=[[0, 2, 4, 8]], bins_on="gx", clip=[0, 8]),
        },
        "lit": dict(variable_type="norm", logpdf_args=[["loc", "scale"], [[2.0, 3.0], [0.5, 0.7]]]),
        "par": {
            "qa": toys.par_uniform(0.5, 4.0), "qa_one": toys.par_norm(1.0, 0.1, 0.5, 2.0), "scaler_one": toys.par_norm(0, 1, -2, 2),
            "lin_sigma_sigma": toys.par_norm(0, 1, -2, 2), "rate": toys.par_uniform(1, 50), "lit_par": toys.par_thn(1.0, 0.1, 0.2, 0.5, 2.0),
            "lit_rate": toys.par_fixed(1.0),
        },
    }


def define(spec):
    """The plugins and components of a model."""
    from jax import numpy as jnp
    from appletree import randgen

    cfgs = lambda: (  # noqa
        toys.Constant(name="lin_const", type=float, default=0.5, help=""), toys.Constant(name="lin_default", type=float, default=spec["default"], help=""),
        toys.Constant(name="lin_list", type=float, default=0.5, help=""), toys.Map(name="lin_map", default="", method=spec["method"], help=""),
        toys.Map(name="lin_pmap", default="", method="LERP", help=""), toys.SigmaMap(name="lin_sigma", default="", method=spec["method"], help=""),
        toys.ConstantSet(name="lin_set", default=[["a"], [[1.0]]], help=""))

    def fx(self, key, parameters, batch_size):
        key, x = randgen.uniform(key, 0.0, 8.0, shape=(batch_size,))
        return key, x * self.lin_const.value / 1.5

    def fy(self, key, parameters, gx):
        key, y = randgen.uniform(key, 0.0, 8.0, shape=jnp.shape(gx))
        return key, y

    def fy2(self, key, parameters, gz):
        key, y = randgen.uniform(key, 0.0, 8.0, shape=jnp.shape(gz))
        return key, y

    def fz(self, key, parameters, gx):
        return key, gx + 1

    def fe(self, key, parameters, gx):
        v = self.lin_map.apply(gx) * self.lin_pmap.apply(gx) * self.lin_sigma.apply(gx, parameters) * parameters["qa"]
        return key, v * self.lin_list.value * self.lin_set.value["a"][0] * self.lin_default.value

    plugs = [toys.plugin("LinX", ["batch_size"], ["gx"], fx, (), (toys.Constant(name="lin_const", type=float, default=0.5, help=""),))]
    if spec["chain"] == "short":
        plugs.append(toys.plugin("LinY", ["gx"], ["gy"], fy))
    elif spec["chain"] == "other":
        plugs.append(toys.plugin("LinYOther", ["gx"], ["gy"], fy))
    else:
        plugs += [toys.plugin("LinZ", ["gx"], ["gz"], fz), toys.plugin("LinYLong", ["gz"], ["gy"], fy2)]
    plugs.append(toys.plugin("LinE", ["gx"], ["eff"], fe, ("qa", "lin_sigma_sigma"), cfgs()))
    toys.component_cls("LinComp", plugs, spec["norm"], spec["eps"])
    toys.component_cls("LinComp2", plugs, "on_sim", True)
    toys.fixed_cls("LinFixed", spec["fixed_norm"], spec["fixed_eps"])

    def lx(self, key, parameters, batch_size):
        return key, jnp.tile(jnp.array([1.0, 2.0]), (batch_size, 1))

    def ly(self, key, parameters, lx_):
        return key, lx_ * parameters["lit_par"] * self.lin_lit.value

    def le(self, key, parameters, lx_):
        return key, jnp.ones_like(lx_)

    toys.component_cls("LinLit", [
        toys.plugin("LinLX", ["batch_size"], ["lx_"], lx), toys.plugin("LinLY", ["lx_"], ["ly_"], ly, ("lit_par",), (toys.Constant(name="lin_lit", type=float, default=1.0, help=""),)),
        toys.plugin("LinLE", ["lx_"], ["eff"], le)], "", False)


def instruct(spec):
    f = spec["files"]
    return {
        "configs": copy.deepcopy(spec["configs"]),
        "likelihoods": {
            "one": dict(components={"er": "LinComp", "ac": {"component_cls": "LinFixed", "file_name": f["fixed"]}},
                        copy_parameters={"er_rate": "rate", "ac_rate": "rate"}, data_file_name=f["data"],
                        **({"parameter_alias": spec["alias"]} if spec["alias"] else {}), **copy.deepcopy(spec["llh"]["one"])),
            "two": dict(components={spec.get("two_name", "er2"): spec["two_cls"]}, copy_parameters={spec.get("two_name", "er2") + "_rate": "rate"}, data_file_name=f["data2"], **copy.deepcopy(spec["llh"]["two"])),
            "lit": dict(type="LikelihoodLit", components={"yields": "LinLit"}, copy_parameters={"yields_rate": "lit_rate"}, bins_on=["lx_", "ly_"], **copy.deepcopy(spec["lit"])),
        },
        **copy.deepcopy(spec["extra"]),
    }


def make(spec):
    apt.clear_cache()
    define(spec)
    return Context(instruct(spec), par_config=copy.deepcopy(spec["par"]))


def lineages(tree):
    """Hash of every level: context, likelihoods, components, plugins and configurations."""
    out = {"context": tree.lineage_hash}
    for ln, llh in tree.likelihoods.items():
        out[ln] = llh.lineage_hash
        for cn, c in llh.components.items():
            out[f"{ln}/{cn}"] = c.lineage_hash
            for inst in getattr(c, "instances", ()):
                p = _cached_functions[c.llh_name][inst]
                out[f"{ln}/{cn}/{type(p).__name__}"] = p.lineage_hash
                for k in p.takes_config:
                    out[f"{ln}/{cn}/{type(p).__name__}/{k}"] = getattr(p, k).lineage_hash
    return out


def documents(tree, folder):
    """The written lineages, of every level."""
    out = {}
    for name, e in [("context", tree)] + list(tree.likelihoods.items()) + [(f"{n}_{k}", c) for n, x in tree.likelihoods.items() for k, c in x.components.items()]:
        path = os.path.join(folder, name + ".json")
        dump_lineage(path, e)
        with open(path) as f:
            out[name] = f.read()
    return out


# ---------------------------------------------------------------- changes


def edit_map(path):
    with open(path) as f:
        d = json.load(f)
    d["map"][3] += 0.001
    with open(path, "w") as f:
        json.dump(d, f)


def setter(*keys, value):
    def change(spec):
        d = spec
        for k in keys[:-1]:
            d = d[k]
        assert d[keys[-1]] != value
        d[keys[-1]] = value

    return change


def content(name):
    def change(spec):
        path = spec["files"][name]
        if path.endswith(".json"):
            edit_map(path)
        else:
            with open(path) as f:
                text = f.read().split("\n")
            text[5] = ",".join(f"{float(v) + 0.001:.3f}" for v in text[5].split(","))
            with open(path, "w") as f:
                f.write("\n".join(text))

    return change


def other_file(*keys):
    """The same content under another name."""

    def change(spec):
        d = spec
        for k in keys[:-1]:
            d = d[k]
        old = d[keys[-1]]
        root, ext = os.path.splitext(old)
        with open(old) as f, open(root + "_copy" + ext, "w") as g:
            g.write(f.read())
        d[keys[-1]] = root + "_copy" + ext

    return change


E, X = "LinE", "LinX"
BOTH = ["one/er", "two/er2"]


def er(*suffix, only=None):
    """The simulated components with everything above, and what is below."""
    out = ["context"]
    for ln, cn in (("one", "er"), ("two", "er2")):
        if only in (None, ln):
            out += [ln, f"{ln}/{cn}"] + [f"{ln}/{cn}/{s}" for s in suffix]
    return out


def changes():
    c = {}
    c["constant"] = (setter("configs", "lin_const", value=1.25), er(X, X + "/lin_const", E))
    c["constant type"] = (setter("configs", "lin_const", value=2), er(X, E))
    c["constant default"] = (setter("default", value=0.875), er(E, E + "/lin_default"))
    c["constant configured like its default"] = None
    c["literature constant"] = (lambda s: s["configs"].update(lin_lit=1.25), ["context", "lit", "lit/yields", "lit/yields/LinLY"])
    for ln in ("one", "two"):
        c["constant of " + ln] = (setter("configs", "lin_list", ln, value=2.25), er(E, E + "/lin_list", only=ln))
        c["map of " + ln] = (setter("configs", "lin_pmap", ln, value=None), er(E, E + "/lin_pmap", only=ln))
        c["set of " + ln] = (setter("configs", "lin_set", ln, 1, 0, 1, value=7.0), er(E, E + "/lin_set", only=ln))
        for i, w in enumerate(("median", "lower", "upper")):
            c[f"{w} file of {ln}"] = (other_file("configs", "lin_sigma", ln, i), er(E, E + "/lin_sigma", only=ln))
    c["scaler of one"] = (lambda s: (s["configs"]["lin_sigma"]["one"].__setitem__(3, "scaler_other"), s["par"].update(scaler_other=s["par"].pop("scaler_one"))),
                          er(E, E + "/lin_sigma", only="one"))
    c["scaler of two"] = (lambda s: (s["configs"]["lin_sigma"]["two"].append("scaler_two"), s["par"].update(scaler_two=s["par"].pop("lin_sigma_sigma"))),
                          er(E, E + "/lin_sigma", only="two"))
    c["map content"] = (content("map_b"), ["context"] + er(E, E + "/lin_pmap", only="two"))
    c["map content of both"] = (content("map_a"), er(E, E + "/lin_map"))
    c["median content"] = (content("med"), er(E, E + "/lin_sigma"))
    c["lower content"] = (content("low"), er(E, E + "/lin_sigma"))
    c["upper content"] = (content("up"), er(E, E + "/lin_sigma"))
    c["map name"] = (other_file("configs", "lin_map"), er(E, E + "/lin_map"))
    c["method"] = (setter("method", value="NN"), er(E, E + "/lin_map", E + "/lin_sigma"))
    c["data content"] = (content("data"), ["context", "one"])
    c["data content of two"] = (content("data2"), ["context", "two"])
    c["data name"] = (other_file("files", "data"), ["context", "one"])
    c["fixed content"] = (content("fixed"), ["context", "one", "one/ac"])
    c["fixed name"] = (other_file("files", "fixed"), ["context", "one", "one/ac"])
    c["number of bins"] = (setter("llh", "one", "bins", value=[3, 2]), ["context", "one", "one/er", "one/ac"])
    c["order of the bins"] = (setter("llh", "one", "bins_on", value=["gy", "gx"]), ["context", "one", "one/er", "one/ac"])
    c["region of interest"] = (setter("llh", "one", "x_clip", value=[0, 7.75]), ["context", "one", "one/er", "one/ac"])
    c["bin edges"] = (setter("llh", "two", "bins", value=[[0, 2, 4.5, 8]]), ["context", "two", "two/er2"])
    c["bins type"] = (setter("llh", "two", "bins_type", value="meshgrid"), ["context", "two", "two/er2"])
    c["clip of explicit bins"] = (setter("llh", "two", "clip", value=[0.5, 8]), ["context", "two"])
    c["normalisation"] = (setter("norm", value="on_sim"), er())
    c["floor"] = (setter("eps", value=True), er())
    c["normalisation of the fixed component"] = (setter("fixed_norm", value="on_sim"), ["context", "one", "one/ac"])
    c["floor of the fixed component"] = (setter("fixed_eps", value=False), ["context", "one", "one/ac"])
    c["longer workflow"] = (setter("chain", value="long"), er(only="one"))
    c["other plugin"] = (setter("chain", value="other"), er(only="one"))
    c["other component"] = (setter("two_cls", value="LinComp2"), ["context", "two", "two/er2"])
    c["component name"] = (setter("two_name", value="er3") if False else (lambda s: s.update(two_name="er3")), ["context", "two"])
    c["alias"] = (lambda s: (s.update(alias={"qa_uno": "qa"}), s["par"].update(qa_uno=s["par"].pop("qa_one"))), ["context", "one"])
    c["no alias"] = (lambda s: (s.update(alias={}), s["par"].pop("qa_one")), ["context", "one"])
    c["literature arguments"] = (setter("lit", "logpdf_args", 1, 1, 1, value=0.75), ["context", "lit"])
    c["literature type"] = (lambda s: s["lit"].update(variable_type="twohalfnorm", logpdf_args=[["mu", "sigma_pos", "sigma_neg"], [[2.0, 3.0], [0.5, 0.7], [0.5, 0.7]]]), ["context", "lit"])
    for k, v in (("prior_args", dict(mean=1.0, std=0.2)), ("allowed_range", [0.5, 2.5]), ("init_mean", 1.1), ("init_std", 0.3)):
        c["parameter " + k] = (setter("par", "qa_one", k, value=v), ["context"])
    c["parameter type"] = (lambda s: s["par"].update(qa_one=toys.par_uniform(0.5, 2.0)), ["context"])
    c["fixed value"] = (setter("par", "lit_rate", "prior_args", "val", value=1.5), ["context"])
    c["prior of a copied parameter"] = (setter("par", "rate", "prior_args", "upper", value=60), ["context"])
    return {k: v for k, v in c.items() if v}


@case(repeat=(1, 3))
def single_changes(m):
    """Every single change of the model."""
    rng = m.rng()
    folder = toys.scratch()
    spec = base_spec(rng, folder)
    saved = {k: open(v).read() for k, v in spec["files"].items()}
    first = lineages(make(spec))
    m.check(len(set(v for k, v in first.items() if k.count("/") < 2)) == sum(k.count("/") < 2 for k in first), "levels of the model share their hash", hashes=first)
    todo = changes()
    names = list(todo)
    seen = {}
    for name in names:
        change, levels = todo[name]
        if name.startswith("map of"):
            ln = name.split()[-1]
            change = setter("configs", "lin_pmap", ln, value=spec["files"]["med"])
        new = copy.deepcopy(spec)
        change(new)
        with np.errstate(all="ignore"):
            got = lineages(make(new))
        for level in levels:
            if level.startswith("two/er2") and level not in got:
                level = level.replace("er2", "er3")
            m.check(level in got, "monitor lost a level", change=name, level=level, got=list(got))
            m.check(got[level] != first.get(level), "a change does not change the lineage", change=name, level=level)
            m.seen("changed", (name, level))
        m.check(got["context"] not in seen, "two different changes give the same lineage", change=name, other=seen.get(got["context"]))
        seen[got["context"]] = name
        if " of one" in name or " of two" in name:  # of one likelihood only
            other = "two/er2" if " of one" in name else "one/er"
            m.check(got[other] == first[other], "the configuration of another likelihood changes a component", change=name, component=other)
        for k, text in saved.items():
            with open(spec["files"][k], "w") as f:
                f.write(text)
    again = lineages(make(spec))
    m.check(again == first, "the same model has another lineage", differ=[k for k in first if again.get(k) != first[k]])
    m.count("changes", len(names))
    m.sample(changes=names, levels=list(first))


@case(repeat=(1, 3))
def stable(m):
    """The same model: built again, after using it, with other models in between."""
    rng = m.rng()
    folder = toys.scratch()
    spec = base_spec(rng, folder)
    tree = make(spec)
    first = lineages(tree)
    docs = documents(tree, toys.scratch())
    for what in ("again", "used", "fit", "simulated"):
        if what == "used":
            p = {k: (s["prior_args"]["val"] if s["prior_type"] == "fixed" else s["init_mean"]) for k, s in tree.par_config.items()}
            tree.log_posterior({k: p[k] for k in tree.par_manager.parameter_fit}, batch_size=200)
            tree.par_manager.sample_prior()
        elif what == "fit":
            tree.log_posterior = lambda q, **k: (-sum(v**2 for v in q.values()), 0.0)
            tree.fitting(nwalkers=2 * len(tree.par_manager.parameter_fit), iteration=2, batch_size=8)
        elif what == "simulated":
            for n in (3, 7):
                tree["one"]["er"].simulate(m.key(), n, p)
            tree.print_context_summary(short=False)
        got = lineages(tree)
        m.check(got == first, "using a model changes its lineage", use=what, differ=[k for k in first if got.get(k) != first[k]])
        m.check(documents(tree, toys.scratch()) == docs, "using a model changes its written lineage", use=what)
        m.seen("stable", what)
    for what in ("rebuilt", "others", "order"):
        if what == "others":
            other = copy.deepcopy(spec)
            other["configs"]["lin_const"] = 0.25
            make(other)
            define(spec)
            from lib import shipped

            apt.clear_cache()
            shipped.build("ERBand", ["cs1", "eff"], compile=False)
        if what == "order":
            apt.clear_cache()
            define(spec)
            ins = instruct(spec)
            ins = {k: ins[k] for k in reversed(list(ins))}
            ins["configs"] = {k: ins["configs"][k] for k in reversed(list(ins["configs"]))}
            tree = Context(ins, par_config={k: copy.deepcopy(spec["par"][k]) for k in reversed(list(spec["par"]))})
        else:
            tree = make(spec)
        got = lineages(tree)
        m.check(got == first, "the same model has another lineage", how=what, differ=[k for k in first if got.get(k) != first[k]])
        m.check(documents(tree, toys.scratch()) == docs, "the same model has another written lineage", how=what)
        m.seen("stable", what)
    # written and read back
    for name, text in docs.items():
        d = json.loads(text)
        e = tree if name == "context" else tree[name] if "_" not in name else tree[name.split("_")[0]][name.split("_")[1]]
        want = json.loads(json.dumps(e.lineage, default=lambda v: np.asarray(v).tolist()))
        m.check(d == want, "the written lineage is not the lineage", name=name)
    # the lineage of a component records its own likelihood's configuration
    for ln, cn, const, mp, scaler in (("one", "er", 2.0, "map_a.json", "scaler_one"), ("two", "er2", 3.0, "map_b.json", "lin_sigma_sigma")):
        text = json.dumps(tree[ln][cn].lineage, default=lambda v: np.asarray(v).tolist())
        inst = [v for k, v in tree[ln][cn].lineage["instances"].items() if k.startswith("LinE")][0]["takes_config"]
        m.check(inst["lin_list"]["value"] == const, "recorded value of a component", got=inst["lin_list"], want=const, likelihood=ln)
        m.check(inst["lin_pmap"]["file_path"] == mp, "recorded file of a component", got=inst["lin_pmap"], want=mp, likelihood=ln)
        m.check(scaler in text or scaler == "lin_sigma_sigma", "recorded scaler of a component", likelihood=ln)
    # another folder, the same names and content: the same components
    folder2 = toys.scratch()
    spec2 = json.loads(json.dumps(spec).replace(folder, folder2))
    for k, v in spec["files"].items():
        with open(v) as f, open(spec2["files"][k], "w") as g:
            g.write(f.read())
    got = lineages(make(spec2))
    for k in first:
        if k.count("/") == 1:
            m.check(got[k] == first[k], "the folder of the files changes a component", component=k)
    apt.utils.FULL_PATH_LINEAGE = True
    try:
        full = lineages(make(spec)), lineages(make(spec2))
        for k in ("one/er", "two/er2", "one/ac"):
            m.check(full[0][k] != full[1][k], "full paths are not part of the lineage", component=k)
    finally:
        apt.utils.FULL_PATH_LINEAGE = False
    assert pickle


WORKER = """
import json, os, sys
repo, verif, what = sys.argv[1:4]
sys.path[:0] = [repo, verif]
import contextlib, io
spec = json.load(open(what))
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    from checks import c21
    out = c21.everything(spec)
print("RESULT " + json.dumps(out))
"""

SHIPPED = ("rn220.json", "rn220_ar37.json", "literature_lyqy.json", "neutron_low.json")


def everything(spec):
    out = {"toy": lineages(make(spec["toy"]))}
    out["toy_docs"] = documents(make(spec["toy"]), toys.scratch())
    for s in spec["shipped"]:
        apt.clear_cache()
        tree = Context(s)
        out[s] = lineages(tree)
        out[s + "_docs"] = documents(tree, toys.scratch())
    return out


@case(repeat=(1, 2))
def processes(m):
    """The same model in other processes."""
    rng = m.rng()
    folder = toys.scratch()
    ships = list(SHIPPED) if not m.quick else [SHIPPED[i] for i in rng.permutation(4)[:2]]
    specs = [dict(toy=base_spec(rng, folder), shipped=ships)]
    specs.append(dict(toy=specs[0]["toy"], shipped=list(reversed(ships))))
    jobs = []
    for i in range(m.pick(2, 5)):
        d = toys.scratch()
        path = toys.dump_json(specs[i % 2], os.path.join(d, "spec.json"))
        cmd = [sys.executable, "-B", "-c", WORKER, os.environ.get("VERIF_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__))), path]
        env = {**os.environ, "VERIF_SCRATCH": d, "PYTHONHASHSEED": str(int(rng.integers(1, 10000)))}
        jobs.append((env["PYTHONHASHSEED"], subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    mine = everything(specs[0])
    for seed, p in jobs:
        out, err = p.communicate(timeout=600)
        lines = [x for x in out.decode().split("\n") if x.startswith("RESULT ")]
        m.check(lines, "the other process failed", stderr=err.decode()[-1500:])
        got = json.loads(lines[0][7:])
        for k, v in mine.items():
            m.check(got[k] == v, "another process gives another lineage", model=k, hash_seed=seed, differ=[x for x in v if got[k].get(x) != v[x]][:5])
            m.seen("process", (k, seed))
        m.count("hashes compared across processes", sum(len(v) for v in mine.values()))
    # all of the shipped contexts differ
    hashes = [mine[k]["context"] for k in mine if not k.endswith("_docs")]
    m.check(len(set(hashes)) == len(hashes), "different models have the same lineage")
    m.sample(shipped=ships, hashes={k: v.get("context") for k, v in mine.items() if not k.endswith("_docs")})
