"""Small plugins, components, maps and contexts for the workloads."""

import json
import os

import numpy as np

import appletree as apt
from appletree.plugin import Plugin
from appletree.component import ComponentSim, ComponentFixed
from appletree.config import takes_config, Constant, Map, SigmaMap, ConstantSet  # noqa

_added = []  # (module, name, had, old)
_n_scratch = [0]


def _set(module, name, value):
    had = hasattr(module, name)
    _added.append((module, name, had, getattr(module, name, None)))
    setattr(module, name, value)


def cleanup():
    while _added:
        module, name, had, old = _added.pop()
        if had:
            setattr(module, name, old)
        elif hasattr(module, name):
            delattr(module, name)


def scratch(name=None):
    """A new scratch folder (or a file in one)."""
    _n_scratch[0] += 1
    d = os.path.join(os.environ["VERIF_SCRATCH"], f"s{_n_scratch[0]}")
    os.makedirs(d, exist_ok=True)
    return d if name is None else os.path.join(d, name)


# ---------------------------------------------------------------- plugins


def plugin(name, depends_on, provides, body, parameters=(), configs=(), base=None, jit=False, add=True):
    """Make a plugin class.

    body(self, key, parameters, *dependencies) returns (key, outputs...).

    """
    args = ", ".join(["self", "key", "parameters"] + list(depends_on))
    env = {"_body": body}
    exec(f"def simulate({args}):\n    return _body({args})\n", env)
    simulate = env["simulate"]
    if jit:
        import functools
        import jax

        static = tuple([0] + [3 + i for i, d in enumerate(depends_on) if d == "batch_size"])
        simulate = functools.partial(jax.jit, static_argnums=static)(simulate)
    cls = type(
        name,
        (base or Plugin,),
        {
            "depends_on": list(depends_on),
            "provides": list(provides),
            "parameters": tuple(parameters),
            "simulate": simulate,
            "__module__": "verif_toys",
        },
    )
    if configs:
        cls = takes_config(*configs)(cls)
    if add:
        _set(apt.plugins, name, cls)
    return cls


def component_cls(name, plugins, norm_type="on_pdf", add_eps=False, add=True):
    def __init__(self, *args, **kwargs):
        ComponentSim.__init__(self, *args, **kwargs)
        for p in plugins:
            self.register(p)

    cls = type(
        name,
        (ComponentSim,),
        {
            "norm_type": norm_type,
            "add_eps_to_hist": add_eps,
            "__init__": __init__,
            "__module__": "verif_toys",
        },
    )
    if add:
        import appletree.components as components

        _set(components, name, cls)
    return cls


def fixed_cls(name, norm_type="on_pdf", add_eps=True, add=True):
    cls = type(
        name,
        (ComponentFixed,),
        {"norm_type": norm_type, "add_eps_to_hist": add_eps, "__module__": "verif_toys"},
    )
    if add:
        import appletree.components as components

        _set(components, name, cls)
    return cls


def build(plugins, data_names, llh_name="toy_llh", name="toy", func_name="simulate", cls_name="ToyComp",
          norm_type="on_pdf", add_eps=False, rate_name="", force_no_eff=False, compile=True, **kwargs):
    """A compiled component of the plugins."""
    cls = component_cls(cls_name, plugins, norm_type, add_eps, add=False)
    c = cls(name=name, llh_name=llh_name, **kwargs)
    c.rate_name = rate_name
    c.deduce(data_names=data_names, func_name=func_name, force_no_eff=force_no_eff)
    if compile:
        c.compile()
    return c


# a small band: two observables and an efficiency, a few parameters


def band_plugins(prefix="", observables=("cs1", "cs2"), par=("t_mu", "t_sig", "t_eff"), jit=True):
    from appletree import randgen
    from jax import numpy as jnp

    mu, sig, eff = par

    def energy(self, key, parameters, batch_size):
        return randgen.uniform(key, 1.0, 10.0, shape=(batch_size,))

    def obs1(self, key, parameters, t_energy):
        key, s = randgen.normal(key, t_energy * parameters[mu], parameters[sig])
        return key, s

    def obs2(self, key, parameters, t_energy):
        key, s = randgen.normal(key, 100.0 * t_energy, 30.0)
        return key, s

    def effic(self, key, parameters, s1):
        return key, jnp.where(s1 > 2.0, 1.0, 0.0) * parameters[eff]

    return [
        plugin(prefix + "ToyEnergy", ["batch_size"], ["t_energy"], energy, jit=jit),
        plugin(prefix + "ToyObs1", ["t_energy"], [observables[0]], obs1, (mu, sig), jit=jit),
        plugin(prefix + "ToyObs2", ["t_energy"], [observables[1]], obs2, jit=jit),
        plugin(prefix + "ToyEff", [observables[0]], ["eff"], effic, (eff,), jit=jit),
    ]


# ---------------------------------------------------------------- files


def dump_json(obj, path=None, name="map.json"):
    path = path or scratch(name)
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


def point_map(x, y, log=False, coord="x", path=None, name="map.json"):
    return dump_json(
        {
            "coordinate_type": "log_point" if log else "point",
            "coordinate_name": coord,
            "coordinate_system": np.asarray(x, float).tolist(),
            "map": np.asarray(y, float).tolist(),
        },
        path,
        name,
    )


def regbin_map(lowers, uppers, values, types="regbin", names=None, path=None, name="map.json"):
    n = len(lowers)
    return dump_json(
        {
            "coordinate_type": types,
            "coordinate_name": names or ["x", "y", "z"][:n],
            "coordinate_lowers": [float(v) for v in lowers],
            "coordinate_uppers": [float(v) for v in uppers],
            "map": np.asarray(values, float).tolist(),
        },
        path,
        name,
    )


def csv(columns, path=None, name="data.csv"):
    import pandas as pd

    path = path or scratch(name)
    pd.DataFrame(columns).to_csv(path, index=False)
    return path


def const_map(value, path=None, name="map.json"):
    return point_map([-1e9, 1e9], [value, value], path=path, name=name)


# ---------------------------------------------------------------- parameters and contexts


def par_norm(mean, std, lo=-1e9, hi=1e9, init_mean=None, init_std=None):
    return dict(
        prior_type="norm", prior_args=dict(mean=mean, std=std), allowed_range=[lo, hi],
        init_mean=mean if init_mean is None else init_mean, init_std=std if init_std is None else init_std,
        unit="1", doc="",
    )


def par_uniform(lower, upper, lo=None, hi=None, init_mean=None, init_std=None):
    return dict(
        prior_type="uniform", prior_args=dict(lower=lower, upper=upper),
        allowed_range=[lower if lo is None else lo, upper if hi is None else hi],
        init_mean=(lower + upper) / 2 if init_mean is None else init_mean,
        init_std=(upper - lower) / 10 if init_std is None else init_std, unit="1", doc="",
    )


def par_free(init_mean, init_std, lo=-1e9, hi=1e9):
    return dict(prior_type="free", prior_args={}, allowed_range=[lo, hi], init_mean=init_mean,
                init_std=init_std, unit="1", doc="")


def par_thn(mu, sigma_pos, sigma_neg, lo=-1e9, hi=1e9, init_mean=None, init_std=None):
    return dict(
        prior_type="twohalfnorm", prior_args=dict(mu=mu, sigma_pos=sigma_pos, sigma_neg=sigma_neg),
        allowed_range=[lo, hi], init_mean=mu if init_mean is None else init_mean,
        init_std=(sigma_pos + sigma_neg) / 2 if init_std is None else init_std, unit="1", doc="",
    )


def par_fixed(val):
    return dict(prior_type="fixed", prior_args=dict(val=val), allowed_range=None, init_mean=None,
                init_std=None, unit="1", doc="")


def write_band_data(rng, n=300, path=None, names=("cs1", "cs2")):
    e = rng.uniform(1, 10, 4 * n)
    s1 = rng.normal(3 * e, 1.0)
    s2 = rng.normal(100 * e, 30)
    m = (s1 > 3) & (s1 < 28) & (s2 > 120) & (s2 < 1000)
    return csv({names[0]: s1[m][:n], names[1]: s2[m][:n]}, path)


def toy_instruct(rng, comps, n=300, bins=(4, 3), par_config=None, configs=None, backend=None,
                 llh_name="toy_llh", alias=None, copy=None, data=None):
    """Instruction of a context with one binned likelihood.

    comps maps component names to a class name or {component_cls, file_name}.

    """
    return {
        "configs": configs or {},
        "likelihoods": {
            llh_name: {
                "components": comps,
                "copy_parameters": copy if copy is not None else {c + "_rate": "rate" for c in comps},
                "data_file_name": data or write_band_data(rng, n),
                "bins_type": "equiprob",
                "bins_on": ["cs1", "cs2"],
                "bins": list(bins),
                "x_clip": [3, 28],
                "y_clip": [120, 1000],
                **({"parameter_alias": alias} if alias else {}),
            }
        },
        "par_config": dump_json(par_config, name="par.json") if isinstance(par_config, dict) else par_config,
        **({"backend_h5": backend} if backend else {}),
    }


def band_par_config(rate=300.0):
    return {
        "rate": par_uniform(0.1, 10 * rate, init_mean=rate, init_std=10.0),
        "t_mu": par_norm(3.0, 0.1, 1.0, 5.0),
        "t_sig": par_thn(1.0, 0.1, 0.2, 0.2, 3.0),
        "t_eff": par_fixed(0.9),
    }
