"""C23: the global caches protect compiled simulations and report unused configuration."""

import re
import warnings

import numpy as np

import appletree as apt
from appletree import Context
from appletree.share import set_global_config
from appletree.utils import check_unused_configs
from lib import toys
from lib.vh import case

PROPERTY = "C23"
RULE = (
    "histories of deduce and compile over names, functions, likelihoods and components, with earlier components simulated again (also with "
    "new shapes) after every step; configuration of every kind, used, unused, used by plugins outside the workflow, before and after "
    "clearing; distinct by (history step, kind, outcome)"
)
TECHNIQUE = "runtime monitoring: every component returns its own constant, every refusal and every report is recorded"


def constant_plugins(value, prefix):
    from jax import numpy as jnp

    def e(self, key, parameters, batch_size):
        return key, jnp.full((batch_size,), value)

    def s(self, key, parameters, t_energy):
        return key, t_energy * parameters["gain"]

    def eff(self, key, parameters, t_energy):
        return key, jnp.ones_like(t_energy)

    return [
        toys.plugin(prefix + "E", ["batch_size"], ["t_energy"], e),
        toys.plugin(prefix + "S", ["t_energy"], ["cs1"], s, ("gain",)),
        toys.plugin(prefix + "F", ["t_energy"], ["eff"], eff),
    ]


def make(plugins, llh, name, func, cls="Toy"):
    c = toys.component_cls(cls, plugins, add=False)(name=name, llh_name=llh)
    c.rate_name = name + "_rate"
    return c


def value_of(m, c, n=3):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, out = c.simulate(m.key(n), n, {"gain": 2.0})
    return np.asarray(out[0])


@case(repeat=(2, 8))
def histories(m):
    """Random histories of building components: earlier ones are never changed, taken names are refused."""
    rng = m.rng()
    apt.clear_cache()
    alive = []  # (component, value)
    taken_f, taken_c = set(), set()
    llhs = ["l1", "l2"]
    names = ["a", "b", "c"]
    funcs = ["simulate", "f1", "f2", "f3"]
    variants = {}
    for step in range(m.pick(16, 30)):
        llh, name, func = str(rng.choice(llhs)), str(rng.choice(names)), str(rng.choice(funcs))
        v = int(rng.integers(0, 3))  # which plugin set
        value = float(step + 1)
        # the plugins of variant v are defined again with another constant: like an edited model
        prefix = f"V{v}"
        plugins = constant_plugins(value, prefix)
        c = make(plugins, llh, name, func)
        # instances are named by the class and the component, the function by its name
        clash = (llh, func) in taken_f or (llh, v, name) in taken_c
        try:
            c.deduce(data_names=["cs1"], func_name=func)
            c.compile()
            refused = False
        except Exception as e:
            refused = True
            m.check(isinstance(e, RuntimeError), "a taken name is refused with RuntimeError", error=repr(e))
        kind = "function" if (llh, func) in taken_f else "component" if clash else "free"
        m.check(refused == clash, "only taken names are refused", step=step, llh=llh, name=name, func=func,
                variant=v, refused=refused)
        m.seen("build", (kind, refused, llh, name, func))
        if not refused:
            taken_f.add((llh, func))
            taken_c.add((llh, v, name))
            alive.append((c, value))
        n = int(rng.integers(2, 5))
        for c0, v0 in alive:
            m.close(value_of(m, c0, n), np.full(n, 2 * v0), "component keeps its own simulation", rtol=1e-6, n=n)
            m.count("simulations of components")
        if not refused:
            m.raises(RuntimeError, lambda: c.deduce(data_names=["cs1"], func_name=func), "the name is reserved")
        if rng.random() < 0.12:
            apt.clear_cache()
            taken_f, taken_c = set(), set()
            m.seen("clear", len(alive))
    m.sample(alive=len(alive))


@case
def reserved_before_compiling(m):
    """Names are refused also between deducing and compiling, and compiling again is harmless."""
    apt.clear_cache()
    p = constant_plugins(3.0, "W")
    a = make(p, "l1", "a", "f")
    a.deduce(data_names=["cs1"], func_name="f")
    b = make(constant_plugins(4.0, "X"), "l1", "b", "f")
    m.raises(RuntimeError, lambda: (b.deduce(data_names=["cs1"], func_name="f"), b.compile()), "function is reserved")
    b = make(constant_plugins(5.0, "X"), "l1", "b", "g")
    b.deduce(data_names=["cs1"], func_name="g")
    order = [a, b] if m.rng().random() < 0.5 else [b, a]
    for c in order:
        c.compile()
    for i in range(2):
        m.close(value_of(m, a, 3 + i), np.full(3 + i, 6.0), "first component", rtol=1e-6)
        m.close(value_of(m, b, 3 + i), np.full(3 + i, 10.0), "second component", rtol=1e-6)
        a.compile()
        b.compile()
        m.seen("compiled again", i)
    # ambiguous names of the instances: class P and component x_y, class P_x and component y
    apt.clear_cache()
    a = make(constant_plugins(1.0, "P"), "l1", "z", "f1")
    a.deduce(data_names=["cs1"], func_name="f1")
    a.compile()
    q = constant_plugins(7.0, "Q")
    amb = toys.plugin("PE_x", ["batch_size"], ["t_energy"], q[0].simulate.__globals__["_body"])
    b = make([amb] + q[1:], "l1", "y", "f2")
    b.deduce(data_names=["cs1"], func_name="f2")
    b.compile()
    c = make(constant_plugins(9.0, "P"), "l1", "x_y", "f3")
    m.raises(RuntimeError, lambda: (c.deduce(data_names=["cs1"], func_name="f3"), c.compile()),
             "instances with the same name are refused")
    m.close(value_of(m, a, 5), np.full(5, 2.0), "first component", rtol=1e-6)
    m.close(value_of(m, b, 5), np.full(5, 14.0), "second component", rtol=1e-6)
    m.seen("ambiguous", "PE_x_y")


@case(repeat=(1, 2))
def contexts(m):
    """A context cannot take the likelihood of another one, contexts with different likelihoods coexist."""
    rng = m.rng()
    apt.clear_cache()
    plugins = toys.band_plugins(jit=False)
    toys.component_cls("ToyBand", plugins)
    ins1 = toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l1")
    ins2 = toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l2")
    one = Context(ins1)
    params = {"rate": 300.0, "t_mu": 3.0, "t_sig": 1.0, "t_eff": 0.9}
    key = m.key()

    def llh(c, name):
        from appletree.component import ComponentSim  # noqa

        k, h = c[name].components["er"].simulate_hist(key, 500, {**params, "er_rate": 300.0})
        return np.asarray(h)

    h1 = llh(one, "l1")
    m.raises(RuntimeError, lambda: Context(ins1), "the same likelihood again")
    m.same(llh(one, "l1"), h1, "the first context is not changed by a refused one")
    two = Context(ins2)
    m.same(llh(one, "l1"), h1, "the first context is not changed by another likelihood")
    h2 = llh(two, "l2")
    apt.clear_cache()
    three = Context(ins1)
    m.same(llh(three, "l1"), h1, "the same model after clearing the caches")
    m.same(llh(two, "l2"), h2, "a compiled context survives clearing the caches")
    m.seen("contexts", 3)


# ------------------------------------------------------------------ configuration


def reported(names):
    """Which of the names are reported as unused."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        check_unused_configs()
    text = " ".join(str(x.message) for x in w)
    words = set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", text))
    return {n for n in names if n in words}, len(w)


def config_of(rng, kind, name, llh):
    """(config, value, dict form) of the kind."""
    if kind == "constant":
        return toys.Constant(name=name, type=float, default=1.0), float(rng.uniform(1, 9))
    if kind == "int":
        return toys.Constant(name=name, type=int, default=1), int(rng.integers(1, 9))
    if kind == "list":
        return toys.Constant(name=name, type=list, default=[1.0]), [1.0, 2.0]
    if kind == "map":
        return toys.Map(name=name, default=toys.const_map(1.0)), toys.const_map(2.0)
    if kind == "set":
        return toys.ConstantSet(name=name, default=[["a"], [[1.0]]]), [["a", "b"], [[1.0, 2.0], [3.0, 4.0]]]
    if kind == "sigma":
        d = [toys.const_map(v) for v in (2.0, 1.0, 4.0)]
        return toys.SigmaMap(name=name, default=d), [toys.const_map(v) for v in (5.0, 3.0, 6.0)] + [name + "_scaler"]
    raise KeyError(kind)


KINDS = ["constant", "int", "list", "map", "set", "sigma"]


@case(repeat=(2, 10))
def unused(m):
    """Exactly the configuration that was set and never used is reported."""
    from jax import numpy as jnp

    rng = m.rng()
    apt.clear_cache()
    for rnd in range(m.pick(3, 5)):
        llh = f"l{rnd}"
        configs = {}  # name -> (kind, config, value)
        for i, kind in enumerate(KINDS):
            name = f"ucfg_{m.iteration}_{rnd}_{kind}"
            configs[name] = (kind,) + config_of(rng, kind, name, llh)
        names = list(configs)
        where = {n: str(rng.choice(["used", "unneeded", "nowhere"])) for n in names}
        given = {n for n in names if rng.random() < 0.8}
        per_llh = {n: rng.random() < 0.4 for n in names}

        def taken(group):
            return [configs[n][1] for n in names if where[n] == group]

        def e(self, key, parameters, batch_size):
            return key, jnp.ones((batch_size,))

        def eff(self, key, parameters, cs1):
            return key, jnp.ones_like(cs1)

        def more(self, key, parameters, cs1):
            return key, cs1

        plugins = [
            toys.plugin("UE", ["batch_size"], ["cs1"], e, configs=taken("used")),
            toys.plugin("UF", ["cs1"], ["eff"], eff),
            toys.plugin("UM", ["cs1"], ["more"], more, configs=taken("unneeded")),
        ]
        values = {n: ({llh: configs[n][2]} if per_llh[n] and configs[n][0] != "list" else configs[n][2]) for n in names}
        # ConstantSet and SigmaMap are lists, too; dictionaries of lists are accepted
        set_global_config({n: values[n] for n in given})
        got, n_warn = reported(names)
        m.check(got == given, "configuration is unused before the model is built", got=got, given=given)
        m.check((n_warn > 0) == bool(given), "warning only for unused configuration", n_warn=n_warn)
        c = make(plugins, llh, "a", "simulate")
        c.deduce(data_names=["cs1"])
        c.compile()
        want = {n for n in given if where[n] != "used"}
        got, n_warn = reported(names)
        m.check(got == want, "exactly the unused configuration is reported", got=got, want=want, where=where, given=given)
        for n in names:
            m.seen("config", (configs[n][0], where[n], n in given, per_llh[n]))
        if rng.random() < 0.5:
            c.show_config(data_names=["cs1", "more", "eff"])
            got, _ = reported(names)
            m.check(got == want, "looking at the configuration is not using it", got=got, want=want)
        # the other plugin is needed by another component
        d = make(plugins, llh, "b", "other")
        d.deduce(data_names=["cs1", "more"], func_name="other")
        d.compile()
        want = {n for n in given if where[n] == "nowhere"}
        got, _ = reported(names)
        m.check(got == want, "used by another component", got=got, want=want)
        # simulation does not change it
        value_of(m, c)
        m.check(reported(names)[0] == want, "simulating does not change what is reported")
        if rng.random() < 0.5:
            # clear: nothing is configured and nothing was used
            apt.clear_cache()
            m.check(reported(names) == (set(), 0), "nothing is reported after clearing the caches")
            set_global_config({n: values[n] for n in given})
            got, _ = reported(names)
            m.check(got == given, "usage is forgotten by clearing the caches", got=got, given=given)
            apt.clear_cache()
            m.seen("cleared", (len(given), len(want)))
        else:
            # what is left unused of this round stays reported
            more_names = names
            got, _ = reported(more_names)
            m.check(got == want, "still reported", got=got)


@case
def unused_names(m):
    """Names that are part of each other are told apart."""
    from jax import numpy as jnp

    rng = m.rng()
    apt.clear_cache()
    used = ["gain_map", "gain", "s1_bias_map", "x_lifetime_y"]
    others = ["gain_ma", "ain_map", "gain_map_", "gai", "s1_bias", "x_lifetime", "GAIN", "gain_mapgain"]

    def e(self, key, parameters, batch_size):
        return key, jnp.ones((batch_size,))

    def eff(self, key, parameters, cs1):
        return key, jnp.ones_like(cs1)

    names = used + others
    set_global_config({n: 1.0 for n in (names[i] for i in rng.permutation(len(names)))})
    for i in range(len(used) + 1):
        got, _ = reported(names)
        m.check(got == set(names) - set(used[:i]), "exactly the unused configuration is reported", got=got, want=set(names) - set(used[:i]))
        if i < len(used):
            cfg = toys.Constant(name=used[i], type=float, default=2.0)
            c = make([toys.plugin(f"NE{i}", ["batch_size"], ["cs1"], e, configs=[cfg]), toys.plugin(f"NF{i}", ["cs1"], ["eff"], eff)], "l1", f"c{i}", f"f{i}")
            c.deduce(data_names=["cs1"], func_name=f"f{i}")
            c.compile()
        m.seen("names", i)


@case(repeat=(1, 3))
def context_configs(m):
    """Unused configuration of an instruction is reported, used one is not."""
    rng = m.rng()
    for used_first in (True, False):
        apt.clear_cache()
        plugins = toys.band_plugins(jit=False)
        plugins[0] = toys.plugin("ToyEnergy", ["batch_size"], ["t_energy"], plugins[0].simulate.__globals__["_body"],
                                 configs=[toys.Constant(name="ctx_used", type=float, default=1.0),
                                          toys.Map(name="ctx_map", default=toys.const_map(1.0))])
        toys.component_cls("ToyBand", plugins)
        cfg = {"ctx_used": 2.0, "ctx_map": {"l1": toys.const_map(3.0)}, "ctx_typo": 3.0, "ctx_map_typo": toys.const_map(1.0)}
        if used_first:
            cfg = dict(reversed(list(cfg.items())))
        names = list(cfg)
        Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l1", configs=cfg))
        got, _ = reported(names)
        m.check(got == {"ctx_typo", "ctx_map_typo"}, "unused configuration of the context", got=got)
        m.seen("context", used_first)
        apt.clear_cache()
        Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l1",
                                  configs={"ctx_used": 2.0}))
        got, n = reported(names)
        m.check((got, n) == (set(), 0), "nothing to report", got=got, n=n)


@case(repeat=(2, 8))
def forgotten(m):
    """Clearing the caches forgets values: the model built afterwards has its defaults."""
    from jax import numpy as jnp

    rng = m.rng()
    apt.clear_cache()

    def e(self, key, parameters, batch_size):
        x = jnp.zeros((batch_size,))
        return key, x + self.fg_const.value + 10 * self.fg_map.apply(x) + 100 * self.fg_sigma.apply(x, parameters)

    def s(self, key, parameters, t_energy):
        return key, t_energy

    def eff(self, key, parameters, t_energy):
        return key, jnp.ones_like(t_energy)

    dm, ds = toys.const_map(1.0), toys.const_map(2.0)

    def plugins():
        return [
            toys.plugin("FGE", ["batch_size"], ["t_energy"], e, configs=[
                toys.Constant(name="fg_const", type=float, default=3.0),
                toys.Map(name="fg_map", default=dm),
                toys.SigmaMap(name="fg_sigma", default=ds),
            ]),
            toys.plugin("FGS", ["t_energy"], ["cs1"], s),
            toys.plugin("FGF", ["t_energy"], ["eff"], eff),
        ]

    def build():
        c = make(plugins(), "l1", "a", "simulate")
        c.deduce(data_names=["cs1"])
        c.compile()
        return c

    built = []
    for i in range(m.pick(3, 4)):
        cfg, want = {}, 0.0
        v = [float(x) for x in rng.integers(4, 10, 3)]
        use = rng.random(3) < 0.5
        if use[0]:
            cfg["fg_const"] = v[0]
        if use[1]:
            cfg["fg_map"] = toys.const_map(v[1])
        if use[2]:
            cfg["fg_sigma"] = toys.const_map(v[2])
        set_global_config(cfg)
        want = (v[0] if use[0] else 3.0) + 10 * (v[1] if use[1] else 1.0) + 100 * (v[2] if use[2] else 2.0)
        c = build()
        built.append((c, 1.0 * want))
        m.raises(RuntimeError, build, "the component exists")
        apt.clear_cache()
        for c0, w0 in built:
            n = 2 + i
            _, out = c0.simulate(m.key(), n, {})
            m.close(np.asarray(out[0]), np.full(n, w0), "configuration of its own time", rtol=1e-5)
        m.seen("configured", tuple(bool(u) for u in use))
    c = build()
    m.close(np.asarray(c.simulate(m.key(), 3, {})[1][0]), np.full(3, 213.0), "defaults after clearing", rtol=1e-5)
