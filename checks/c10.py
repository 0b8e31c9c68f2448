"""C10: configuration resolves per likelihood and stays fixed once built."""

import copy
import os

import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree import Context
from appletree.config import Constant, ConstantSet, Map, SigmaMap
from lib import toys
from lib.vh import case

PROPERTY = "C10"
RULE = (
    "components with options of every type, configured by default, globally, per likelihood or not at all, in random "
    "order, followed by random later events (other configuration, other components, cleared caches, changed or removed "
    "files, new batch sizes); each value used by a compiled simulation is an event; distinct by (way, event, option type)"
)
TECHNIQUE = (
    "runtime monitor: values used inside of compiled simulations compared with a model of the configuration, over "
    "random histories of configuring, building, clearing and re-tracing"
)

TYPES = ("constant", "set", "map", "sigma")


class Options:
    """A component that reports the value of an option of every type; values are identified by one number."""

    n = 0

    def __init__(self, prefix, default=None, only=TYPES, kind=None):
        Options.n += 1
        self.prefix, self.only = prefix, only
        self.names = {t: f"{prefix}_{t}" for t in only}
        cfg = []
        for t in only:
            kw = {} if default is None else {"default": self.raw(t, default)}
            if kind is not None:
                kw["type"] = kind
            cls = {"constant": Constant, "set": ConstantSet, "map": Map, "sigma": SigmaMap}[t]
            cfg.append(cls(name=self.names[t], **kw))
        names = self.names

        def body(self, key, parameters, batch_size):
            out = []
            one = jnp.ones(batch_size)
            for t in only:
                c = getattr(self, names[t])
                if t == "constant":
                    out.append(one * c.value)
                elif t == "set":
                    out.append(one * (c.value["a"][0] + c.value["b"][1]) / 3.0)
                elif t == "map":
                    out.append(c.apply(one * 0.5))
                else:
                    out.append(c.apply(one * 0.5, parameters))
            return (key, *out)

        self.cls = toys.plugin(f"Opt{Options.n}", ["batch_size"], [f"{prefix}_o{t}" for t in only], body, jit=True,
                               configs=cfg)

    def raw(self, t, v):
        """The configuration value of an option."""
        if t == "constant":
            return v
        if t == "set":
            return [["a", "b"], [[v, 0.0], [5.0, 2.0 * v]]]
        if t == "map":
            return toys.const_map(v)
        return [toys.const_map(v), toys.const_map(v - 1), toys.const_map(v + 1), "the_scaler"]

    def build(self, llh):
        Options.n += 1
        return toys.build([self.cls], [f"{self.prefix}_o{t}" for t in self.only], llh_name=llh, force_no_eff=True,
                          cls_name=f"C{Options.n}", name=f"comp{Options.n}", func_name=f"sim{Options.n}")

    def values(self, comp, key, batch):
        _, out = comp.simulate(key, batch, {"the_scaler": 0.0})
        out = [np.asarray(o) for o in out]
        assert all(o.shape == (batch,) for o in out)
        return {t: float(o[0]) for t, o in zip(self.only, out)}


def _judge(m, got, want, what, **data):
    for t in got:
        m.close(got[t], want, f"{what}: {t}", rtol=1e-5, **data)
        m.count("values observed")


@case(repeat=(1, 8))
def resolution(m):
    """Configured over default, per likelihood only for that likelihood."""
    rng = m.rng()
    o = Options("o", default=1.0)
    _judge(m, o.values(o.build("L0"), m.key(), 3), 1.0, "default")
    apt.clear_cache()
    apt.set_global_config({o.names[t]: o.raw(t, 2.0) for t in TYPES})
    _judge(m, o.values(o.build("L0"), m.key(), 3), 2.0, "configured value does not override the default")
    _judge(m, o.values(o.build("L1"), m.key(), 3), 2.0, "configured value of a second likelihood")
    apt.clear_cache()
    llhs = [str(v) for v in rng.permutation(["A", "B", "C"])]
    val = {k: float(v) for k, v in zip(llhs, rng.uniform(3, 30, 3).round(2))}
    apt.set_global_config({o.names[t]: {k: o.raw(t, v) for k, v in val.items()} for t in TYPES})
    comps = {}
    for k in llhs:
        comps[k] = o.build(k)
    for k in rng.permutation(llhs):
        k = str(k)
        _judge(m, o.values(comps[k], m.key(), 4), val[k], "value of a likelihood", llh=k, values=val)
        m.seen("per likelihood", k)
        m.sample(likelihood=k, configured=val[k])
    kinds = (None, float, int, str, list, bool, (list, str))
    for k, kind in [("D", kind) for kind in kinds] + [("a", float), ("", str), ("A ", list)]:
        for t in TYPES:
            one = Options(f"m{t}", default=1.0, only=(t,), kind=kind)
            apt.clear_cache()
            apt.set_global_config({one.names[t]: {"A": one.raw(t, 3.0)}})
            m.raises(Exception, lambda: one.build(k), f"missing entry of likelihood {k!r} is not an error: {t}")
            m.seen("missing entry", (k, t, str(kind)))
            if k == "D" and kind in (None, float):
                _judge(m, one.values(one.build("A"), m.key(), 3), 3.0, "the configured likelihood")
    # one likelihood configured with a dictionary of a single entry does not leak into the next
    for t in TYPES:
        apt.clear_cache()
        one = Options(f"s{t}", only=(t,))
        m.raises(Exception, lambda: one.build("A"), f"missing option is not an error: {t}")
        apt.set_global_config({one.names[t]: one.raw(t, 4.0)})
        _judge(m, one.values(one.build("A"), m.key(), 3), 4.0, "option without default")
        apt.clear_cache()
        apt.set_global_config({one.names[t]: {k: one.raw(t, v) for k, v in (("A", 6.0), ("B", 5.0))}})
        for k, v in (("B", 5.0), ("A", 6.0)):
            _judge(m, one.values(one.build(k), m.key(), 3), v, "option without default, by likelihood", llh=k)
        m.seen("missing option", t)


EVENTS = ("configure", "per likelihood", "build other", "clear", "files", "rebuild", "mutate")


@case(repeat=(2, 16))
def histories(m):
    """Whatever happens after compiling, the component keeps its values, also when it is traced again."""
    rng = m.rng()
    o = Options("h", default=1.0)
    way = str(rng.choice(["default", "global", "per likelihood"]))
    given = None
    if way == "global":
        given = {o.names[t]: o.raw(t, 5.0) for t in TYPES}
    elif way == "per likelihood":
        given = {o.names[t]: {"A": o.raw(t, 5.0), "B": o.raw(t, 6.0), "O": o.raw(t, 8.0)} for t in TYPES}
    if given:
        before = copy.deepcopy(given)
        apt.set_global_config(given)
        m.check(given == before, "the given configuration is modified")
    comps = {"A": o.build("A"), "B": o.build("B")}
    want = {"A": {"default": 1.0, "global": 5.0, "per likelihood": 5.0}[way],
            "B": {"default": 1.0, "global": 5.0, "per likelihood": 6.0}[way]}
    batch = 3
    n = 0
    events = [EVENTS[i] for i in rng.permutation(len(EVENTS))][: m.pick(6, 7)]
    for ev in [None] + events:
        if ev == "configure":
            apt.set_global_config({o.names[t]: o.raw(t, 50.0 + n) for t in TYPES})
        elif ev == "per likelihood":
            apt.set_global_config({o.names[t]: {k: o.raw(t, 60.0 + n) for k in "ABO"} for t in TYPES})
        elif ev == "build other":
            p = Options(f"x{n}", default=2.0)
            c = p.build("O")
            _judge(m, p.values(c, m.key(), 3), 2.0, "another component")
        elif ev == "clear":
            apt.clear_cache()
        elif ev == "files":
            root = os.environ["VERIF_SCRATCH"]
            for d, _, fs in os.walk(root):
                for f in fs:
                    if f.endswith(".json"):
                        if rng.random() < 0.5:
                            os.remove(os.path.join(d, f))
                        else:
                            toys.const_map(77.0, path=os.path.join(d, f))
        elif ev == "rebuild":
            # the same plugin class, another likelihood, another configuration
            apt.share._cached_configs.clear()
            apt.set_global_config({o.names[t]: o.raw(t, 70.0 + n) for t in TYPES})
            c = o.build(f"R{n}")
            _judge(m, o.values(c, m.key(), 3), 70.0 + n, "configuration of the rebuilt component")
        elif ev == "mutate" and given:
            for v in given.values():
                if isinstance(v, dict):
                    v.clear()
                elif isinstance(v, list):
                    v.clear()
        n += 1
        batch += 1
        for k in ("A", "B"):
            # traced again for a new batch size, and the old trace
            _judge(m, o.values(comps[k], m.key(), batch), want[k], f"traced again after {ev}", llh=k, way=way,
                   history=events)
            if n % 3 == 0:
                _judge(m, o.values(comps[k], m.key(), 4), want[k], f"old trace after {ev}", llh=k, way=way)
            m.seen("history", (way, ev, k))
        m.sample(way=way, event=ev, values=want)


@case(repeat=(1, 4))
def later_components(m):
    """A component built later takes the configuration of that moment; compiling again is needed to change."""
    o = Options("l", default=1.0)
    a = o.build("A")
    apt.set_global_config({o.names[t]: o.raw(t, 9.0) for t in ("constant", "set", "map")})
    p = Options("l", default=1.0, only=("constant", "set", "map"))
    b = p.build("B")
    _judge(m, p.values(b, m.key(), 3), 9.0, "later component ignores the configuration")
    _judge(m, o.values(a, m.key(), 5), 1.0, "earlier component follows the configuration")
    # the values of the instances themselves
    apt.clear_cache()
    apt.set_global_config({p.names[t]: {"A": p.raw(t, 3.0), "B": p.raw(t, 4.0)} for t in p.only})
    ia, ib = p.cls("A"), p.cls("B")
    ia2 = p.cls("A")
    name = p.names["constant"]
    m.check((getattr(ia, name).value, getattr(ib, name).value, getattr(ia2, name).value) == (3.0, 4.0, 3.0),
            "plugin instances share their configuration",
            got=(getattr(ia, name).value, getattr(ib, name).value, getattr(ia2, name).value))
    for t in ("map",):
        va = [float(np.asarray(getattr(i, p.names[t]).apply(jnp.array([0.5])))[0]) for i in (ia, ib, ia2)]
        m.close(va, [3.0, 4.0, 3.0], "plugin instances share their maps")
    m.seen("later", 1)


@case
def defaults_of_components(m):
    """Two components whose plugins declare different defaults for the same option name."""
    for t in ("constant", "set", "map"):
        apt.clear_cache()
        a, b = Options("d", default=1.0, only=(t,)), Options("d", default=2.0, only=(t,))
        ca, cb = a.build("A"), b.build("B")
        _judge(m, a.values(ca, m.key(), 3), 1.0, "default of the first component")
        got = b.values(cb, m.key(), 3)[t]
        m.check(abs(got - 1.0) < 1e-5 or abs(got - 2.0) < 1e-5, "neither of the defaults", got=got)
        if abs(got - 2.0) > 1e-5:
            m.known("default-of-an-earlier-component",
                    "two components declare different defaults of one option name: the later one silently gets the "
                    "default of the earlier one until the caches are cleared", option=t, got=got)
        # an explicit configuration, or cleared caches, resolve it
        apt.clear_cache()
        _judge(m, b.values(b.build("C"), m.key(), 3), 2.0, "default after clearing")
        apt.clear_cache()
        apt.set_global_config({b.names[t]: {"A": b.raw(t, 3.0), "B": b.raw(t, 4.0)}})
        _judge(m, a.values(a.build("A"), m.key(), 3), 3.0, "configured for the first likelihood")
        _judge(m, b.values(b.build("B"), m.key(), 3), 4.0, "configured for the second likelihood")
        m.seen("defaults", t)


@case
def setting(m):
    """Accepted and refused values of a global configuration."""
    f = toys.const_map(1.0)
    apt.set_global_config({"a": 1, "b": 2.5, "c": [1, 2], "d": f, "e": {"A": 1, "B": f, "C": [1]}})
    cfg = apt.share._cached_configs
    m.check((cfg["a"], cfg["b"], cfg["c"], cfg["d"]) == (1, 2.5, [1, 2], f), "configured values")
    m.check(dict(cfg["e"]) == {"A": 1, "B": f, "C": [1]}, "configured values per likelihood")
    m.raises(Exception, lambda: apt.set_global_config({"a": None}), "None as configuration")
    m.raises(Exception, lambda: apt.set_global_config({"a": (1, 2)}), "tuple as configuration")
    m.raises(Exception, lambda: apt.set_global_config({"a": "no_such_file.json"}), "missing file as configuration")
    m.raises(Exception, lambda: apt.set_global_config({"a": {"A": "no_such_file.json"}}), "missing file per likelihood")
    # the latest value counts
    apt.clear_cache()
    o = Options("s", default=1.0, only=("constant",))
    for v in (2.0, 3.0):
        apt.set_global_config({o.names["constant"]: v})
    _judge(m, o.values(o.build("A"), m.key(), 3), 3.0, "latest value")
    # the latest dictionary, and what is no dictionary, replace what was configured before
    for first, second, want in (
        ({"A": 2.0, "B": 3.0}, {"B": 4.0}, {"A": None, "B": 4.0}), ({"A": 2.0}, 5.0, {"A": 5.0, "B": 5.0}),
        (5.0, {"A": 2.0}, {"A": 2.0, "B": None}), ({"A": 2.0}, {"A": 6.0}, {"A": 6.0, "B": None}),
    ):
        apt.clear_cache()
        o = Options("again", default=1.0, only=("constant",))
        apt.set_global_config({o.names["constant"]: first})
        apt.set_global_config({o.names["constant"]: second, "unrelated": 3})
        for k, v in want.items():
            if v is None:
                m.raises(Exception, lambda: o.build(k), "a replaced dictionary still counts", first=first, second=second, llh=k)
            else:
                _judge(m, o.values(o.build(k), m.key(), 3), v, "replaced configuration", first=first, second=second, llh=k)
    # falsy values are values
    apt.clear_cache()
    apt.set_global_config({o.names["constant"]: 0.0})
    _judge(m, o.values(o.build("B"), m.key(), 3), 0.0, "configured zero")
    apt.clear_cache()
    apt.set_global_config({o.names["constant"]: {"A": 0.0, "B": 2.0}})
    _judge(m, o.values(o.build("A"), m.key(), 4), 0.0, "configured zero of a likelihood")
    z = Options("z", default=0.0, only=("constant",))
    _judge(m, z.values(z.build("A"), m.key(), 3), 0.0, "default zero")
    # a dictionary is no default
    m.raises(Exception, lambda: Constant(name="x", default={"A": 1}), "dictionary as default")
    m.seen("setting", 1)


@case(repeat=(1, 3))
def contexts(m):
    """The configuration in the instructions of a context, per likelihood, in all of its components."""
    rng = m.rng()
    o = Options("ctx", default=1.0, only=("constant",))
    plugs = toys.band_plugins(jit=False)

    def mu(self, key, parameters, t_energy):
        key, s = apt.randgen.normal(key, t_energy * 3.0, 1.0)
        return key, s * 0 + self.ctx_constant.value

    plugs[1] = toys.plugin("CtxObs1", ["t_energy"], ["cs1"], mu, configs=[Constant(name="ctx_constant", default=20.0)])
    toys.component_cls("CtxComp", plugs)
    ins = toys.toy_instruct(rng, {"one": "CtxComp", "two": "CtxComp"}, par_config={**toys.band_par_config()})
    llh = ins["likelihoods"].pop("toy_llh")
    ins["likelihoods"] = {"A": llh, "B": copy.deepcopy(llh)}
    ins["configs"] = {"ctx_constant": {"A": 7.0, "B": 11.0}}
    saved = copy.deepcopy(ins)
    with_default = copy.deepcopy(ins)
    par = {"t_mu": 3.0, "t_sig": 1.0, "t_eff": 0.9, "rate": 10.0, "one_rate": 10.0, "two_rate": 10.0}
    tree = Context(ins)
    m.check(ins == saved, "the instructions are modified")
    for k, v in (("A", 7.0), ("B", 11.0)):
        for name, c in tree[k].components.items():
            _, data = c.simulate(m.key(), 5, par)
            m.close(np.asarray(data[0]), np.full(5, v), "configuration of a likelihood of a context", llh=k, component=name)
            m.count("values observed")
            m.seen("context", (k, name))
    apt.clear_cache()
    del with_default["configs"]
    tree2 = Context(with_default)
    _, data = tree2["A"].components["one"].simulate(m.key(), 5, par)
    m.close(np.asarray(data[0]), np.full(5, 20.0), "default in a context")
    _, data = tree["B"].components["two"].simulate(m.key(), 6, par)
    m.close(np.asarray(data[0]), np.full(6, 11.0), "earlier context after another one is built")
    apt.clear_cache()
    with_default["configs"] = {"ctx_constant": {"A": 7.0}}
    m.raises(Exception, lambda: Context(with_default), "missing likelihood entry of a context")
    assert o
