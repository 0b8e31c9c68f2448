"""C31: inconsistently declared plugins are rejected."""

import itertools
import warnings

import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree.component import ComponentSim
from appletree.config import takes_config
from appletree.plugin import Plugin
from lib import toys
from lib.vh import case

PROPERTY = "C31"
RULE = (
    "declarations of plugins: consistent ones and every kind of single fault (argument missing, extra, renamed, swapped, misplaced key or "
    "parameters, nothing declared, option declared twice, by a parent, with other defaults), jitted or not, built alone, by a component and by a "
    "context, registered in every order; distinct by (fault, place, order)"
)
TECHNIQUE = "runtime monitoring: every declaration is built by the real code, faults have to be refused and consistent ones to simulate"

NAMES = ["alpha", "beta", "gamma_e", "n_ph", "s1_raw", "x", "y", "z", "t_drift", "q"]
BUILD_ERRORS = (ValueError, RuntimeError, IndexError, TypeError, KeyError, AssertionError)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def make(name, depends_on, provides, args, jit=False, base=Plugin, configs=(), parameters=(), extra="", shape=None):
    """A plugin whose simulation takes the arguments (declared or not)."""
    env = {"jnp": jnp}
    tail = (", " + extra) if extra else ""
    src = f"def simulate({', '.join(['self'] + list(args))}{tail}):\n"
    first = next((a for a in args if a not in ("key", "parameters")), None)
    val = "jnp.ones(7)" if first is None else (f"jnp.ones({first})" if first == "batch_size" else f"({first} + 1.0)")
    outs = [f"{val} * {i + 1}.0" for i in range(max(1, len(provides) if isinstance(provides, (list, tuple)) else 1))]
    key = "key" if "key" in args else args[0] if args else "None"
    src += f"    return {key}, {', '.join(outs)}\n"
    exec(src, env)
    f = env["simulate"]
    if jit:
        import functools
        import jax

        static = tuple([0] + [1 + i for i, a in enumerate(args) if a == "batch_size"])
        f = functools.partial(jax.jit, static_argnums=static)(f)
    cls = type(name, (base,), {"depends_on": depends_on, "provides": provides, "parameters": tuple(parameters), "simulate": f, "__module__": "verif_toys"})
    if configs:
        cls = takes_config(*configs)(cls)
    return cls


def ways(cls, out, feeders=()):
    """Every way to build a plugin: alone, in a component."""

    def alone():
        cls("toy_llh")

    def component():
        for c in (cls,) + tuple(feeders):
            toys._set(apt.plugins, c.__name__, c)
        apt.clear_cache()
        toys.build([cls] + list(feeders), out, llh_name="toy_llh", name="toy")

    return [("alone", alone), ("component", component)]


def feeder(names):
    """A consistent plugin providing the names."""
    return make("ToySource", ["batch_size"], list(names), ["key", "parameters", "batch_size"])


@case(repeat=(2, 10))
def accepted(m):
    """Consistent declarations are accepted and simulate."""
    rng = m.rng()
    for j in range(m.pick(8, 16)):
        n = int(rng.integers(1, 6))
        names = [str(s) for s in rng.choice(NAMES, n, replace=False)]
        n_out = int(rng.integers(1, 4))
        outs = [f"out{i}" for i in range(n_out)]
        seq = [list, tuple][j % 2]
        jit = bool(rng.integers(2))
        style = int(rng.integers(5))
        extra = ["", "option=1.0", "", "*rest", "*, scale=2.0"][style] if not jit else ["", "option=1.0"][style % 2]
        cls = make("ToyGood", seq(names), seq(outs), ["key", "parameters"] + names, jit=jit, extra=extra)
        inst = quiet(lambda: cls("toy_llh"))
        _, *got = inst(m.key(), {}, *[jnp.full(5, float(i)) for i in range(n)])
        m.check(len(got) == n_out and float(got[0][0]) == 1.0, "a consistent plugin simulates", depends=names)
        for c in (cls, feeder(names)):
            toys._set(apt.plugins, c.__name__, c)
        apt.clear_cache()
        comp = quiet(lambda: toys.build([cls, feeder(names)], outs[:1] + ["eff"] if "eff" in outs else outs, force_no_eff=True))
        _, res = comp.simulate(m.key(), 11, {})
        m.check(len(res) == n_out and np.allclose(res[0], 2.0), "a component of consistent plugins simulates", depends=names, jit=jit, extra=extra)
        m.seen("accepted", (n, n_out, jit, extra))
    # one output given by its name
    cls = make("ToyOne", ["batch_size"], "cs1", ["key", "parameters", "batch_size"])
    toys._set(apt.plugins, "ToyOne", cls)
    apt.clear_cache()
    comp = quiet(lambda: toys.build([cls], ["cs1"], force_no_eff=True))
    _, res = comp.simulate(m.key(), 9, {})
    m.check(np.allclose(res[0], 1.0) and len(res) == 1, "provides can be one name")
    m.seen("accepted", "one name")


def faults(rng, names):
    """(fault, arguments) of inconsistent simulations."""
    good = ["key", "parameters"] + names
    n = len(names)
    i = int(rng.integers(n))
    yield "renamed", [a if a != names[i] else a + "_" for a in good]
    yield "renamed last", good[:-1] + ["else_"]
    yield "renamed first", good[:2] + ["else_"] + good[3:]
    yield "missing last", good[:-1]
    yield "missing", [a for a in good if a != names[i]]
    yield "extra last", good + ["more"]
    yield "extra first", good[:2] + ["more"] + good[2:]
    if n > 1:
        a, b = rng.choice(n, 2, replace=False)
        w = list(names)
        w[a], w[b] = w[b], w[a]
        yield "swapped", ["key", "parameters"] + w
        w = list(names)
        w[-1], w[-2] = w[-2], w[-1]
        yield "swapped last", ["key", "parameters"] + w
        yield "rotated", ["key", "parameters"] + names[1:] + names[:1]
    yield "swapped key", ["parameters", "key"] + names
    yield "no key", ["parameters"] + names
    yield "no parameters", ["key"] + names
    yield "renamed key", ["rng", "parameters"] + names
    yield "renamed parameters", ["key", "pars"] + names
    yield "misplaced parameters", ["key"] + names[:1] + ["parameters"] + names[1:]
    yield "misplaced key", ["parameters"] + names + ["key"]
    yield "case", ["key", "parameters"] + [names[0].upper()] + names[1:]
    yield "nothing", []


@case(repeat=(2, 12))
def arguments(m):
    """Simulations which do not take what is declared."""
    rng = m.rng()
    for n in range(1, 6):
        names = [str(s) for s in rng.choice(NAMES, n, replace=False)]
        for fault, args in faults(rng, names):
            for jit in (False, True):
                if jit and (fault == "nothing" or rng.random() < 0.5):
                    continue
                cls = make("ToyBad", list(names), ["cs1"], args, jit=jit)
                for where, build in ways(cls, ["cs1"], [feeder(names)]):
                    m.raises(BUILD_ERRORS, lambda b=build: quiet(b), f"inconsistent arguments are refused ({fault}, {where})", args=args, depends=names, jit=jit)
                    m.seen("refused", (fault, where, n, jit))
        # the same names declared in another order or number
        if n > 1:
            cls = make("ToyBad", names[::-1], ["cs1"], ["key", "parameters"] + names)
            for where, build in ways(cls, ["cs1"], [feeder(names)]):
                m.raises(BUILD_ERRORS, lambda b=build: quiet(b), "dependencies in another order", where=where)
        cls = make("ToyBad", names + [names[0]], ["cs1"], ["key", "parameters"] + names)
        for where, build in ways(cls, ["cs1"], [feeder(names)]):
            m.raises(BUILD_ERRORS, lambda b=build: quiet(b), "dependency twice", where=where)
    # a subclass which only changes its dependencies
    base = make("ToyBase", ["x", "y"], ["cs1"], ["key", "parameters", "x", "y"])
    sub = type("ToySub", (base,), {"depends_on": ["x", "z"]})
    m.raises(BUILD_ERRORS, lambda: sub("toy_llh"), "inherited simulation does not match")
    sub = type("ToySub", (base,), {"provides": ["cs2"]})
    sub("toy_llh")
    m.seen("refused", "subclass")


@case(repeat=(1, 4))
def nothing_declared(m):
    """Plugins without dependencies or outputs."""
    for dep, prov, missing in (
        ([], ["cs1"], "depends_on"), ((), ["cs1"], "depends_on"), (None, ["cs1"], "depends_on"), ("", ["cs1"], "depends_on"),
        (["batch_size"], [], "provides"), (["batch_size"], (), "provides"), (["batch_size"], "", "provides"), ([], [], "both"),
    ):
        args = ["key", "parameters"] + list(dep or [])
        cls = make("ToyBad", dep, prov, args)
        m.raises(BUILD_ERRORS, lambda: cls("toy_llh"), "nothing declared", depends=dep, provides=prov)
        m.raises(BUILD_ERRORS, lambda: cls(), "nothing declared, without likelihood", depends=dep, provides=prov)
        m.seen("nothing", (repr(dep), repr(prov)))
    # not declared at all: the ones of the base are empty
    for attrs in ({"provides": ["cs1"]}, {"depends_on": ["batch_size"]}, {}):
        def simulate(self, key, parameters, batch_size):
            return key, jnp.ones(batch_size)

        cls = type("ToyBad", (Plugin,), {"simulate": simulate, **attrs})
        m.raises(BUILD_ERRORS, lambda: cls("toy_llh"), "not declared", attrs=sorted(attrs))
        if "provides" in attrs:
            toys._set(apt.plugins, "ToyBad", cls)
            apt.clear_cache()
            m.raises(BUILD_ERRORS, lambda: quiet(lambda: toys.build([cls], ["cs1"], force_no_eff=True)), "not declared, in a component")
        m.seen("nothing", tuple(sorted(attrs)))
    m.raises(BUILD_ERRORS, lambda: Plugin("toy_llh"), "the base is not a plugin")


def options(rng):
    """Pairs of configs of the same option: (kind, make(default), default a, default b, same as a)."""
    f = [toys.point_map([1, 2, 3], rng.uniform(0, 1, 3)) for _ in range(6)]
    out = [
        ("constant", lambda d: toys.Constant(name="opt", type=float, default=d), 1.0, 2.0),
        ("constant close", lambda d: toys.Constant(name="opt", type=float, default=d), 1.0, 1.0 + 1e-9),
        ("constant zero", lambda d: toys.Constant(name="opt", type=float, default=d), 0.0, 3.0),
        ("constant sign", lambda d: toys.Constant(name="opt", type=float, default=d), -1.0, 1.0),
        ("map", lambda d: toys.Map(name="opt", default=d), f[0], f[1]),
        ("sigma", lambda d: toys.SigmaMap(name="opt", default=d), f[:3], f[:2] + [f[4]]),
        ("sigma order", lambda d: toys.SigmaMap(name="opt", default=d), f[:3], [f[0], f[2], f[1]]),
        ("set", lambda d: toys.ConstantSet(name="opt", default=d), [["mu", "sigma"], [[1.0, 2.0], [3.0, 4.0]]], [["mu", "sigma"], [[1.0, 2.0], [3.0, 5.0]]]),
    ]
    return out


def two_plugins(cfg_a, cfg_b, extra_a=(), extra_b=()):
    p = toys.band_plugins(jit=False)
    body = [x.simulate.__globals__["_body"] for x in p]
    a = toys.plugin("ToyObs1", ["t_energy"], ["cs1"], body[1], p[1].parameters, configs=list(extra_a) + [cfg_a])
    b = toys.plugin("ToyObs2", ["t_energy"], ["cs2"], body[2], p[2].parameters, configs=[cfg_b] + list(extra_b))
    return p[0], a, b, p[3]


@case(repeat=(1, 8))
def defaults(m):
    """Two plugins of a component with different defaults of an option."""
    from copy import deepcopy

    rng = m.rng()
    for kind, cfg, da, db in options(rng):
        for with_others in (False, True):
            other = lambda i: [toys.Constant(name=f"other{i}_{k}", type=float, default=float(k)) for k in range(2)] if with_others else []  # noqa
            orders = list(itertools.permutations(range(4)))
            if m.quick:
                orders = [orders[i] for i in rng.choice(len(orders), 8, replace=False)] + [(0, 1, 2, 3), (3, 2, 1, 0), (2, 1, 0, 3)]
            bad = two_plugins(cfg(da), cfg(db), other(1), other(2))
            good = two_plugins(cfg(da), cfg(deepcopy(da)), other(1), other(2))
            for order in orders:
                for nested in (False, True):
                    def register(plugins):
                        cls = type("ToyComp", (ComponentSim,), {"norm_type": "on_pdf", "add_eps_to_hist": False})
                        c = cls(name="toy", llh_name="toy_llh")
                        lst = [plugins[i] for i in order]
                        if nested:
                            c.register(lst[:2])
                            c.register(tuple(lst[2:]))
                        else:
                            for x in lst:
                                c.register(x)
                        return c

                    def build(plugins):
                        c = register(plugins)
                        apt.clear_cache()
                        c.deduce(data_names=["cs1", "cs2", "eff"])
                        c.compile()
                        return c

                    m.raises(BUILD_ERRORS, lambda: quiet(lambda: build(bad)), "different defaults", kind=kind, order=order, nested=nested)
                    c = quiet(lambda: register(good))
                    m.check(set(c._plugin_class_registry) == {"t_energy", "cs1", "cs2", "eff"}, "same defaults are accepted", kind=kind, order=order)
                    m.seen("order", (kind, order, nested, with_others))
            quiet(lambda: build(good))
    m.count("orders", len(orders))


@case(repeat=(1, 4))
def many_plugins(m):
    """The two plugins are far from each other, in a module, or bring several outputs."""
    rng = m.rng()

    def chain(n, clash):
        """Plugins p0 to pn, every one with an option of its own, two of them with the same one."""
        out = []
        for i in range(n):
            cfgs = [toys.Constant(name=f"own{i}", type=float, default=float(i))]
            if i in clash:
                cfgs.insert(int(rng.integers(2)), toys.Constant(name="shared", type=float, default=clash[i]))
            dep = "batch_size" if i == 0 else f"v{i - 1}"
            prov = [f"v{i}"] + ([f"w{i}"] if rng.random() < 0.5 else [])
            out.append(make(f"ToyChain{i}", [dep], prov, ["key", "parameters", dep], configs=cfgs))
        return out

    for j in range(m.pick(12, 40)):
        n = int(rng.integers(3, 9))
        a, b = rng.choice(n, 2, replace=False)
        bad = rng.random() < 0.7
        plugins = chain(n, {int(a): 1.0, int(b): 2.0 if bad else 1.0})
        order = rng.permutation(n)

        def build(by_module):
            apt.clear_cache()
            for p in plugins:
                toys._set(apt.plugins, p.__name__, p)
            if by_module:
                import types

                mods = [types.ModuleType("toys_a"), types.ModuleType("toys_b")]
                for i, k in enumerate(order):
                    setattr(mods[i % 2], plugins[k].__name__, plugins[k])
                c = type("ToyComp", (ComponentSim,), {"norm_type": "on_pdf", "add_eps_to_hist": False})(name="toy", llh_name="toy_llh")
                c.register_all(mods)
                c.deduce(data_names=[f"v{n - 1}"], force_no_eff=True)
                c.compile()
                return c
            return toys.build([plugins[k] for k in order], [f"v{n - 1}"], force_no_eff=True)

        for by_module in (False, True):
            if bad:
                m.raises(BUILD_ERRORS, lambda: quiet(lambda: build(by_module)), "different defaults", n=n, pair=(int(a), int(b)), order=order, module=by_module)
            else:
                c = quiet(lambda: build(by_module))
                _, res = c.simulate(m.key(), 5, {})
                m.check(np.allclose(res[0], float(n)), "same defaults are accepted and simulate", got=np.asarray(res[0]), n=n)
            m.seen("chain", (n, bad, by_module, tuple(order)))


@case(repeat=(1, 4))
def redeclared(m):
    """An option declared again: by a subclass, a second decorator or the same one."""
    rng = m.rng()
    f = toys.point_map([1, 2, 3], rng.uniform(0, 1, 3))
    const = lambda d: toys.Constant(name="opt", type=float, default=d)  # noqa
    kinds = {
        "same": (const(1.0), const(1.0)), "other default": (const(1.0), const(2.0)), "other kind": (const(1.0), toys.Map(name="opt", default=f)),
        "map": (toys.Map(name="opt", default=f), toys.Map(name="opt", default=f)),
        "set": (toys.ConstantSet(name="opt", default=[["mu"], [[1.0]]]), const(1.0)),
    }
    others = [toys.Constant(name=f"o{k}", type=float, default=1.0) for k in range(3)]

    def first(c, more=()):
        return make("ToyParent", ["batch_size"], ["cs1"], ["key", "parameters", "batch_size"], configs=[c] + list(more))

    def child(parent, configs):
        cls = type("ToyChild", (parent,), {"__module__": "verif_toys"})
        return takes_config(*configs)(cls)

    for kind, (a, b) in kinds.items():
        for more in ([], others[:1], others[:2]):
            def by_child():
                child(first(a, more), [others[2], b])("toy_llh")

            def by_child_first():
                child(first(a, more), [b, others[2]])("toy_llh")

            def by_grandchild():
                child(child(first(a, more), [others[2]]), [b])("toy_llh")

            def by_decorator():
                takes_config(b)(first(a, more))("toy_llh")

            def at_once():
                make("ToyTwice", ["batch_size"], ["cs1"], ["key", "parameters", "batch_size"], configs=[a] + more + [b])("toy_llh")

            for name, f_ in (("child", by_child), ("child first", by_child_first), ("grandchild", by_grandchild), ("decorator", by_decorator), ("at once", at_once)):
                m.raises(BUILD_ERRORS, lambda f_=f_: quiet(f_), f"option declared twice ({name})", kind=kind, more=len(more))
                m.seen("redeclared", (kind, name, len(more)))
    # options of their own are kept together with the ones of the parent, and parents are left as they were
    parent = first(const(3.0), others[:1])
    sub = child(parent, [others[1], others[2]])
    inst, base = quiet(lambda: sub("toy_llh")), quiet(lambda: parent("toy_llh"))
    m.check(float(inst.opt.value) == 3.0 and all(hasattr(inst, f"o{k}") for k in range(3)), "options of parent and child")
    m.check(hasattr(base, "o0") and not hasattr(base, "o1"), "the parent is left as it was")
    sibling = child(parent, [others[1]])
    m.check(set(sibling.takes_config) == {"opt", "o0", "o1"} and set(parent.takes_config) == {"opt", "o0"}, "siblings", got=sorted(sibling.takes_config))
    # only configs are options
    for bad in ("opt", 1.0, None, float):
        m.raises(BUILD_ERRORS, lambda: takes_config(bad)(first(const(1.0))), "only configs", bad=bad)


@case(repeat=(1, 2))
def contexts(m):
    """A context refuses models with inconsistent plugins, and accepts the repaired one."""
    rng = m.rng()

    def build(kind):
        apt.clear_cache()
        p = toys.band_plugins(jit=False)
        body = [x.simulate.__globals__["_body"] for x in p]
        cfg = [toys.Constant(name="opt", type=float, default=1.0), toys.Constant(name="opt", type=float, default=1.0 if kind != "defaults" else 2.0)]
        p[1] = toys.plugin("ToyObs1", ["t_energy"], ["cs1"], body[1], p[1].parameters, configs=cfg[:1])
        p[2] = toys.plugin("ToyObs2", ["t_energy"], ["cs2"], body[2], p[2].parameters, configs=cfg[1:])
        if kind == "order":
            p[3] = make("ToyEff", ["cs2", "cs1"], ["eff"], ["key", "parameters", "cs1", "cs2"])
        if kind == "name":
            p[3] = make("ToyEff", ["cs1"], ["eff"], ["key", "parameters", "s1"])
        if kind == "nothing":
            p[0] = make("ToyEnergy", [], ["t_energy"], ["key", "parameters"])
        for x in p:
            toys._set(apt.plugins, x.__name__, x)
        toys.component_cls("ToyBand", p if rng.random() < 0.5 else p[::-1])
        c = apt.Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l0"))
        c.par_manager.sample_init()
        return c.get_num_events_accepted(c.par_manager.get_all_parameter(), batch_size=100)

    for kind in ("defaults", "order", "name", "nothing"):
        m.raises(BUILD_ERRORS, lambda: quiet(lambda: build(kind)), "a context with an inconsistent plugin", kind=kind)
        m.seen("context", kind)
    n = quiet(lambda: build("good"))
    m.check(np.isfinite(n) and n >= 0, "the repaired context works", n=n)


@case(repeat=(1, 1))
def shipped(m):
    """Every shipped plugin is consistent."""
    from lib import shipped as sh

    classes = sh.all_plugins()
    for cls in classes.values() if isinstance(classes, dict) else classes:
        apt.clear_cache()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                inst = cls("toy_llh")
            except Exception as e:  # noqa
                m.check(False, "a shipped plugin is accepted", plugin=cls.__name__, error=repr(e))
        m.check(callable(inst.simulate), "a shipped plugin is accepted", plugin=cls.__name__)
        m.seen("shipped", cls.__name__)
