"""C28: extensions never silently replace existing plugins or components."""

import importlib
import os
import sys
import textwrap
import types
import warnings

import numpy as np

import appletree as apt
import appletree.components as components
from appletree.component import ComponentFixed, ComponentSim
from lib import toys
from lib.vh import case

PROPERTY = "C28"
RULE = (
    "extension modules written to disk and imported: flat and dotted names, colliding by class, by module, by both, or not, with bases, "
    "imports and other content; added once, twice, forced, to the shipped and to user modules, in sequences; distinct by (content, collision, force)"
)
TECHNIQUE = "runtime monitoring: attributes of the modules before and after against a model, and simulations of the models built with them"

_n = [0]


def pkg():
    """A new folder on the path."""
    d = toys.scratch()
    sys.path.insert(0, d)
    return d


def write(d, name, source):
    """A module of the (dotted) name, imported."""
    parts = name.split(".")
    path = d
    for p in parts[:-1]:
        path = os.path.join(path, p)
        os.makedirs(path, exist_ok=True)
        f = os.path.join(path, "__init__.py")
        if not os.path.exists(f):
            open(f, "w").close()
    with open(os.path.join(path, parts[-1] + ".py"), "w") as f:
        f.write(textwrap.dedent(source))
    importlib.invalidate_caches()
    for i in range(1, len(parts) + 1):
        sys.modules.pop(".".join(parts[:i]), None)
    return importlib.import_module(name)


def forget(d, names):
    if d in sys.path:
        sys.path.remove(d)
    for n in names:
        for i in range(1, len(n.split(".")) + 1):
            sys.modules.pop(".".join(n.split(".")[:i]), None)


HEAD = """
import numpy
import jax.numpy as jnp
from appletree.plugin import Plugin
from appletree.component import Component, ComponentSim, ComponentFixed
from appletree.config import Constant, takes_config
import appletree
"""


def plugin_src(name, value=1.0, base="Plugin", out="cs1", is_base=False):
    return f"""
class {name}({base}):
    {"__is_base = True" if is_base else "pass"}
    depends_on = ["batch_size"]
    provides = ["{out}"]
    parameters = ()

    def simulate(self, key, parameters, batch_size):
        return key, jnp.full(batch_size, {float(value)})
"""


def component_src(name, base="ComponentSim", is_base=False):
    return f"""
class {name}({base}):
    {"__is_base = True" if is_base else "pass"}
    norm_type = "on_pdf"
    value = "{name}"
"""


def snapshot(module):
    return {k: v for k, v in vars(module).items()}


def same_objects(m, before, after, allow, msg, **data):
    """Nothing but the allowed names was changed."""
    for k, v in before.items():
        if k in allow:
            continue
        m.check(k in after and after[k] is v, msg, name=k, **data)
    extra = {k for k in after if k not in before and not k.startswith("__")} - set(allow)
    m.check(not extra, "nothing else was added", extra=sorted(extra), **data)


class Target:
    """A module to extend, put back as it was."""

    def __init__(self, module):
        self.module = module

    def __enter__(self):
        self.before = snapshot(self.module)
        return self.module

    def __exit__(self, *a):
        for k in list(vars(self.module)):
            if k not in self.before:
                delattr(self.module, k)
        for k, v in self.before.items():
            if vars(self.module).get(k) is not v:
                setattr(self.module, k, v)


def targets(rng):
    user = types.ModuleType("user_" + str(int(rng.integers(1e6))))
    user.Existing = type("Existing", (apt.Plugin,), {})
    user.number = 3
    return [apt.plugins, user]


def add(kind, target, ext, **kw):
    f = {"plugin": apt.add_plugin_extensions, "component": apt.add_component_extensions}[kind]
    return f(target, ext, **kw)


def names_of(rng, n, prefix):
    _n[0] += 1
    return [f"{prefix}{_n[0]}_{i}" for i in range(n)]


def content(rng, kind, n, value=1.0):
    """Source with n classes, bases, private bases, subclasses, other things; returns expected names and bases."""
    src, expect, skipped = HEAD, [], []
    P = "ToyExt" if kind == "plugin" else "ToyComp"
    make = plugin_src if kind == "plugin" else component_src
    names = names_of(rng, n, P)
    root = {"plugin": ["Plugin"], "component": ["ComponentSim", "ComponentFixed", "Component"]}[kind]
    bases = list(root)
    for i, nm in enumerate(names):
        b = str(rng.choice(bases))
        private = rng.random() < 0.25
        is_base = rng.random() < 0.3
        if is_base and private:
            nm = "_" + nm
        kw = {"value": value + i} if kind == "plugin" else {}
        src += make(nm, base=b, is_base=is_base, **kw)
        (skipped if is_base else expect).append(nm)
        bases.append(nm)
    other = "ToyOther" + names[0]
    src += (component_src if kind == "plugin" else plugin_src)(other, base="ComponentSim" if kind == "plugin" else "Plugin")
    src += f"\nclass Helper{names[0]}:\n    pass\n\n\ndef simulate_{names[0]}():\n    return 1\n\n\nCONST_{names[0]} = 5\n"
    src += f"an_instance_{names[0]} = Helper{names[0]}()\n"
    skipped += [other, "Helper" + names[0], "simulate_" + names[0], "CONST_" + names[0], "an_instance_" + names[0]]
    return src, expect, skipped


MODULE_NAMES = ["ext{}", "my_ext{}.plugins_v2", "a{}.b.c{}", "pkg{}.er_ext"]


def module_name(rng):
    _n[0] += 1
    return MODULE_NAMES[int(rng.integers(len(MODULE_NAMES)))].format(_n[0], _n[0])


def target_of(kind, rng):
    if rng.random() < 0.6:
        return apt.plugins if kind == "plugin" else components
    t = types.ModuleType("user_target")
    t.Existing = type("Existing", (apt.Plugin if kind == "plugin" else ComponentSim,), {})
    t.number = 3
    return t


@case(repeat=(2, 15))
def new_extensions(m):
    """Extensions without collisions."""
    rng = m.rng()
    for kind in ("plugin", "component"):
        for _ in range(m.pick(6, 12)):
            d = pkg()
            name = module_name(rng)
            src, expect, skipped = content(rng, kind, int(rng.integers(1, 6)))
            ext = write(d, name, src)
            with Target(target_of(kind, rng)) as t:
                before, inside = snapshot(t), snapshot(ext)
                kw = [{}, {"force": False}, {"force": True}][int(rng.integers(3))]
                add(kind, t, ext, **kw)
                for n in expect:
                    m.check(getattr(t, n, None) is getattr(ext, n), "every class of the extension is available", name=n, module=name, kind=kind)
                for n in skipped:
                    m.check(not hasattr(t, n), "base classes and other things are not", name=n, module=name, kind=kind)
                base = name.split(".")[-1]
                m.check(getattr(t, base, None) is ext, "the extension is available", module=name)
                same_objects(m, before, snapshot(t), set(expect) | {base}, "nothing else is changed", module=name, force=kw)
                m.check(snapshot(ext) == inside, "the extension is not changed")
                m.seen("new", (kind, len(expect), len(skipped), name.count("."), t is apt.plugins or t is components, repr(kw)))
                m.count("classes", len(expect))
            forget(d, [name])


def existing_name(kind, rng, t):
    """The name of something already in the module."""
    cls = [k for k, v in vars(t).items() if isinstance(v, type) and issubclass(v, (apt.Plugin, apt.component.Component))
           and not vars(v).get(f"_{k}__is_base", False)]
    other = [k for k in vars(t) if not k.startswith("__") and k not in cls and k.isidentifier()
             and not (isinstance(vars(t)[k], type))]
    return str(rng.choice(cls)) if rng.random() < 0.75 or not other else str(rng.choice(other))


@case(repeat=(2, 15))
def collisions(m):
    """A name already taken: refused without force, replaced with it."""
    rng = m.rng()
    for kind in ("plugin", "component"):
        make = plugin_src if kind == "plugin" else component_src
        root = "Plugin" if kind == "plugin" else "ComponentSim"
        for _ in range(m.pick(8, 16)):
            d = pkg()
            t0 = target_of(kind, rng)
            with Target(t0) as t:
                src, expect, _ = content(rng, kind, int(rng.integers(0, 4)) + 1)
                taken = existing_name(kind, rng, t)
                by = str(rng.choice(["class", "subclass", "module", "dotted module"]))
                name = module_name(rng)
                if by == "class":
                    src += make(taken, base=root)
                elif by == "subclass":
                    # an own class with the name of the one it is made from
                    old = vars(t)[taken]
                    if not (isinstance(old, type) and issubclass(old, apt.Plugin if kind == "plugin" else ComponentSim)) or t is not (apt.plugins if kind == "plugin" else components):
                        src += make(taken, base=root)
                    else:
                        src += f"\nimport {t.__name__} as _target\n" + make(taken, base=f"_target.{taken}")
                elif by == "module":
                    name = taken
                else:
                    name = f"pkg{_n[0]}.sub.{taken}"
                if by.endswith("module") and name.split(".")[0] in sys.modules:
                    name = f"pkg{_n[0]}.{taken}"
                ext = write(d, name, src)
                base = name.split(".")[-1]
                before = snapshot(t)
                old = getattr(t, taken)
                kw = {} if rng.random() < 0.5 else {"force": False}
                m.raises(ValueError, lambda: add(kind, t, ext, **kw), "a name already taken is refused", taken=taken, by=by, kind=kind, module=name)
                m.check(getattr(t, taken) is old, "the existing one is left in place", taken=taken, by=by)
                same_objects(m, before, snapshot(t), set(n for n in expect + [base] if n not in before), "nothing existing is changed", by=by)
                m.seen("refused", (kind, taken, by))
                # again, and from the start: still refused
                m.raises(ValueError, lambda: add(kind, t, ext), "still refused", taken=taken, by=by)
                m.check(getattr(t, taken) is old, "the existing one is left in place", taken=taken, by=by)
                add(kind, t, ext, force=True)
                new = ext if by.endswith("module") else getattr(ext, taken)
                m.check(getattr(t, taken) is new and new is not old, "forcing replaces it", taken=taken, by=by)
                for n in expect:
                    m.check(getattr(t, n, None) is getattr(ext, n), "and adds the others", name=n)
                same_objects(m, before, snapshot(t), set(expect) | {base, taken}, "nothing else is changed", by=by)
                m.seen("forced", (kind, taken, by))
            forget(d, [name])


@case(repeat=(1, 8))
def single(m):
    """Classes added one by one."""
    rng = m.rng()
    for kind in ("plugin", "component"):
        one = apt.plugin._add_plugin_extension if kind == "plugin" else apt.component._add_component_extension
        root = apt.Plugin if kind == "plugin" else ComponentSim
        with Target(target_of(kind, rng)) as t:
            model = snapshot(t)
            pool = names_of(rng, 3, "ToySingle") + [n for n in vars(t) if isinstance(vars(t)[n], type) and not getattr(vars(t)[n], f"_{n}__is_base", False)][:3]
            for _ in range(m.pick(30, 80)):
                n = str(rng.choice(pool))
                what = rng.random()
                cls = type(n, (root,), {"__module__": "verif_toys"})
                if what < 0.15:
                    setattr(cls, f"_{n}__is_base", True)
                if what > 0.9:
                    cls = type(n, (), {})
                force = bool(rng.random() < 0.35)
                if what < 0.15 or what > 0.9:
                    one(t, cls, force=force)
                elif n in model and not force:
                    m.raises(ValueError, lambda: one(t, cls, **({} if rng.random() < 0.5 else {"force": False})), "taken", name=n)
                else:
                    one(t, cls, force=force)
                    model[n] = cls
                now = snapshot(t)
                m.check(set(now) == set(model) and all(now[k] is model[k] for k in now), "only what was asked is changed", name=n, force=force)
                m.seen("single", (kind, n in model, force, what < 0.15, what > 0.9))
            for b in ([apt.Plugin] if kind == "plugin" else [apt.component.Component, ComponentSim, ComponentFixed]):
                one(t, b), one(t, b, force=True)
                now = snapshot(t)
                m.check(set(now) == set(model) and all(now[k] is model[k] for k in now), "bases are skipped", base=b.__name__)


@case(repeat=(1, 6))
def histories(m):
    """Sequences of extensions against a model of the module."""
    rng = m.rng()
    for kind in ("plugin", "component"):
        make = plugin_src if kind == "plugin" else component_src
        root = "Plugin" if kind == "plugin" else "ComponentSim"
        d, written = pkg(), []
        with Target(apt.plugins if kind == "plugin" else components) as t:
            pool = names_of(rng, 5, "ToyHist")
            mods = [f"hist{_n[0]}", f"hist{_n[0]}x", f"p{_n[0]}.hist{_n[0]}", f"q{_n[0]}.r.hist{_n[0]}x", f"p{_n[0]}.{pool[0]}"]
            model = snapshot(t)
            for step in range(m.pick(15, 40)):
                name = str(rng.choice(mods))
                cls = [str(c) for c in rng.choice(pool, int(rng.integers(0, 4)), replace=False) if c != name.split(".")[-1]]
                ext = write(d, name, HEAD + "".join(make(c, base=root) for c in cls))
                written.append(name)
                force = bool(rng.random() < 0.4)
                base = name.split(".")[-1]
                clash = base in model or any(c in model for c in cls)
                if clash and not force:
                    m.raises(ValueError, lambda: add(kind, t, ext), "taken", module=name, classes=cls)
                    now = snapshot(t)
                    for k, v in model.items():
                        m.check(now.get(k) is v, "existing ones are left in place", name=k, module=name, classes=cls)
                    # what was not taken may or may not be there
                    for k in set(now) - set(model):
                        m.check(k == base or k in cls, "nothing else", name=k)
                    model = now
                else:
                    add(kind, t, ext, force=force)
                    model[base] = ext
                    for c in cls:
                        model[c] = getattr(ext, c)
                    now = snapshot(t)
                    m.check(set(now) == set(model), "names", got=sorted(set(now) ^ set(model)))
                    for k in now:
                        m.check(now[k] is model[k], "objects", name=k, module=name, classes=cls)
                    model = now
                m.seen("history", (kind, clash, force, len(cls)))
        forget(d, written)


def simulated(comp, m, n=7):
    _, res = comp.simulate(m.key(), n, {})
    return float(np.asarray(res[0])[0])


@case(repeat=(1, 4))
def models(m):
    """Models built before, after a refused and after a forced extension."""
    rng = m.rng()
    d, written = pkg(), []
    with Target(apt.plugins) as t:
        apt.clear_cache()
        n1, n2 = names_of(rng, 2, "ToyModel")
        e1 = write(d, f"first{_n[0]}", HEAD + plugin_src(n1, 1.0))
        e2 = write(d, f"sub{_n[0]}.second", HEAD + plugin_src(n1, 2.0))
        e3 = write(d, f"sub{_n[0]}.third", HEAD + plugin_src(n2, 3.0, out="cs2"))
        written += [e.__name__ for e in (e1, e2, e3)]

        def build(name, *cls, out=("cs1",)):
            c = type("ToyComp", (ComponentSim,), {"norm_type": "on_pdf", "add_eps_to_hist": False})(name=name, llh_name="toy_llh")
            c.register(list(cls))
            c.deduce(data_names=list(out), func_name=f"simulate_{name}", force_no_eff=True)
            c.compile()
            return c

        apt.add_plugin_extensions(apt.plugins, e1)
        old = build("old", getattr(apt.plugins, n1))
        m.check(simulated(old, m) == 1.0, "the extension is used")
        m.raises(ValueError, lambda: apt.add_plugin_extensions(apt.plugins, e2), "taken")
        still = build("still", getattr(apt.plugins, n1))
        m.check(simulated(still, m) == 1.0, "a refused extension is not used", got=simulated(still, m))
        apt.add_plugin_extensions(apt.plugins, e3)
        both = build("both", getattr(apt.plugins, n1), getattr(apt.plugins, n2), out=("cs1", "cs2"))
        m.check([float(r[0]) for r in both.simulate(m.key(), 4, {})[1]] == [1.0, 3.0], "extensions are used together")
        apt.add_plugin_extensions(apt.plugins, e2, force=True)
        new = build("new", getattr(apt.plugins, n1))
        for n in (7, 8, 9):
            m.check(simulated(old, m, n) == 1.0 and simulated(still, m, n) == 1.0, "compiled models keep the class they were compiled with", batch=n)
            m.check(float(both.simulate(m.key(), n, {})[1][0][0]) == 1.0, "compiled models keep the class they were compiled with", batch=n)
            m.check(simulated(new, m, n) == 2.0, "new models use the new class", batch=n)
            m.seen("batch", n)
    forget(d, written)


@case(repeat=(1, 3))
def in_contexts(m):
    """Components of an extension in a context; shipped plugins replaced by force."""
    rng = m.rng()
    d, written = pkg(), []
    with Target(components) as tc, Target(apt.plugins) as tp:
        apt.clear_cache()
        toys.band_plugins(jit=False)
        cname = names_of(rng, 1, "ToyExtBand")[0]

        def source(eff):
            return HEAD + textwrap.dedent(f"""
            class {cname}(ComponentSim):
                norm_type = "on_pdf"
                add_eps_to_hist = False

                def __init__(self, *args, **kwargs):
                    super().__init__(*args, **kwargs)
                    p = appletree.plugins
                    self.register([p.ToyEnergy, p.ToyObs1, p.ToyObs2, ToyEff{_n[0]}])
            """) + textwrap.dedent(f"""
            class ToyEff{_n[0]}(Plugin):
                depends_on = ["cs1"]
                provides = ["eff"]
                parameters = ()

                def simulate(self, key, parameters, cs1):
                    return key, jnp.full_like(cs1, {eff})
            """)

        ext = write(d, f"bands{_n[0]}", source(0.25))
        again = write(d, f"other{_n[0]}.bands_b", source(0.5))
        written += [ext.__name__, again.__name__]
        data = toys.write_band_data(rng, 300)

        def context(llh):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = apt.Context(toys.toy_instruct(rng, {"er": cname}, par_config=toys.band_par_config(), llh_name=llh, data=data))
            c.par_manager.sample_init()
            return c

        def eff(c, llh, batch):
            p = c.par_manager.get_all_parameter()
            comp = c[llh]["er"]
            _, res = comp.simulate(m.key(), batch, c[llh].replace_alias(p))
            return float(np.asarray(res[-1])[0])

        m.raises(AttributeError, lambda: context("l_none"), "a component which was not added")
        apt.add_component_extensions(components, ext)
        apt.add_plugin_extensions(apt.plugins, types.SimpleNamespace(__name__=ext.__name__ + "_p", **{k: v for k, v in vars(ext).items() if not k.startswith("__")}))
        c1 = context("l_one")
        m.check(abs(eff(c1, "l_one", 50) - 0.25) < 1e-6, "the component of the extension is used", got=eff(c1, "l_one", 50))
        m.raises(ValueError, lambda: apt.add_component_extensions(components, again), "taken")
        m.raises(ValueError, lambda: apt.plugin._add_plugin_extension(apt.plugins, getattr(again, f"ToyEff{_n[0]}")), "taken")
        c2 = context("l_two")
        m.check(abs(eff(c2, "l_two", 50) - 0.25) < 1e-6, "a refused extension is not used", got=eff(c2, "l_two", 50))
        apt.add_component_extensions(components, again, force=True)
        apt.plugin._add_plugin_extension(apt.plugins, getattr(again, f"ToyEff{_n[0]}"), force=True)
        c3 = context("l_three")
        for batch in (50, 51):
            m.check(abs(eff(c3, "l_three", batch) - 0.5) < 1e-6, "a forced extension is used", batch=batch)
            m.check(abs(eff(c1, "l_one", batch) - 0.25) < 1e-6, "compiled contexts keep their class", batch=batch)
            m.check(abs(eff(c2, "l_two", batch) - 0.25) < 1e-6, "compiled contexts keep their class", batch=batch)
            m.seen("context", batch)
        assert tc and tp
    forget(d, written)
