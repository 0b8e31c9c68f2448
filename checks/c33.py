"""C33: components can be copied, exported and inspected, which tells and keeps what they simulate."""

import numpy as np
import pandas as pd
from jax import numpy as jnp

import appletree as apt
from appletree import Context, randgen
from appletree.component import ComponentSim
from appletree.share import set_global_config
from lib import shipped, toys
from lib.vh import case
from checks.c01 import _graph

PROPERTY = "C33"
RULE = (
    "random graphs of plugins with options (constants, maps; shared by plugins, per likelihood or not, set or not, without default), copies with and "
    "without binning, copies of copies and of shipped components, saved and replaced code, repeated compilation with changing input files; distinct "
    "by (kind of request, composition)"
)
TECHNIQUE = (
    "runtime monitoring: simulations of copies and of saved code against the original, reported options against an independent closure of the "
    "registered plugins"
)
REPLY = {}


def chain(tag, options=True):
    """Random plugins whose results depend on options."""
    def src(self, key, parameters, batch_size):
        key, x = randgen.uniform(key, 0.0, 8.0, shape=(batch_size,))
        return key, x

    def obs(self, key, parameters, src_x):
        key, n = randgen.normal(key, src_x, parameters["width"])
        return key, n * (self.gain.value if options else 1.0)

    def other(self, key, parameters, src_x):
        key, n = randgen.uniform(key, 0.0, 7.0, shape=(len(src_x),))
        return key, n

    def eff(self, key, parameters, gx):
        return key, jnp.where(gx > 1.0, 0.75, 0.5)

    cfg = (toys.Constant(name="gain", type=float, default=1.0, help="gain of x"),) if options else ()
    return [
        toys.plugin(f"CpS{tag}", ["batch_size"], ["src_x"], src),
        toys.plugin(f"CpX{tag}", ["src_x"], ["gx"], obs, ("width",), configs=cfg),
        toys.plugin(f"CpY{tag}", ["src_x"], ["gy"], other),
        toys.plugin(f"CpE{tag}", ["gx"], ["eff"], eff),
    ]


BX = np.array([-50.0, 1.0, 3.0, 4.0, 50.0])
BY = np.array([-1.0, 2.0, 3.0, 8.0])
PAR = {"width": 0.3, "r": 5.0, "b_rate": 5.0}


def all_same(m, a, b, what, **data):
    m.same(np.asarray(a[0]), np.asarray(b[0]), what + ": key", **data)
    m.same([np.asarray(v) for v in a[1]], [np.asarray(v) for v in b[1]], what, **data)


@case(repeat=(1, 4))
def copies(m):
    """New components made of another one."""
    rng = m.rng()
    for j, (dim, kind) in enumerate([(1, "irreg"), (2, "irreg"), (2, "meshgrid"), (1, None), (2, "irreg")]):
        tag = f"{j}"
        cls = toys.component_cls(f"CopyMe{tag}", chain(tag), ["on_pdf", "on_sim"][j % 2], bool(j % 3 == 0), add=False)
        names = ["gx", "gy"][:dim]
        by = np.tile(BY, (4, 1)) if kind == "irreg" else BY
        bins = {1: (BX,), 2: (BX, by)}[dim]
        kw = {} if kind is None else dict(bins=bins, bins_type=kind)
        orig = cls(name=f"orig{tag}", llh_name=f"llh{tag}", **kw)
        orig.rate_name = "r"
        orig.deduce(data_names=names, func_name="orig_sim")
        orig.compile()
        key = m.key(j)
        want = orig.simulate(key, 300, PAR)
        hist = orig.simulate_hist(key, 300, PAR)[1] if kind else None
        state = (orig.name, orig.llh_name, orig.rate_name, set(orig.needed_parameters), orig.code)
        if kind is None:
            m.raises(ValueError, orig.new_component, "binning of a component without one")
            m.raises(ValueError, lambda: orig.new_component(llh_name="elsewhere", pass_binning=True), "binning of a component without one")
        ways = [dict(llh_name=f"copy{tag}"), dict(llh_name=f"copyb{tag}", pass_binning=True), dict(llh_name=f"copyn{tag}", pass_binning=False), dict(pass_binning=False)]
        for kwargs in ways if kind else ways[2:]:
            c = orig.new_component(**kwargs)
            passed = kwargs.get("pass_binning", True)
            m.check(type(c) is cls and c is not orig, "class of the copy", got=type(c))
            m.check(c.name == orig.name + "_copy", "name of the copy", got=c.name)
            if "llh_name" in kwargs:
                m.check(c.llh_name == kwargs["llh_name"], "likelihood of the copy", got=c.llh_name)
            else:
                m.check(isinstance(c.llh_name, str) and c.llh_name != orig.llh_name, "likelihood of a copy without one", got=c.llh_name)
            m.check(hasattr(c, "bins") == passed and hasattr(c, "bins_type") == passed, "binning of the copy", passed=passed)
            m.check((c.norm_type, c.add_eps_to_hist) == (orig.norm_type, orig.add_eps_to_hist), "normalization of the copy")
            c.deduce(data_names=names, func_name="copy_sim")
            c.compile()
            all_same(m, c.simulate(key, 300, PAR), want, "simulation of the copy", way=kwargs)
            if passed:
                m.check(c.bins_type == orig.bins_type and len(c.bins) == len(orig.bins), "binning of the copy")
                m.same([np.asarray(b) for b in c.bins], [np.asarray(b) for b in orig.bins], "bins of the copy")
                c.rate_name = "r"
                m.same(np.asarray(c.simulate_hist(key, 300, PAR)[1]), np.asarray(hist), "histogram of the copy")
                again = c.new_component(llh_name=f"again{tag}{kwargs.get('pass_binning')}")
                m.check(again.name == orig.name + "_copy_copy", "name of the copy of a copy", got=again.name)
                m.same([np.asarray(b) for b in again.bins], [np.asarray(b) for b in orig.bins], "bins of the copy of a copy")
            else:
                c.set_binning(bins=(BX + 1.0,) * dim, bins_type="meshgrid")
                m.check((not kind) or np.array_equal(orig.bins[0], BX), "bins of a copy reach the original")
            # another workflow of the copy: no efficiency, other names
            d = orig.new_component(llh_name=f"yield{tag}{kwargs.get('llh_name')}", pass_binning=False)
            d.deduce(data_names=["src_x"], func_name="yield_sim", force_no_eff=True)
            d.compile()
            _, out = d.simulate(key, 50, {})
            m.check(len(out) == 1 and len(out[0]) == 50, "yields of the copy")
            m.check(d.needed_parameters == set(), "needed parameters of the copy", got=d.needed_parameters)
            m.check(not orig.force_no_eff, "a workflow of the copy reaches the original")
            m.seen("copy", (dim, kind, tuple(sorted(kwargs))))
        m.check((orig.name, orig.llh_name, orig.rate_name, set(orig.needed_parameters), orig.code) == state, "the original is changed")
        all_same(m, orig.simulate(key, 300, PAR), want, "the original simulates something else")
        if kind:
            m.same(np.asarray(orig.simulate_hist(key, 300, PAR)[1]), np.asarray(hist), "the original has another histogram")
    m.sample(copies=m.counters)


@case(repeat=(1, 3))
def own_options(m):
    """A copy takes the options of its own likelihood, and options changed later are those of later workflows."""
    rng = m.rng()
    for j in range(m.pick(3, 6)):
        apt.clear_cache()
        plugs = chain(f"o{j}")
        g = {"one": float(rng.uniform(1, 3)), "two": float(rng.uniform(4, 9)), "three": float(rng.uniform(-3, -1))}
        set_global_config({"gain": dict(g)})
        orig = toys.component_cls("OwnOpt", plugs, add=False)(name="orig", llh_name="one", bins=(BX,), bins_type="irreg")
        key = m.key(j)
        base = None
        comps = {}
        for name in g:
            c = orig if name == "one" else orig.new_component(llh_name=name)
            c.deduce(data_names=["gx"], func_name="sim")
            c.compile()
            comps[name] = c
            x = np.asarray(c.simulate(key, 100, PAR)[1][0], float) / g[name]
            base = x if base is None else base
            m.close(x, base, "option of the likelihood of the copy", rtol=1e-5, atol=1e-5, likelihood=name)
            df = c.show_config(["gx"])
            m.check(list(df["current"]) == [g[name]], "shown option of the likelihood", got=list(df["current"]), want=g[name])
        new = float(rng.uniform(10, 20))
        orig.set_config({"gain": new})
        for name, c in comps.items():
            x = np.asarray(c.simulate(key, 100, PAR)[1][0], float) / g[name]
            m.close(x, base, "a later option changes a compiled component", rtol=1e-5, atol=1e-5, likelihood=name)
            m.check(list(c.show_config(["gx"])["current"]) == [new], "shown option after a change", got=list(c.show_config(["gx"])["current"]), want=new)
        late = orig.new_component(llh_name="late")
        late.deduce(data_names=["gx"], func_name="sim")
        late.compile()
        m.close(np.asarray(late.simulate(key, 100, PAR)[1][0], float) / new, base, "a later option in a later component", rtol=1e-5, atol=1e-5)
        m.seen("own options", j)


@case(repeat=(1, 4))
def saved_code(m):
    """The saved code is the simulation, replaced code is what gets compiled."""
    rng = m.rng()
    n = m.pick(8, 25)
    for j in range(n):
        apt.clear_cache()
        tag = f"s{j}"
        with_eff = bool(rng.integers(2))
        c = toys.component_cls("SaveMe", chain(tag), add=False)(name=f"save{j}", llh_name="save_llh")
        names = [["gx"], ["gx", "gy"], ["gy", "src_x", "gx"], ["src_x"]][j % 4]
        func = ["simulate", "my_function", f"f{j}"][j % 3]
        set_global_config({"gain": float(rng.uniform(1, 4))})
        c.deduce(data_names=names, func_name=func, force_no_eff=not with_eff)
        path = toys.scratch(f"code{j}.py")
        early = bool(rng.integers(2))
        if early:
            c.save_code(path)
        c.compile()
        key = m.key(j)
        want = c.simulate(key, 64, PAR)
        if not early:
            c.save_code(path)
        text = open(path).read()
        m.check(text == c.code, "the saved code is not the code", saved=text[:300])
        space = {}
        exec(compile(text, path, "exec"), space)
        all_same(m, space[func](key, 64, PAR), want, "the saved code simulates something else", names=names)
        # saving again replaces the file
        c.save_code(path)
        m.check(open(path).read() == text, "saved twice")
        all_same(m, c.simulate(key, 64, PAR), want, "saving changes the simulation")
        m.seen("saved", (tuple(names), func, with_eff, early))
        # edited code counts from the next compilation on
        c.code = f"def {func}(key, batch_size, parameters):\n    return key, [{j}.5, batch_size, parameters['width']]\n"
        all_same(m, c.simulate(key, 64, PAR), want, "edited code is used before it is compiled")
        c.compile()
        _, out = c.simulate(key, 64, PAR)
        m.check(list(out) == [j + 0.5, 64, PAR["width"]], "edited code is not used", got=list(out))
        c.code = text
        c.compile()
        all_same(m, c.simulate(key, 64, PAR), want, "restored code")
    m.raises(OSError, lambda: c.save_code("/nonexistent_folder/for/code.py"), "saving nowhere")


def option_plugins(rng, tag, n):
    """(plugin classes, options by plugin, specs) of a random graph."""
    specs = _graph(rng, n, tag, p_override=0.25, with_par=False)
    pool = []
    for k in range(max(2, n)):
        kind = ["float", "int", "none", "map", "list"][int(rng.integers(5))]
        name = f"{tag}opt{k}"
        default = {"float": float(np.round(rng.uniform(-3, 3), 3)), "int": 0, "none": apt.config.OMITTED, "map": "_elife.json", "list": [1, 2]}[kind]
        pool.append((name, kind, default, f"help of {name}"))
    out = []
    for s in specs:
        i = s["i"]

        def body(self, key, parameters, *args, _n=len(s["outs"]), _i=i):
            return (key, *[jnp.full(4, _i + k) for k in range(_n)])

        mine = [pool[int(i)] for i in rng.permutation(len(pool))[: int(rng.integers(0, 4))]]
        cfg = []
        for name, kind, default, text in mine:
            cls = toys.Map if kind == "map" else toys.Constant
            kw = {} if kind == "map" else dict(type=float)
            if default is not apt.config.OMITTED:
                kw["default"] = default
            cfg.append(cls(name=name, help=text, **kw))
        out.append(toys.plugin(s["name"], s["deps"], s["outs"], body, configs=tuple(cfg)))
        s["options"] = mine
    return out, specs


def closure(specs, names):
    """Plugins needed for the names."""
    owner = {o: s for s in specs for o in s["outs"]}
    need, todo = [], list(names)
    while todo:
        d = todo.pop()
        if d == "batch_size":
            continue
        s = owner[d]
        if s["name"] not in need:
            need.append(s["name"])
            todo += s["deps"]
    return set(need)


@case(repeat=(1, 4))
def shown(m):
    """Every option of the plugins the request needs, once, with its default and current value."""
    rng = m.rng()
    for j in range(m.pick(100, 300)):
        apt.clear_cache()
        tag = f"W{j}x"
        classes, specs = option_plugins(rng, tag, int(rng.integers(1, 8)))
        c = toys.component_cls("Shown", classes, add=False)(name="shown", llh_name="this_llh")
        owned = sorted({o for s in specs for o in s["outs"]})
        req = [str(d) for d in rng.permutation(owned)[: int(rng.integers(1, min(3, len(owned)) + 1))]]
        options = {o[0]: o for s in specs for o in s["options"]}
        given, current = {}, {}
        for name, (_, kind, default, _) in options.items():
            how = int(rng.integers(4))
            values = {"map": ["_s1_correction.json", "_s2_correction.json"], "list": [[3], [4, 5]]}.get(kind, [0.0, float(np.round(rng.uniform(1, 9), 3))])
            path = (lambda v: apt.utils.get_file_path(v)) if kind == "map" else (lambda v: v)
            if how == 0:
                given[name], current[name] = values[0], path(values[0])
            elif how == 1:
                given[name], current[name] = {"this_llh": values[0], "that_llh": values[1]}, path(values[0])
            elif how == 2:
                given[name], current[name] = {"that_llh": values[0], "this_llh": values[1]}, path(values[1])
            else:
                current[name] = None
        set_global_config(given)
        df = c.show_config(req) if j % 2 else c.show_config(data_names=tuple(req))
        m.check(isinstance(df, pd.DataFrame), "a table of options", got=type(df))
        need = closure(specs, req)
        want = sorted(((o[0], tuple(s["outs"])) for s in specs if s["name"] in need for o in s["options"]), key=repr)
        got = sorted(((r["option"], tuple(r["applies_to"])) for _, r in df.iterrows()), key=repr)
        m.check(got == want, "options shown", got=got, want=want, requested=req)
        for r in df.to_dict("records"):
            name, kind, default, text = options[r["option"]]
            same = lambda a, b: (a is None and b is None) or (a is not None and b is not None and np.array_equal(np.asarray(a), np.asarray(b)))  # noqa
            shown_default = r["default"]
            if default is apt.config.OMITTED:
                m.check(shown_default is apt.config.OMITTED or shown_default == apt.config.OMITTED, "default of an option without one", got=shown_default)
            else:
                m.check(same(shown_default, default), "default of an option", got=shown_default, want=default, option=name)
            cur = r["current"]
            if isinstance(cur, float) and np.isnan(cur):
                cur = None  # pandas writes missing numbers this way
            m.check(same(cur, current[name]), "current value of an option", got=cur, want=current[name], option=name, given=given.get(name))
            m.check(r["help"] == text, "help of an option", got=r["help"])
            m.seen("option", (kind, type(given.get(name)).__name__))
        m.count("options shown", len(df))
        # looking does not set or change anything
        df2 = c.show_config(req)
        m.check(len(df2) == len(df) and (len(df) == 0 or list(df2["option"]) == list(df["option"])), "shown twice")
        bad = req + ["no_such_data"]
        m.raises(ValueError, lambda: c.show_config(bad), "options of unknown data")
        m.seen("shown", (len(need), len(want)))
    m.sample(requested=req, options=got)


@case(repeat=(1, 2))
def built_defaults(m):
    """Defaults in effect are shown once the simulation is built."""
    for j, kind in enumerate(("constant", "map")):
        apt.clear_cache()
        path = toys.const_map(2.0)
        cfg = toys.Constant(name="dflt", type=float, default=2.0) if kind == "constant" else toys.Map(name="dflt", default=path, method="LERP")

        def body(self, key, parameters, batch_size):
            x = jnp.ones(batch_size)
            return key, x * (self.dflt.value if kind == "constant" else self.dflt.apply(x))

        c = toys.component_cls("Dflt", [toys.plugin(f"DfltP{j}", ["batch_size"], ["gx"], body, configs=(cfg,))], add=False)(name="d", llh_name="d_llh")
        r = c.show_config(["gx"]).to_dict("records")[0]
        m.check(r["current"] is None, "an option nobody set", got=r["current"])
        c.deduce(data_names=["gx"], force_no_eff=True)
        c.compile()
        m.check(float(c.simulate(m.key(), 3, {})[1][0][0]) == 2.0, "default in effect")
        r = c.show_config(["gx"]).to_dict("records")[0]
        m.check(r["current"] == (2.0 if kind == "constant" else path), "a default in effect is shown", got=r["current"])
        m.seen("built", kind)


@case(repeat=(1, 2))
def shipped_components(m):
    """Copies and options of the shipped components."""
    names = ["ERBand"] if m.quick else ["ERBand", "NR", "ERPeak", "ERBandNestV2"]
    for cname in names:
        c = shipped.build(cname, ["cs1", "cs2"], llh_name="sh" + cname, bins=(BX, BY), bins_type="meshgrid")
        key, par = m.key(), shipped.parameters(cname)
        want = c.simulate(key, 200, par)
        d = c.new_component(llh_name="sh2" + cname)
        d.deduce(data_names=["cs1", "cs2"], func_name="simulate")
        d.compile()
        all_same(m, d.simulate(key, 200, par), want, "copy of a shipped component", component=cname)
        path = toys.scratch("code.py")
        c.save_code(path)
        space = {}
        exec(compile(open(path).read(), path, "exec"), space)
        all_same(m, space["simulate"](key, 200, par), want, "saved code of a shipped component", component=cname)
        df = c.show_config()
        ran = {w[0] for w in c.worksheet}
        want_opts = sorted((k, tuple(p.provides)) for p in {getattr(apt.plugins, r) for r in ran} for k in p.takes_config)
        got = sorted((r["option"], tuple(r["applies_to"])) for r in df.to_dict("records"))
        m.check(got == want_opts, "options of a shipped component", got=got, want=want_opts)
        m.check(df["current"].notna().all(), "options in effect of a shipped component")
        m.seen("shipped", cname)


@case(repeat=(1, 2))
def recompiled(m):
    """Repeated compilation gives every simulation its own input file section."""
    rng = m.rng()
    for per_llh in (False, True):
        for boot in (True, False):
            apt.clear_cache()
            log = []

            def energy(self, key, parameters, batch_size):
                log.append(list(self.g4.value))
                key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
                return key, u

            def eff(self, key, parameters, energy):
                return key, jnp.where(energy > 0.25, 1.0, 0.0)

            ename = "BootstrapEnergyToy" if boot else "PlainEnergyToy"
            plugs = [toys.plugin(ename, ["batch_size"], ["energy"], energy, configs=(toys.Constant(name="g4", type=list, default=["none", 1, 1]),)),
                     toys.plugin("BootEffToy", ["energy"], ["eff"], eff)]
            first = ["my_file.root", 3, 4]
            other = ["other_file.root", 5, 6]
            given = {"g4": {"g_llh": list(first), "other_llh": list(other)} if per_llh else list(first)}
            set_global_config(given)
            c = toys.component_cls("Recomp", plugs, add=False)(name="c", llh_name="g_llh")
            c.deduce(data_names=["energy"], func_name="sim")
            c.compile()
            times, n = int(rng.integers(2, 5)), int(rng.integers(20, 60))
            apply_eff = bool(rng.integers(2))
            log.clear()
            key = m.key(per_llh, boot)
            _, out = c.multiple_simulations_compile(key, n, {}, times, apply_eff=apply_eff)
            m.check(len(out) == 2 and len(out[0]) == len(out[1]), "outputs of repeated compilation")
            m.check(len(out[0]) == times * n if not apply_eff else np.all(np.asarray(out[1]) > 0), "events of repeated compilation", got=len(out[0]))
            m.check(len(np.unique(out[0])) > 0.9 * len(out[0]), "repeated compilation repeats its events")
            used = [tuple(v) for v in dict.fromkeys(map(tuple, log))]
            if boot:
                m.check(len(used) == times, "every compilation has its own input", used=used, times=times)
                m.check(all(v[0] == "my_file.root" and v[1] == n for v in used), "file and size of the input", used=used, n=n)
            else:
                m.check(used == [tuple(first)], "input of a simulation which does not start from it", used=used)
            m.check(given == {"g4": {"g_llh": first, "other_llh": other} if per_llh else first}, "the given configuration is changed", got=given)
            if per_llh:
                o = toys.component_cls("RecompOther", plugs, add=False)(name="o", llh_name="other_llh")
                o.deduce(data_names=["energy"], func_name="sim")
                o.compile()
                log.clear()
                o.simulate(m.key(), n, {})
                m.check(log == [other], "input of another likelihood", got=log)
            m.seen("recompiled", (per_llh, boot, times))


@case(repeat=(1, 2))
def from_contexts(m):
    """Yield predictions from the components of a context leave the fit as it is."""
    rng = m.rng()
    plugs = chain("ctx", options=False)
    toys.component_cls("CtxComp", plugs)
    x, y = rng.uniform(0, 8, 200), rng.uniform(0, 7, 200)
    ins = {"likelihoods": {"a": dict(components={"b": "CtxComp"}, copy_parameters={"b_rate": "rate"}, data_file_name=toys.csv({"gx": x, "gy": y}),
                                     bins_type="equiprob", bins_on=["gx", "gy"], bins=[3, 2], x_clip=[0, 8], y_clip=[0, 7])},
           "par_config": toys.dump_json({"rate": toys.par_uniform(1, 900), "width": toys.par_uniform(0.1, 1.0)}, name="par.json")}
    tree = Context(ins)
    key = m.key()
    llh = tree["a"]
    want = llh.get_log_likelihood(key, 5000, PAR)[1]
    c = llh["b"].new_component(llh_name="prediction")
    m.same([np.asarray(b) for b in c.bins], [np.asarray(b) for b in llh["b"].bins], "binning of the likelihood")
    m.check(list(llh.components) == ["b"] and llh["b"].name == "b", "components of the likelihood")
    c.rate_name = "b_rate"
    c.deduce(data_names=["gx", "gy"], func_name="pred")
    c.compile()
    m.same(np.asarray(c.simulate_hist(key, 5000, PAR)[1]), np.asarray(llh["b"].simulate_hist(key, 5000, PAR)[1]), "histogram of the prediction")
    m.check(llh.get_log_likelihood(key, 5000, PAR)[1] == want, "a prediction changes the likelihood")
    m.check(set(tree.needed_parameters) == {"width", "b_rate"}, "a prediction changes the needed parameters", got=tree.needed_parameters)
    m.seen("from context")
    assert ComponentSim
