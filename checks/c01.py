"""C01: the deduced workflow computes the registered dataflow."""

import numpy as np
import jax
from jax import numpy as jnp

import appletree as apt
from appletree import randgen
from lib import toys
from lib.vh import case

PROPERTY = "C01"
RULE = (
    "random acyclic graphs of toy plugins (1-12 plugins, 1-3 outputs each, overridden producers, "
    "diamonds), random requested names; a graph is non-trivial if at least 3 plugins ran; distinct by "
    "(plugins run, outputs requested)"
)
TECHNIQUE = "runtime monitoring: reference dataflow evaluation of recorded plugin runs, log of consumed random keys"
TRACE = []


def _tag(i, j, args, par):
    """Integer arithmetic whose value identifies the producer and its inputs."""
    v = 1000003 * (i + 1) + 7919 * (j + 1) + par
    for k, a in enumerate(args):
        v = v + (2 * k + 3) * a * 31
    return v % 1000000007


def _graph(rng, n, prefix, p_override=0.3, max_out=3, with_par=True):
    """List of plugin specs in registration order; later ones may override earlier outputs.

    Levels keep it acyclic: a plugin only depends on data of a lower level, and an overriding
    producer of a name has the level of the name at most.

    """
    level = {"batch_size": 0}
    specs = []
    for i in range(n):
        names = [d for d in level]
        lv = int(rng.integers(1, 5))
        lower = [d for d in names if level[d] < lv]
        deps = list(rng.permutation(lower)[: int(rng.integers(1, min(4, len(lower)) + 1))])
        deps = [str(d) for d in deps]
        outs = []
        for j in range(int(rng.integers(1, max_out + 1))):
            cand = [d for d in names if d not in ("batch_size",) and level[d] >= lv and d not in outs]
            if cand and rng.random() < p_override:
                outs.append(str(cand[int(rng.integers(len(cand)))]))
            else:
                d = f"{prefix}d{i}_{j}"
                level[d] = lv
                outs.append(d)
        par = (f"{prefix}p{i}",) if with_par and rng.random() < 0.5 else ()
        specs.append(dict(i=i, name=f"{prefix}P{i}", deps=deps, outs=outs, par=par))
    return specs


def _make(spec, draw=False):
    i = spec["i"]

    def body(self, key, parameters, *args):
        TRACE.append(spec["name"])
        par = sum(int_(parameters[p]) for p in spec["par"]) if spec["par"] else 0
        res = []
        for j in range(len(spec["outs"])):
            v = _tag(i, j, [jnp.asarray(a, dtype=jnp.int32) % 9973 for a in args], par)
            res.append(jnp.broadcast_to(v, (4,)))
        return (key, *res)

    return toys.plugin(spec["name"], spec["deps"], spec["outs"], body, spec["par"])


def int_(x):
    return jnp.asarray(x, dtype=jnp.int32)


def _oracle(specs, requested, batch_size, parameters):
    """Direct evaluation of the dataflow."""
    owner = {}
    for s in specs:
        for j, o in enumerate(s["outs"]):
            owner[o] = (s, j)
    memo, ran = {}, []

    def value(d):
        if d == "batch_size":
            return batch_size
        if d in memo:
            return memo[d]
        s, j = owner[d]
        args = [value(x) % 9973 for x in s["deps"]]
        if s["name"] not in ran:
            ran.append(s["name"])
        par = sum(int(parameters[p]) for p in s["par"])
        v = np.int32(0)
        with np.errstate(over="ignore"):
            v = np.array(1000003 * (s["i"] + 1) + 7919 * (j + 1) + par, dtype=np.int32)
            for k, a in enumerate(args):
                v = v + np.int32(2 * k + 3) * np.int32(a) * np.int32(31)
            v = v % np.int32(1000000007)
        memo[d] = v
        return v

    return [value(d) for d in requested], ran, owner


def _eff(prefix, dep):
    def body(self, key, parameters, a):
        TRACE.append(prefix + "Eff")
        return key, jnp.full(4, 77, dtype=jnp.int32)

    return toys.plugin(prefix + "Eff", [dep], ["eff"], body)


@case(repeat=(1, 6))
def random_graphs(m):
    """Values, order of outputs, who ran, in which order and how often."""
    rng = m.rng()
    for g in range(m.pick(45, 150)):
        prefix = f"G{g}x"
        n = int(rng.integers(1, 13))
        specs = _graph(rng, n, prefix)
        order = list(specs)
        classes = [_make(s) for s in order]
        owned = sorted({o for s in specs for o in s["outs"]})
        req = [str(d) for d in rng.permutation(owned)[: int(rng.integers(1, min(5, len(owned)) + 1))]]
        no_eff = bool(rng.random() < 0.3)
        eff_at = int(rng.integers(0, len(req) + 1))
        eff_dep = owned[int(rng.integers(len(owned)))]
        if rng.random() < 0.3:
            # a name asked for twice is returned twice
            req.insert(int(rng.integers(0, len(req) + 1)), req[0])
        post = None
        if not no_eff:
            classes.append(_eff(prefix, eff_dep))
            if rng.random() < 0.4:
                # a requested quantity that is computed from the efficiency
                post = dict(i=n, name=f"{prefix}Post", deps=["eff", owned[int(rng.integers(len(owned)))]],
                            outs=[f"{prefix}post"], par=())
                classes.append(_make(post))
                req.insert(int(rng.integers(0, len(req) + 1)), post["outs"][0])
        asked = list(req)
        if not no_eff and rng.random() < 0.5:
            asked.insert(eff_at, "eff")
        if rng.random() < 0.5:
            asked = tuple(asked)
        before = list(asked)
        c = toys.build(classes, asked, llh_name=prefix + "llh", name=prefix + "c", force_no_eff=no_eff)
        m.check(list(asked) == before, "the caller's list of data names was modified", got=asked, want=before)
        par = {p: int(rng.integers(0, 1000)) for s in specs for p in s["par"]}
        b = int(rng.integers(1, 50))
        TRACE.clear()
        _, out = c.simulate(m.key(g), b, par)
        trace = list(TRACE)
        plain = [d for d in req if post is None or d != post["outs"][0]]
        full = plain + ([] if no_eff else [eff_dep]) + ([] if post is None else [post["deps"][1]])
        values, ran, owner = _oracle(specs, full, b, par)
        values = dict(zip(full, values))
        if post is not None:
            v = np.int32(1000003 * (n + 1) + 7919)
            with np.errstate(over="ignore"):
                for k, a in enumerate((np.int32(77), values[post["deps"][1]] % 9973)):
                    v = v + np.int32(2 * k + 3) * np.int32(a) * np.int32(31)
            values[post["outs"][0]] = v % np.int32(1000000007)
            m.count("quantities computed from the efficiency")
        want = [values[d] for d in req]
        info = dict(specs=specs, requested=list(asked), no_eff=no_eff, trace=trace)
        m.check(len(out) == len(req) + (not no_eff), "number of outputs", got=len(out), **info)
        for k in range(len(req)):
            m.check(
                np.asarray(out[k]).ravel()[0] == want[k],
                f"value of {req[k]} is not the one of the registered dataflow",
                got=np.asarray(out[k]).ravel()[:1], want=want[k], **info,
            )
        if not no_eff:
            m.check(np.asarray(out[-1])[0] == 77, "the efficiency is not the last output", **info)
            ran = ran + [prefix + "Eff"] + ([] if post is None else [post["name"]])
        m.check(sorted(trace) == sorted(ran), "plugins run are not the needed ones, once each",
                want=sorted(ran), **info)
        pos = {t: k for k, t in enumerate(trace)}
        for s in specs:
            if s["name"] in pos:
                for d in s["deps"]:
                    if d != "batch_size":
                        m.check(pos[owner[d][0]["name"]] < pos[s["name"]],
                                "a plugin ran before its input existed", plugin=s["name"], dep=d, **info)
        # the sheet the user looks at
        if len(trace) >= 3:
            m.seen(len(trace), (len(req), no_eff, tuple(len(s["outs"]) for s in specs)))
        m.count("graphs")
        m.count("plugins run", len(trace))
        m.sample(specs=specs, requested=list(asked), trace=trace)


@case(repeat=(1, 4))
def rededuce(m):
    """Deducing other names again, other components in between, same values as from scratch."""
    rng = m.rng()
    for g in range(m.pick(8, 30)):
        prefix = f"R{g}x"
        specs = _graph(rng, 8, prefix)
        classes = [_make(s) for s in specs]
        owned = sorted({o for s in specs for o in s["outs"]})
        par = {p: int(rng.integers(0, 1000)) for s in specs for p in s["par"]}
        cls = toys.component_cls(prefix + "C", classes, add=False)
        c = cls(name=prefix + "c", llh_name=prefix + "llh")
        sims = []
        for k in range(3):
            req = [str(d) for d in rng.permutation(owned)[: int(rng.integers(1, 4))]]
            if k == 1:
                # another component of other plugins in between
                other = cls(name=prefix + "o", llh_name=prefix + "other")
                other.deduce(data_names=[owned[0]], func_name="simulate", force_no_eff=True)
                other.compile()
            comp = cls(name=f"{prefix}c{k}", llh_name=prefix + "llh") if k == 2 else c
            if k == 1:
                # a new deduction of the same component under another name
                comp.llh_name = prefix + "llh_again"
            comp.deduce(data_names=req, func_name=f"sim{k}", force_no_eff=True)
            comp.compile()
            sims.append((comp.simulate, req))
            want, ran, _ = _oracle(specs, req, 5, par)
            m.check(
                {w[0] for w in comp.worksheet} == set(ran),
                "worksheet lists the needed plugins", got=[w[0] for w in comp.worksheet], want=ran,
            )
            for sim, r in sims:
                want, ran, _ = _oracle(specs, r, 5, par)
                TRACE.clear()
                _, out = sim(m.key(g, k), 5, par)
                got = [np.asarray(o).ravel()[0] for o in out]
                m.check(got == want, "value after another deduction", got=got, want=want, requested=r, specs=specs)
            m.seen("rededuce", (k, len(req), len(ran)))


@case
def wide_and_deep(m):
    """Chains, diamonds, fan-in, shared multi-output producers at depth."""
    rng = m.rng()
    for depth, width in ((12, 1), (6, 2), (4, 3), (2, 6)):
        prefix = f"W{depth}_{width}x"
        specs, last = [], ["batch_size"]
        i = 0
        for d in range(depth):
            new = []
            for w in range(width):
                deps = list(last) if rng.random() < 0.7 else last[:1]
                outs = [f"{prefix}d{d}_{w}"] + ([f"{prefix}e{d}_{w}"] if w == 0 else [])
                specs.append(dict(i=i, name=f"{prefix}P{i}", deps=deps, outs=outs, par=()))
                i += 1
                new += outs
            last = new
        for perm in range(3):
            order = [specs[k] for k in rng.permutation(len(specs))]
            classes = [_make(s) for s in order]
            req = [str(x) for x in rng.permutation(last)]
            c = toys.build(classes, req, llh_name=f"{prefix}{perm}", force_no_eff=True)
            TRACE.clear()
            _, out = c.simulate(m.key(depth, perm), 3, {})
            want, ran, _ = _oracle(specs, req, 3, {})
            got = [np.asarray(o).ravel()[0] for o in out]
            m.check(got == want, "value in layered graph", got=got, want=want, depth=depth, width=width)
            m.check(sorted(TRACE) == sorted(ran), "each needed plugin runs once", trace=list(TRACE), want=ran)
            m.seen("layered", (depth, width, perm))


@case
def unresolved(m):
    """Requests that cannot be resolved are refused."""
    rng = m.rng()
    for g in range(m.pick(6, 20)):
        prefix = f"U{g}x"
        specs = _graph(rng, 6, prefix, p_override=0)
        classes = [_make(s) for s in specs]
        owned = sorted({o for s in specs for o in s["outs"]})
        used = sorted({d for s in specs for d in s["deps"] if d != "batch_size"})
        # an unknown request, an efficiency nobody provides
        m.raises(Exception, lambda: toys.build(classes, [owned[0], prefix + "nope"], llh_name=prefix + "a",
                                               force_no_eff=True), "unknown data name")
        m.raises(Exception, lambda: toys.build(classes, [owned[0]], llh_name=prefix + "b"),
                 "efficiency without a plugin providing it")
        if used:
            # a missing producer deep in the graph
            miss = used[int(rng.integers(len(used)))]
            kept = [c for c, s in zip(classes, specs) if miss not in s["outs"]]
            need = [s for s in specs if miss in s["deps"]]
            tgt = next((o for s in need for o in s["outs"] if s["name"] in [k.__name__ for k in kept]), None)
            if tgt is not None:
                m.raises(Exception, lambda: toys.build(kept, [tgt], llh_name=prefix + "c", force_no_eff=True),
                         "missing producer of a dependency", missing=miss)
        for bad in ("cs1", {"cs1"}, None, 3):
            cls = toys.component_cls(prefix + "B", classes, add=False)
            m.raises(Exception, lambda: cls(name="b", llh_name=prefix + "d").deduce(
                data_names=bad, force_no_eff=True), "data names of a wrong type", bad=repr(bad))
        m.seen("refused", g)


@case
def keys(m):
    """No two plugins that draw random numbers see the same key; returned key is a new one."""
    rng = m.rng()
    for g in range(m.pick(10, 40)):
        prefix = f"K{g}x"
        specs = _graph(rng, int(rng.integers(3, 10)), prefix, with_par=False)
        draws = {s["name"]: bool(rng.random() < 0.75) for s in specs}

        def make(s):
            def body(self, key, parameters, *args):
                raw = key
                outs = []
                for _ in s["outs"]:
                    if draws[s["name"]]:
                        raw = key
                        key, u = randgen.uniform(key, 0.0, 1.0, shape=(3,))
                        outs.append(jnp.concatenate([jnp.asarray(raw, jnp.uint32).astype(jnp.uint32).view(jnp.int32)
                                                     .ravel()[:2].astype(jnp.int32), u.view(jnp.int32)]))
                    else:
                        outs.append(jnp.zeros(5, jnp.int32))
                return (key, *outs)

            return toys.plugin(s["name"], s["deps"], s["outs"], body)

        classes = [make(s) for s in specs]
        owner = {o: s["name"] for s in specs for o in s["outs"]}
        owned = sorted(owner)
        c = toys.build(classes, owned, llh_name=prefix + "llh", force_no_eff=True)
        key = m.key(g)
        new, out = c.simulate(key, 2, {})
        seen_keys, seen_vals = {}, {}
        for name, o in zip(owned, out):
            if not draws[owner[name]]:
                continue
            o = np.asarray(o)
            kk, vv = tuple(o[:2].tolist()), tuple(o[2:].tolist())
            m.check(kk not in seen_keys, "two draws of one simulation share a key",
                    first=seen_keys.get(kk), second=name, specs=specs)
            m.check(vv not in seen_vals, "two draws of one simulation are equal",
                    first=seen_vals.get(vv), second=name)
            seen_keys[kk] = name
            seen_vals[vv] = name
        if seen_keys:
            m.check(not np.array_equal(np.asarray(new), np.asarray(key)), "returned key is the one given")
            m.check(tuple(np.asarray(new).view(np.int32).tolist()) not in seen_keys,
                    "returned key was used for a draw of this simulation")
        m.count("draws", len(seen_keys))
        m.seen("keys", (len(seen_keys), len(specs)))


@case(tiers=("thorough",))
def shipped(m):
    """Shipped components: every requested quantity at its place, in any order."""
    from lib import shipped as sh

    rng = m.rng()
    for cname, names in (
        ("ERBand", ["cs1", "cs2", "s1_area", "energy", "z"]),
        ("NR", ["cs1", "cs2", "energy", "z"]),
    ):
        par = sh.parameters(cname)
        for k in range(2):
            perm = [str(x) for x in rng.permutation(names)]
            c = sh.build(cname, perm + ["eff"] * k, llh_name=f"{cname}{k}")
            _, out = c.simulate(m.key(cname, k), 500, par)
            m.check(len(out) == len(names) + 1, "number of outputs of a shipped component")
            d = dict(zip(perm + ["eff"], map(np.asarray, out)))
            m.check(d["eff"].min() >= 0 and d["eff"].max() <= 1, "efficiency at its place")
            m.check(d["z"].max() < 0, "depth at its place")
            m.check(d["energy"].min() >= 0 and d["energy"].max() <= 110, "energy at its place")
            m.check(d["cs2"].mean() > d["cs1"].mean() * 5, "cs1 and cs2 at their place")
            m.seen("shipped", (cname, k))


@case(tiers=("thorough",))
def shipped_keys(m):
    """Every draw of the shipped components, in compiled code, has its own key."""
    from lib import shipped as sh, keys as lk

    for cname in list(sh.FILES):
        names = ["energy", "num_quanta"] if "Yields" in cname else ["cs1", "cs2"]
        if "Yields" in cname:
            names = ["energy", "light_yield"]
        c = sh.build(cname, names, llh_name=f"{cname}k")
        par = sh.parameters(cname)
        b = 6
        key = m.key(cname)
        with lk.monitor() as log:
            key2, out = c.simulate(key, b, par)
            [np.asarray(o) for o in out]
            import jax

            jax.effects_barrier()
            first = list(log)
            key3, out = c.simulate(key2, b, par)
            [np.asarray(o) for o in out]
            jax.effects_barrier()
        bad = log.duplicates()
        m.check(not bad, f"two draws of {cname} share a key", duplicates=bad[:5])
        m.check(lk.raw(key2) not in log.keys() and lk.raw(key3) not in log.keys(),
                "the returned key was used for a draw", component=cname)
        m.check(lk.raw(key) != lk.raw(key2), "returned key is the one given")
        m.check(len(first) > 0, "no draw observed", component=cname)
        m.count("draws of shipped components", len(log))
        m.seen("shipped keys", (cname, tuple(n for n, _ in first)))
        m.sample(component=cname, draws=[n for n, _ in first])


@case
def plugin_keys(m):
    """Every shipped plugin on its own: distinct keys, and a fresh key returned if it draws."""
    from lib import shipped as sh, keys as lk

    rng = m.rng()
    data = sh.plugin_inputs(rng, 5)
    par = sh.merged_parameters()
    with lk.monitor() as everything:
        for name, cls in sh.all_plugins().items():
            if not set(cls.depends_on) <= set(data):
                m.count("plugins skipped")
                continue
            inst = cls("toy_llh")
            key = m.key(name)
            n0 = len(everything)
            key2, out = sh.run_plugin(inst, key, par, data)
            jax.effects_barrier()
            log = lk.Log(everything[n0:])
            m.check(not log.duplicates(), f"two draws of {name} share a key", duplicates=log.duplicates()[:5])
            m.check(lk.raw(key2) not in log.keys(), f"{name} returns a key it used for a draw")
            if log:
                m.check(lk.raw(key2) != lk.raw(key), f"{name} draws and returns the key it was given")
                m.count("drawing plugins")
                m.seen("plugin keys", (name, len(log)))
            m.check(len(out) == len(cls.provides), f"{name} returns what it declares to provide")
