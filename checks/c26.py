"""C26: the efficiency is a product of acceptances between zero and one."""

import warnings

import numpy as np

import appletree as apt
from appletree.share import set_global_config
from checks import c24
from lib import shipped, toys
from lib.vh import case

PROPERTY = "C26"
RULE = (
    "acceptance maps inside and outside of [0, 1], scalers from -1e6 to 1e6, signals at, below and above the threshold; deterministic "
    "components with known efficiencies in histograms, weighted data and repeated simulations; histories of forcing the efficiency away; "
    "distinct by (plugin, scaler, threshold, route)"
)
TECHNIQUE = "runtime monitoring: every event's efficiency against the product of its acceptances"
F = lambda v: np.asarray(v, np.float32)  # noqa
run = lambda inst, key, par, **data: shipped.run_plugin(inst, key, par, data)[1]  # noqa

SIGMAS = [0.0, 0.3, -0.3, 1.0, -1.0, 5.0, -5.0, 1e3, -1e3, 1e6, -1e6]


@case(repeat=(2, 10))
def threshold(m):
    """Only signals above the threshold are accepted."""
    rng = m.rng()
    inst = c24.instance("S2Threshold")
    for j in range(m.pick(6, 20)):
        t = np.float32(rng.choice([0.0, 100.0, 500.0, float(rng.uniform(1, 3000))]))
        s = np.concatenate([F(rng.uniform(0, 2 * t + 10, 200)), [t, np.nextafter(t, F(0)) if t else F(-1e-20), np.nextafter(t, F(1e9)) if t else F(1e-20), F(0), F(-5)]]).astype(np.float32)
        got = run(inst, m.key(), {"s2_threshold": float(t)}, s2_area=s)["acc_s2_threshold"]
        m.same(np.asarray(got, float), (s > t).astype(float), "accepted above the threshold", threshold=float(t))
        m.seen("threshold", j)


def sigma_reference(x, nodes, med, lo, up, sigma, method):
    if method == "NN":
        def f(v):
            return np.asarray(v)[np.argmin(np.abs(np.asarray(x, float)[:, None] - nodes), axis=1)]
    else:
        def f(v):
            return np.interp(x, nodes, v)
    a, b, c = f(med), f(lo), f(up)
    return np.clip(a + sigma * np.where(sigma > 0, c - a, a - b), 0, 1)


PLUGS = [
    ("S1ReconEff", "s1_eff_3f", "num_s1_phd", "acc_s1_recon_eff", "NN"),
    ("S1CutAccept", "s1_cut_acc", "s1_area", "cut_acc_s1", "LERP"),
    ("S2CutAccept", "s2_cut_acc", "s2_area", "cut_acc_s2", "LERP"),
]


@case(repeat=(2, 10))
def acceptances(m):
    """Each acceptance is its map with the scaler, within zero and one."""
    rng = m.rng()
    for plug, cfg, dep, out, method in PLUGS:
        for wild in (False, True):
            k = int(rng.integers(2, 8))
            nodes = np.cumsum(rng.integers(1, 40, k)).astype(float)
            span = (-2.0, 3.0) if wild else (0.05, 0.95)
            med = rng.uniform(*span, k)
            lo, up = med - rng.uniform(0, 0.4, k), med + rng.uniform(0, 0.4, k)
            name = f"my_{cfg}"
            files = [toys.point_map(nodes, v) for v in (med, lo, up)]
            inst = c24.instance(plug, **{cfg: files + [name]})
            x = np.concatenate([rng.integers(0, int(nodes[-1] * 1.3), 300).astype(float), nodes, [0.0, 1e5]])
            # keep away from the middle of two nodes, where the nearest one is not defined
            mid = (nodes[1:] + nodes[:-1]) / 2
            if method == "NN" and len(mid):
                x = x[np.min(np.abs(x[:, None] - mid), axis=1) > 0.2]
            x = x.astype(np.int32) if dep == "num_s1_phd" else x.astype(np.float32)
            for s in SIGMAS:
                got = np.asarray(run(inst, m.key(), {name: s}, **{dep: x})[out], float)
                m.check((got >= 0) & (got <= 1), "acceptance is within zero and one", plugin=plug, sigma=s, wild=wild, got=got)
                if abs(s) <= 5:
                    # outside of the nodes, the value is the one of the closest node
                    q = np.clip(x.astype(float), nodes[0], nodes[-1])
                    want = sigma_reference(q, nodes, med, lo, up, s, method)
                    m.close(got, want, "acceptance of the map", rtol=1e-3, atol=2e-3, plugin=plug, sigma=s)
                m.seen("acceptance", (plug, wild, s))
    # product
    inst = c24.instance("Eff")
    n = 500
    a = {k: F(rng.uniform(0, 1, n)) for k in ("acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2")}
    a["acc_s2_threshold"] = F(rng.integers(0, 2, n))
    for k in a:
        a[k][rng.random(n) < 0.1] = 0.0
        a[k][rng.random(n) < 0.1] = 1.0
    got = np.asarray(run(inst, m.key(), {}, **a)["eff"], float)
    m.close(got, np.prod([v.astype(float) for v in a.values()], axis=0), "product of the acceptances", rtol=1e-5, atol=1e-9)
    m.check((got >= 0) & (got <= 1), "efficiency is within zero and one")


@case(repeat=(1, 3))
def chain(m):
    """Through a component: the efficiency of the event is the product of its own acceptances."""
    rng = m.rng()
    for cname in ("ERBand", "NR") if m.quick else ("ERBand", "NR", "ERBandNestV2", "ERPeak"):
        apt.clear_cache()
        cfg = {
            "s1_eff_3f": [toys.point_map([0.0, 4.0, 8.0, 20.0], v) for v in ([0.1, 0.5, 0.9, 1.2], [-0.2, 0.3, 0.8, 1.0], [0.3, 0.8, 1.3, 1.3])],
            "s1_cut_acc": [toys.point_map([0.0, 10.0, 80.0], v) for v in ([0.5, 0.9, 0.7], [0.1, 0.8, 0.5], [0.9, 1.1, 0.9])],
            "s2_cut_acc": [toys.point_map([0.0, 1000.0, 8000.0], v) for v in ([0.4, 0.95, 0.8], [0.2, 0.85, 0.6], [0.9, 1.05, 0.9])] + ["s2_cut_acc_sigma"],
        }
        set_global_config(cfg)
        c, names = c24.build(cname)
        thr = 500.0
        for i, s in enumerate([0.0, 1.0, -2.0, 4.5] if m.quick else SIGMAS):
            par = {k: float(v) for k, v in shipped.parameters(cname).items()}
            par.update(s1_eff_3f_sigma=s, s1_cut_acc_sigma=-s, s2_cut_acc_sigma=s / 2, s2_threshold=thr, field=100.0)
            d = c24.observe(c, names, m.key(cname, i), m.pick(3000, 20000), par)
            f = {k: np.asarray(v, float) for k, v in d.items()}
            acc = ["acc_s2_threshold", "acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2"]
            m.close(f["eff"], np.prod([f[k] for k in acc], axis=0), "product of the acceptances of the event", rtol=1e-4, atol=1e-7)
            for k in acc + ["eff"]:
                m.check((f[k] >= 0) & (f[k] <= 1), k + " is within zero and one")
            m.check(f["eff"][f["s2_area"] <= thr] == 0, "nothing below the threshold")
            m.close(f["acc_s2_threshold"], (f["s2_area"] > thr).astype(float), "threshold of the event")
            v = [[0.5, 0.9, 0.7], [0.1, 0.8, 0.5], [0.9, 1.1, 0.9]]
            m.close(f["cut_acc_s1"], sigma_reference(np.clip(f["s1_area"], 0, 80), np.array([0.0, 10.0, 80.0]), *v, -s, "LERP"), "S1 cut of the event", rtol=5e-3, atol=5e-3)
            v = [[0.4, 0.95, 0.8], [0.2, 0.85, 0.6], [0.9, 1.05, 0.9]]
            m.close(f["cut_acc_s2"], sigma_reference(np.clip(f["s2_area"], 0, 8000), np.array([0.0, 1000.0, 8000.0]), *v, s / 2, "LERP"), "S2 cut of the event", rtol=5e-3, atol=5e-3)
            v = [[0.1, 0.5, 0.9, 1.2], [-0.2, 0.3, 0.8, 1.0], [0.3, 0.8, 1.3, 1.3]]
            ok = ~np.isin(f["num_s1_phd"], [2, 6, 14])
            m.close(f["acc_s1_recon_eff"][ok], sigma_reference(np.clip(f["num_s1_phd"], 0, 20), np.array([0.0, 4.0, 8.0, 20.0]), *v, s, "NN")[ok], "reconstruction of the event", rtol=1e-3, atol=1e-3)
            m.seen("chain", (cname, s))


# ------------------------------------------------------------------ use of the efficiency


def ladder(eff, jit=False):
    """Events 0, 1, 2, ... in order, with efficiency eff[i % len(eff)] scaled by a parameter."""
    from jax import numpy as jnp

    e = np.asarray(eff, np.float32)

    def idx(self, key, parameters, batch_size):
        return key, jnp.arange(batch_size, dtype=float)

    def s1(self, key, parameters, t_i):
        return key, t_i + 0.5

    def s2(self, key, parameters, t_i):
        return key, 10 * t_i + 5.0

    def ef(self, key, parameters, t_i):
        return key, jnp.asarray(e)[t_i.astype(int) % len(e)] * parameters["scale"]

    return [
        toys.plugin("LadI", ["batch_size"], ["t_i"], idx),
        toys.plugin("LadS1", ["t_i"], ["cs1"], s1),
        toys.plugin("LadS2", ["t_i"], ["cs2"], s2),
        toys.plugin("LadE", ["t_i"], ["eff"], ef, ("scale",)),
    ]


def make(plugins, name="a", llh="l1", func="simulate", data=("cs1", "cs2"), no_eff=False, norm="on_sim", bins=None, **kw):
    c = toys.component_cls("Lad", plugins, norm_type=norm, add=False)(name=name, llh_name=llh, **({"bins": bins, "bins_type": "meshgrid"} if bins else {}), **kw)
    c.rate_name = "rate"
    c.deduce(data_names=list(data), func_name=func, force_no_eff=no_eff)
    c.compile()
    return c


def effs(rng, k):
    e = rng.uniform(0, 1, k)
    e[rng.random(k) < 0.35] = 0.0
    e[rng.random(k) < 0.2] = 1.0
    return np.round(e, 3)


@case(repeat=(2, 8))
def histograms(m):
    """Histograms weight events by their efficiency, or fully where it is ignored."""
    import jax.numpy as jnp

    rng = m.rng()
    for j in range(m.pick(3, 8)):
        k, n = int(rng.integers(3, 12)), int(rng.integers(20, 80))
        e = effs(rng, k)
        edges = np.unique(rng.integers(0, n + 1, int(rng.integers(3, 7)))).astype(float)
        if len(edges) < 2:
            continue
        dims = int(rng.integers(1, 3))
        data = ("cs1", "cs2")[:dims]
        bins = [jnp.asarray(edges)] + ([jnp.asarray([0.0, 10.0 * (n // 2), 10.0 * n])] if dims == 2 else [])
        scale = float(rng.choice([1.0, 0.5]))
        i = np.arange(n)
        for no_eff in (False, True):
            for norm in ("on_sim", "on_pdf"):
                apt.clear_cache()
                order = ["eff"] + list(data) if rng.random() < 0.3 else list(data) + (["eff"] if rng.random() < 0.5 else [])
                if no_eff:
                    order = list(data)
                c = make(ladder(e), data=order, no_eff=no_eff, norm=norm, bins=bins)
                w = np.ones(n) if no_eff else e[i % k] * scale
                want, _ = np.histogramdd(np.array([i + 0.5, 10.0 * i + 5.0][:dims]).T, bins=[np.asarray(b, float) for b in bins], weights=w)
                if norm == "on_pdf" and want.sum() == 0:
                    continue
                want = want * 7.0 / (n if norm == "on_sim" else want.sum())
                _, h = c.simulate_hist(m.key(), n, {"scale": scale, "rate": 7.0})
                m.close(h, want.reshape(np.shape(h)), "histogram of the weighted events", rtol=1e-4, atol=1e-5, no_eff=no_eff, norm=norm, eff=e)
                m.seen("hist", (dims, no_eff, norm, scale))
                # outputs: efficiency last unless it is ignored
                _, out = c.simulate(m.key(), n, {"scale": scale, "rate": 7.0})
                m.check(len(out) == dims + (not no_eff), "outputs", n=len(out))
                m.close(out[0], i + 0.5, "first output", rtol=1e-6)
                if not no_eff:
                    m.close(out[-1], w, "efficiency is the last output", rtol=1e-5, atol=1e-7)
        m.count("histograms")


@case(repeat=(2, 8))
def applied(m):
    """Repeated simulations drop events by their efficiency when asked to."""
    rng = m.rng()
    for j in range(m.pick(3, 8)):
        k, n, t = int(rng.integers(3, 12)), int(rng.integers(10, 60)), int(rng.integers(1, 4))
        e = effs(rng, k)
        if (e[np.arange(n) % k] > 0).sum() == 0:
            continue
        par = {"scale": 1.0, "rate": 1.0}
        w = e[np.arange(n) % k]
        for route in ("multiple_simulations", "multiple_simulations_compile"):
            for apply in (False, True, None):
                apt.clear_cache()
                c = make(ladder(e))
                f = getattr(c, route)
                kw = {} if apply is None else {"apply_eff": apply}
                _, out = f(m.key(), n, par, t, **kw)
                keep = w > 0 if apply else np.ones(n, bool)
                for x, want in zip(out, (np.arange(n) + 0.5, 10.0 * np.arange(n) + 5, w)):
                    m.close(x, np.tile(want[keep], t), "events kept", rtol=1e-5, atol=1e-6, route=route, apply=apply)
                m.check(len(out) == 3, "outputs")
                m.seen("applied", (route, apply))
            # no efficiency at all
            apt.clear_cache()
            c = make(ladder(e), no_eff=True)
            f = getattr(c, route)
            m.raises(RuntimeError, lambda: f(m.key(), n, par, t, apply_eff=True), "efficiency was ignored, it cannot be applied")
            _, out = f(m.key(), n, par, t)
            m.check(len(out) == 2, "outputs without efficiency")
            m.close(out[0], np.tile(np.arange(n) + 0.5, t), "all events", rtol=1e-6)
            m.seen("refused", route)


@case(repeat=(2, 10))
def no_leak(m):
    """Ignoring the efficiency of one workflow does not affect any other."""
    import jax.numpy as jnp

    rng = m.rng()
    n, k = 40, 5
    e = np.array([0.0, 0.25, 0.5, 1.0, 0.75])
    w = e[np.arange(n) % k]
    bins = [jnp.asarray([0.0, 10.0, 25.0, 40.0])]
    par = {"scale": 1.0, "rate": 1.0}
    full = np.histogram(np.arange(n) + 0.5, bins=[0, 10, 25, 40])[0] / n
    weighted = np.histogram(np.arange(n) + 0.5, bins=[0, 10, 25, 40], weights=w)[0] / n

    def judge(c, no_eff, what):
        _, h = c.simulate_hist(m.key(), n, par)
        m.close(h, full if no_eff else weighted, "histogram of " + what, rtol=1e-4, atol=1e-6, no_eff=no_eff)
        if no_eff:
            m.raises(RuntimeError, lambda: c.multiple_simulations(m.key(), n, par, 2, apply_eff=True), "refused for " + what)
        else:
            _, out = c.multiple_simulations(m.key(), n, par, 2, apply_eff=True)
            m.check(len(out[0]) == 2 * (w > 0).sum(), "events dropped for " + what)

    for h in range(m.pick(4, 8)):
        apt.clear_cache()
        history = []
        alive = []
        same = make(ladder(e), name="same", func="f_same", data=("cs1",), no_eff=False, bins=bins)
        for step in range(5):
            no_eff = bool(rng.integers(2))
            route = str(rng.choice(["again", "other", "copy"]))
            if route == "again":
                # the same component object gets another workflow
                apt.clear_cache()
                same.deduce(data_names=["cs1"], func_name=f"f{step}", **({"force_no_eff": no_eff} if no_eff or rng.random() < 0.5 else {}))
                same.compile()
                judge(same, no_eff, "the deduced again")
            elif route == "other":
                c = make(ladder(e), name=f"c{step}", func=f"g{step}", data=("cs1",), no_eff=no_eff, bins=bins)
                alive.append((c, no_eff))
            else:
                c = same.new_component(llh_name=f"l{step}_{h}", pass_binning=True)
                c.rate_name = "rate"
                c.deduce(data_names=["cs1"], func_name="h", **({"force_no_eff": True} if no_eff else {}))
                c.compile()
                alive.append((c, no_eff))
            for c, ne in alive:
                judge(c, ne, "another component")
            history.append((route, no_eff))
            m.seen("history", tuple(history[-2:]))
        # the classes are not changed
        c = make(ladder(e), name="fresh", func="fresh", llh=f"fresh{h}", data=("cs1",), bins=bins)
        judge(c, False, "a fresh component")


@case(repeat=(1, 3))
def weighted_data(m):
    """Weighted data carry the efficiency of the events in the region of interest."""
    from appletree.likelihood import Likelihood

    rng = m.rng()
    apt.clear_cache()
    k, n = 7, 60
    e = np.array([0.0, 0.2, 0.4, 0.6, 0.8, 1.0, 0.5])
    i = np.arange(n)
    data = toys.csv({"cs1": rng.integers(0, 60, 200) + 0.5, "cs2": 10.0 * rng.integers(0, 60, 200) + 5})
    llh = Likelihood(
        name="wd", components={}, data_file_name=data, bins_type="meshgrid", bins_on=["cs1", "cs2"], bins=[6, 5],
        x_clip=[10.0, 50.0], y_clip=[100.0, 500.0],
    )
    cls = toys.component_cls("LadW", ladder(e), norm_type="on_sim", add=False)
    llh.register_component(cls, "a")
    _, out = llh["a"].simulate_weighted_data(m.key(), n, {"scale": 1.0, "a_rate": 90.0})
    out = [np.asarray(o, float) for o in out]
    s1, s2 = i + 0.5, 10.0 * i + 5
    inside = (s1 >= 10) & (s1 <= 50) & (s2 >= 100) & (s2 <= 500)
    m.close(out[0], s1[inside], "events inside", rtol=1e-6)
    m.close(out[1], s2[inside], "events inside", rtol=1e-6)
    m.close(out[2], e[i % k][inside] * 90.0 / n, "weights are efficiencies", rtol=1e-4, atol=1e-6)
    m.seen("weighted", 1)


assert warnings
