"""C12: expected counts follow the rate and add up over components."""

import itertools

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree.likelihood import Likelihood
from appletree.plugin import Plugin
from lib import shipped, toys
from lib.vh import case

PROPERTY = "C12"
RULE = (
    "components of deterministic and random toy plugins with both normalisations, 1D and 2D bins, mixtures of 1-4 simulated and "
    "fixed components in any order, rates 0-1e5; distinct by (normalisation, kind, dimension) and composition of the likelihood"
)
TECHNIQUE = "runtime monitoring: conservation monitor, expected counts against a direct count of the same events"

EX = np.array([0.1007137, 0.2511319, 0.5013713, 0.7015937])
EY = np.array([[10.0373, 30.0371, 90.0373], [20.0371, 50.0373, 80.0379], [5.0373, 40.0371, 95.0377]])


def grid_plugins(tag, offset=0.0, eff="half", par=()):
    """x = (i + 1/2)/n + offset, y a shuffled copy times 100, a known efficiency; nothing random."""

    def x(self, key, parameters, batch_size):
        key, _ = jax.random.split(key)
        scale = parameters[par[0]] if par else 1.0
        return key, ((jnp.arange(batch_size) + 0.5) / batch_size + offset) * scale

    def y(self, key, parameters, batch_size):
        i = (jnp.arange(batch_size) * 7) % batch_size
        return key, 100.0 * (i + 0.5) / batch_size

    def e(self, key, parameters, gx):
        if eff == "one":
            return key, jnp.ones(len(gx))
        return key, jnp.where(gx < 0.4, 0.5, 1.0)

    return [
        toys.plugin(f"GridX{tag}", ["batch_size"], ["gx"], x, par),
        toys.plugin(f"GridY{tag}", ["batch_size"], ["gy"], y),
        toys.plugin(f"GridE{tag}", ["gx"], ["eff"], e),
    ]


def count(x, y, w, dim):
    """Direct count in the bins."""
    h = np.zeros(3) if dim == 1 else np.zeros((3, 2))
    for i in range(3):
        s = (x > EX[i]) & (x < EX[i + 1])
        if dim == 1:
            h[i] = w[s].sum()
        else:
            for j in range(2):
                t = s & (y > EY[i][j]) & (y < EY[i][j + 1])
                h[i, j] = w[t].sum()
    return h


def bins(dim):
    return (EX,) if dim == 1 else (EX, EY)


NAMES = ["gx", "gy"]


def direct(c, key, n, par, dim):
    """Count of the events the component simulates with this key."""
    _, out = c.simulate(key, n, par)
    out = [np.asarray(o, float) for o in out]
    w = np.ones(n) if c.force_no_eff else out[-1]
    return count(out[0], out[1] if dim == 2 else None, w, dim)


@case(repeat=(1, 4))
def simulated(m):
    """One simulated component."""
    rng = m.rng()
    i = 0
    for norm, dim, no_eff in itertools.product(("on_pdf", "on_sim"), (1, 2), (False, True)):
        i += 1
        par0 = {"gx_scale": 0.9} if i % 2 else {}
        plugs = grid_plugins(f"s{i}", par=tuple(par0))
        c = toys.build(plugs, NAMES[:dim], llh_name=f"n{i}", norm_type=norm, rate_name="my_rate", bins=bins(dim), bins_type="irreg",
                       force_no_eff=no_eff)
        for n in (400, 999):
            for rate in (0.0, 1.0, float(rng.uniform(1, 1e4))):
                key = m.key(i, n)
                par = {**par0, "my_rate": rate}
                want = direct(c, key, n, par, dim)
                want = want / want.sum() * rate if norm == "on_pdf" else want / n * rate
                _, h = c.simulate_hist(key, n, par)
                m.close(h, want, "expected histogram", rtol=2e-4, atol=1e-5, norm=norm, dim=dim, n=n, rate=rate, no_eff=no_eff)
                if norm == "on_pdf":
                    m.close(np.sum(h), rate, "sum is not the rate", rtol=2e-4)
                for factor in (0.5, 3.0):
                    _, h2 = c.simulate_hist(key, n, {**par, "my_rate": rate * factor})
                    m.close(h2, np.asarray(h, float) * factor, "not linear in the rate", rtol=2e-4, atol=1e-6)
                # other rates are nothing to this component
                _, h3 = c.simulate_hist(key, n, {**par, "rate": 5.0, "other_rate": 1e9, "my_rate_2": 3.0})
                m.same(np.asarray(h3), np.asarray(h), "another rate changes the histogram")
                if not no_eff:
                    weighted(m, c, key, n, par, h, dim, norm)
        m.raises(Exception, lambda: c.simulate_hist(m.key(), 10, {**par0}), "no rate at all")
        # observables of any sign
        off = toys.build(grid_plugins(f"neg{i}", -0.5), NAMES[:dim], llh_name=f"neg{i}", norm_type=norm, rate_name="my_rate",
                         bins=((EX - 0.5),) if dim == 1 else (EX - 0.5, EY), bins_type="irreg", force_no_eff=no_eff)
        _, out = off.simulate(m.key(i), 500, {"my_rate": 1.0})
        w = np.ones(500) if no_eff else np.asarray(out[-1], float)
        want = count(np.asarray(out[0], float) + 0.5, np.asarray(out[1], float) if dim == 2 else None, w, dim)
        want = want / want.sum() * 100.0 if norm == "on_pdf" else want / 5.0
        _, h = off.simulate_hist(m.key(i), 500, {"my_rate": 100.0})
        m.close(h, want, "expected histogram of negative observables", rtol=2e-4, atol=1e-5, norm=norm, dim=dim, no_eff=no_eff)
        m.seen("simulated", (norm, dim, no_eff))
    # unknown normalisation
    c = toys.build(grid_plugins("u"), NAMES[:1], llh_name="u", norm_type="on_data", rate_name="r", bins=(EX,), bins_type="irreg")
    m.raises(ValueError, lambda: c.simulate_hist(m.key(), 10, {"r": 1.0}), "unknown normalisation")


def weighted(m, c, key, n, par, h, dim, norm):
    _, out = c.simulate_weighted_data(key, n, par)
    m.check(len(out) == dim + 1, "observables and weight", got=len(out))
    out = [np.asarray(o, float) for o in out]
    m.check(len({len(o) for o in out}) == 1, "lengths of the weighted events")
    b = bins(dim)
    for o in range(dim):
        m.check(np.all((out[o] > b[o].min()) & (out[o] < b[o].max())), "weighted events outside of the bins")
    back = count(out[0], out[1] if dim == 2 else None, out[-1], dim)
    m.close(back, h, "weighted events do not reproduce the histogram", rtol=3e-4, atol=1e-5, norm=norm, dim=dim)
    m.count("weighted events", len(out[0]))


@case(repeat=(1, 4))
def random_components(m):
    """Random components: the histogram belongs to the very simulation of its key."""
    rng = m.rng()
    plugs = toys.band_plugins()
    ex = np.linspace(3, 28, 5)
    ey = np.sort(rng.uniform(100, 1000, (4, 4)), axis=1)
    for norm in ("on_pdf", "on_sim"):
        for eps in (False, True):
            c = toys.build(plugs, ["cs1", "cs2"], llh_name=f"rc{norm}{eps}", norm_type=norm, rate_name="r", bins=(ex, ey), bins_type="irreg",
                           add_eps=eps)
            n, par = 5000, {"t_mu": 3.0, "t_sig": 1.0, "t_eff": 0.7, "r": float(rng.uniform(10, 1e4))}
            key = m.key(norm)
            _, (x, y, e) = c.simulate(key, n, par)
            x, y, e = (np.asarray(v, float) for v in (x, y, e))
            raw = np.zeros((4, 3))
            for i in range(4):
                for j in range(3):
                    raw[i, j] = e[(x > ex[i]) & (x <= ex[i + 1]) & (y > ey[i, j]) & (y <= ey[i, j + 1])].sum()
            if eps:
                raw = np.maximum(raw, e.mean())
            scale = par["r"] / (raw.sum() if norm == "on_pdf" else n)
            _, h = c.simulate_hist(key, n, par)
            m.close(h, raw * scale, "expected histogram of a random component", rtol=2e-3, atol=2.01 * scale, norm=norm, floor=eps)
            if norm == "on_pdf":
                m.close(np.sum(h), par["r"], "sum is not the rate", rtol=2e-4)
            if not eps:
                _, (wx, wy, w) = c.simulate_weighted_data(key, n, par)
                wx, wy, w = (np.asarray(v, float) for v in (wx, wy, w))
                back = np.zeros((4, 3))
                for i in range(4):
                    for j in range(3):
                        back[i, j] = w[(wx > ex[i]) & (wx <= ex[i + 1]) & (wy > ey[i, j]) & (wy <= ey[i, j + 1])].sum()
                m.close(back, h, "weighted events of a random component", rtol=2e-3, atol=2.01 * scale)
            m.seen("random", (norm, eps))


def fixed_file(rng, n=300, names=("gx", "gy")):
    x = rng.uniform(-0.2, 1.2, n)
    y = rng.uniform(-10, 110, n)
    # away from the edges
    x = x[np.all(np.abs(x[:, None] - EX) > 1e-3, axis=1)]
    y = y[: len(x)]
    y = np.where(np.any(np.abs(y[:, None] - EY.ravel()) < 1e-2, axis=1), y + 0.05, y)
    y = y[: len(x)]
    return toys.csv({names[1]: y, "other": np.arange(len(x)), names[0]: x}), x, y


@case(repeat=(1, 4))
def fixed(m):
    """Fixed components."""
    rng = m.rng()
    for norm, dim, eps in itertools.product(("on_pdf", "on_sim"), (1, 2), (False, True)):
        path, x, y = fixed_file(rng)
        cls = toys.fixed_cls("FixToy", norm_type=norm, add_eps=eps, add=False)
        c = cls(name="fix", llh_name="fix_llh", bins=bins(dim), bins_type="irreg", file_name=path)
        c.rate_name = "f_rate"
        c.deduce(data_names=NAMES[:dim])
        m.check(c.needed_parameters == {"f_rate"}, "needed parameters of a fixed component", got=c.needed_parameters)
        raw = count(x, y, np.ones(len(x)), dim)
        if eps:
            raw = np.maximum(raw, 1.0)
        for rate in (0.0, 1.0, float(rng.uniform(1, 1e4))):
            want = raw * rate / (raw.sum() if norm == "on_pdf" else len(x))
            for extra in ({}, {"rate": 3.0, "g_rate": 7.0}):
                h = c.simulate_hist({"f_rate": rate, **extra})
                m.close(h, want, "histogram of a fixed component", rtol=2e-4, atol=1e-5, norm=norm, dim=dim, floor=eps, rate=rate)
            out = c.simulate_weighted_data({"f_rate": rate})
            m.check(len(out) == dim + 1, "observables and weight of a fixed component")
            inside = (x > EX[0]) & (x < EX[-1])
            if dim == 2:
                inside &= (y > EY.min()) & (y < EY.max())
            m.close(np.sort(out[0]), np.sort(x[inside]), "events of a fixed component", rtol=1e-5)
            if not eps:
                back = count(np.asarray(out[0], float), np.asarray(out[1], float), np.asarray(out[-1], float), dim)
                m.close(back, want, "weighted events of a fixed component", rtol=2e-4, atol=1e-5)
            # twice the same
            m.same(np.asarray(c.simulate_hist({"f_rate": rate})), np.asarray(c.simulate_hist({"f_rate": rate})), "changes from call to call")
            out2 = c.simulate_weighted_data({"f_rate": rate})
            m.same([np.asarray(o) for o in out2], [np.asarray(o) for o in out], "weighted events change from call to call")
        m.seen("fixed", (norm, dim, eps))


def _ll(data, mu):
    mu = np.asarray(mu, float)
    return -np.inf if np.any(mu <= 0) else float(np.sum(np.asarray(data) * np.log(mu) - mu))


@case(repeat=(1, 6))
def likelihoods(m):
    """The expectation of a likelihood is the sum of its components, whatever their kind and order."""
    rng = m.rng()
    classes = {}
    for k, norm in enumerate(("on_pdf", "on_sim")):
        for kind, off, eff in (("A", 0.0, "half"), ("B", 0.1, "one")):
            tag = f"{kind}{k}"
            classes[("sim", norm, kind)] = toys.component_cls(f"Comp{tag}", grid_plugins("L" + tag, off, eff), norm, False)
        classes[("fix", norm, "A")] = toys.fixed_cls(f"Fix{k}", norm_type=norm, add_eps=False)
    kinds = list(classes)
    data = fixed_file(rng, 600)[0]
    n = 1000
    for trial in range(m.pick(3, 6)):
        dim = 1 + trial % 2
        cfg = dict(data_file_name=data, bins_type="irreg", bins_on=NAMES[:dim] if dim == 2 else "gx",
                   bins=[EX.tolist(), EY.tolist()][:dim])
        cfg.update(dict(x_clip=[0.1, 0.7], y_clip=[5, 95]) if dim == 2 else dict(clip=[0.1, 0.7]))
        llh = Likelihood(name=f"sum{trial}", **cfg)
        chosen = [kinds[int(i)] for i in rng.integers(len(kinds), size=int(rng.integers(1, 5)))]
        if trial == 0:
            chosen = [("sim", "on_pdf", "A"), ("fix", "on_pdf", "A"), ("sim", "on_sim", "B"), ("fix", "on_sim", "A")]
            chosen = [chosen[int(i)] for i in rng.permutation(4)]
        par, wants, parts = {}, [], []
        names = [f"c{int(v)}" for v in rng.permutation(len(chosen))]
        for name, ch in zip(names, chosen):
            rate = float(rng.choice([0.5, 20.0, 3000.0]) * rng.uniform(1, 2))
            par[name + "_rate"] = rate
            if ch[0] == "sim":
                llh.register_component(classes[ch], name)
                x = (np.arange(n) + 0.5) / n + (0.0 if ch[2] == "A" else 0.1)
                y = 100.0 * (((np.arange(n) * 7) % n) + 0.5) / n
                w = np.where(x < 0.4, 0.5, 1.0) if ch[2] == "A" else np.ones(n)
                tot = n
            else:
                path, x, y = fixed_file(rng)
                llh.register_component(classes[ch], name, file_name=path)
                w, tot = np.ones(len(x)), len(x)
            raw = count(x.astype(np.float32).astype(float), y, w, dim)
            part = raw * rate / (raw.sum() if ch[1] == "on_pdf" else tot)
            wants.append(part)
            parts.append((name, ch, part.sum()))
        want = np.sum(wants, axis=0)
        tol = dict(rtol=1e-3, atol=1e-4 + 2.5 * sum(v.sum() / max(tot, 1) for v in wants) / 100)
        key = m.key(trial)
        got = llh.get_num_events_accepted(n, par)
        m.close(got, want.sum(), "accepted events are not the sum over the components", rtol=5e-3, parts=parts)
        _, out = llh.simulate_weighted_data(key, n, par)
        m.check(len(out) == dim + 1, "observables and weight of a likelihood", got=len(out))
        o = [np.asarray(v, float) for v in out]
        back = count(o[0], o[1] if dim == 2 else None, o[-1], dim)
        m.close(back, want, "weighted events of a likelihood", rtol=1e-2, atol=tol["atol"], parts=parts)
        if dim == 1:
            m.close(o[-1].sum(), want.sum(), "total weight", rtol=5e-3)
        _, ll = llh.get_log_likelihood(key, n, par)
        data_hist = np.asarray(llh.data_hist, float)
        ref = _ll(data_hist, back)
        m.check(abs(ll - ref) <= 1e-3 * (abs(ref) + np.sum(data_hist) + want.sum()), "log likelihood of the sum", got=ll, want=ref, parts=parts)
        # linear in each rate alone
        for i, name in enumerate(names):
            p2 = {**par, name + "_rate": 3 * par[name + "_rate"]}
            got2 = llh.get_num_events_accepted(n, p2)
            m.close(got2 - got, 2 * wants[i].sum(), "not linear in the rate of one component", rtol=1e-2,
                    atol=2e-5 * float(got) + 1e-3, component=name, parts=parts)
        # rare and abundant events alike
        for scale in (1e-9, 1e-5, 1e-3, 1e3):
            few = llh.get_num_events_accepted(n, {k: v * scale for k, v in par.items()})
            m.close(few, want.sum() * scale, "accepted events with all rates scaled", rtol=5e-3, atol=0, scale=scale, parts=parts)
        m.count("components", len(chosen))
        m.seen("likelihood", (dim, tuple(c[:2] for c in chosen)))
        m.sample(dim=dim, parts=parts, total=float(got))


@case(repeat=(1, 3))
def bootstrap(m):
    """A component started from a set of selected events is normalised to the number of selected events."""
    rng = m.rng()
    selected = int(rng.integers(50, 500))

    class G4:
        n_events_selected = selected

    class BasePlugin(Plugin):
        def __init__(self, llh_name=None):
            super().__init__(llh_name)
            self.g4 = G4()

    def energy(self, key, parameters, batch_size):
        return key, (jnp.arange(batch_size) + 0.5) / batch_size

    def obs(self, key, parameters, energy):
        return key, energy * 1.0

    def eff(self, key, parameters, energy):
        return key, jnp.where(energy < 0.4, 0.5, 1.0)

    plugs = [
        toys.plugin("ToyBootstrapEnergy", ["batch_size"], ["energy"], energy, base=BasePlugin),
        toys.plugin("BootObs", ["energy"], ["gx"], obs), toys.plugin("BootEff", ["energy"], ["eff"], eff),
    ]
    n = 500
    for norm in ("on_sim", "on_pdf"):
        c = toys.build(plugs, ["gx"], llh_name="boot" + norm, norm_type=norm, rate_name="r", bins=(EX,), bins_type="irreg")
        x = (np.arange(n) + 0.5) / n
        raw = count(x, None, np.where(x < 0.4, 0.5, 1.0), 1)
        want = raw * 30.0 / (selected if norm == "on_sim" else raw.sum())
        _, h = c.simulate_hist(m.key(), n, {"r": 30.0})
        m.close(h, want, "events from a selection", rtol=1e-2, atol=1e-3 + 60.0 / selected, norm=norm, selected=selected)
        m.seen("bootstrap", norm)


@case(repeat=(1, 2))
def shipped_components(m):
    """Shipped components at their central parameters."""
    rng = m.rng()
    wide = (np.linspace(0, 100, 6), np.tile(np.linspace(100, 6000, 5), (5, 1)))
    names = ["ERBand"] if m.quick else ["ERBand", "ERPeak", "NR", "ERBandNestV2"]
    for cname in names:
        b = wide if cname != "NR" else (np.linspace(0, 15, 6), np.tile(np.linspace(10, 700, 5), (5, 1)))
        low = {"s2_threshold": 20.0} if cname == "NR" else {}
        c = shipped.build(cname, ["cs1", "cs2"], llh_name="n" + cname, rate_name="my_rate", bins=b, bins_type="irreg")
        for rate in (1.0, float(rng.uniform(10, 1e4))):
            par = shipped.parameters(cname, my_rate=rate, **low)
            _, h = c.simulate_hist(m.key(), 2000, par)
            m.close(np.sum(h), rate, "sum is not the rate", rtol=3e-4, component=cname)
            m.count("events of shipped components", 2000)
            _, out = c.simulate_weighted_data(m.key(), 2000, par)
            x, y, w = (np.asarray(o, float) for o in out)
            back = np.histogram2d(x, y, bins=(b[0], b[1][0]), weights=w)[0]
            m.close(back, h, "weighted events of a shipped component", rtol=2e-3, atol=2.1 * w.max(), component=cname)
            m.close(w.sum(), rate, "total weight of a shipped component", rtol=1e-3)
        m.seen("shipped", cname)


assert apt
