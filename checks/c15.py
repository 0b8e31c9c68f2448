"""C15: the literature likelihood sums weighted log densities at the simulated yields."""

import copy
import json

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree.likelihood import LikelihoodLit
from appletree.utils import get_file_path
from lib import shipped, toys
from lib.vh import case

PROPERTY = "C15"
RULE = (
    "random measurement points (1-40), widths, yields (close, far, at the centre, undefined, infinite), efficiencies, densities and batch "
    "sizes, and the shipped literature likelihoods; distinct by (density, number of points, situation)"
)
TECHNIQUE = "runtime monitoring: float64 reference of the density at the observed yields"
BATCH = []


def toy(tag="L", n=1):
    """Energies, yields and efficiencies are parameters; records the batch sizes it is simulated with."""

    def en(self, key, parameters, batch_size):
        BATCH.append(batch_size)
        key, _ = jax.random.split(key)
        return key, jnp.tile(parameters["en"], (batch_size, 1))

    def yi(self, key, parameters, l_energy):
        return key, jnp.tile(parameters["yi"], (l_energy.shape[0], 1))

    def ef(self, key, parameters, l_energy):
        return key, jnp.tile(parameters["ef"], (l_energy.shape[0], 1))

    plugs = [
        toys.plugin("LitEnergy" + tag, ["batch_size"], ["l_energy"], en, ("en",)),
        toys.plugin("LitYield" + tag, ["l_energy"], ["l_yield"], yi, ("yi",)),
        toys.plugin("LitEff" + tag, ["l_energy"], ["eff"], ef, ("ef",)),
    ]
    return toys.component_cls("LitComp" + tag, plugs, "", False)


def log_density(kind, args, x, y):
    """Of every measurement point."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    with np.errstate(all="ignore"):
        if kind == "norm":
            mu, sp, sn = args["loc"], args["scale"], args["scale"]
        elif kind == "twohalfnorm":
            mu, sp, sn = args["mu"], args["sigma_pos"], args["sigma_neg"]
        else:
            i = np.interp
            mu, sp, sn = (i(x, args["x"], args[k]) for k in ("y", "yerr_upper", "yerr_lower"))
        mu, sp, sn = (np.asarray(v, float) for v in (mu, sp, sn))
        s = np.where(y < mu, sn, sp)
        out = np.log(2 / (sp + sn) / np.sqrt(2 * np.pi)) - (y - mu) ** 2 / (2 * s**2)
        if kind == "band":
            out = np.where((x < np.min(args["x"])) | (x > np.max(args["x"])), -np.inf, out)
    return out


def arguments(rng, kind, n):
    if kind == "norm":
        return dict(loc=rng.uniform(1, 10, n), scale=rng.uniform(0.1, 2, n))
    if kind == "twohalfnorm":
        return dict(mu=rng.uniform(1, 10, n), sigma_pos=rng.uniform(0.1, 2, n), sigma_neg=rng.uniform(0.1, 2, n))
    k = max(int(rng.integers(2, 10)), 2)
    return dict(x=np.cumsum(rng.uniform(0.3, 3, k)), y=rng.uniform(1, 10, k), yerr_upper=rng.uniform(0.1, 2, k),
                yerr_lower=rng.uniform(0.1, 2, k))


def make(name, kind, args, cls, order=None, **kw):
    keys = list(args)
    if order is not None:
        keys = [keys[i] for i in order]
    cfg = dict(bins_on=["l_energy", "l_yield"], variable_type=kind, logpdf_args=[keys, [np.asarray(args[k]).tolist() for k in keys]], **kw)
    saved = copy.deepcopy(cfg)
    llh = LikelihoodLit(name=name, **cfg)
    assert cfg == saved
    llh.register_component(cls, "lit")
    return llh


def evaluate(m, llh, key, batch, par):
    del BATCH[:]
    k2, ll = llh.get_log_likelihood(key, batch, par)
    m.check(all(b == 1 for b in BATCH), "not one batch is simulated", batches=list(BATCH))
    m.check(isinstance(ll, float) and not np.isnan(ll), "undefined log likelihood", got=ll)
    m.check(not np.array_equal(np.asarray(k2), np.asarray(key)), "the key is returned unchanged")
    return ll


def expect(m, got, kind, args, x, y, e, what, **data):
    t = log_density(kind, args, np.asarray(x, np.float32), np.asarray(y, np.float32)) * np.asarray(e, np.float32)
    want = float(np.sum(t))
    if np.isnan(want) or want == -np.inf:
        m.check(got == -np.inf, what + ": not minus infinity", got=got, kind=kind, **data)
        m.count("minus infinity")
    else:
        m.check(abs(got - want) <= 1e-4 * np.sum(np.abs(t)) + 1e-4, what, got=got, want=want, kind=kind, **data)
        m.count("finite values")
    return want


def _x(rng, kind, args, n):
    return rng.uniform(args["x"].min(), args["x"].max(), n) if kind == "band" else rng.uniform(0.5, 20, n)


@case(repeat=(2, 12))
def values(m):
    """Random points, widths, yields and efficiencies."""
    rng = m.rng()
    cls = toy("V")
    for t, kind in enumerate(("twohalfnorm", "norm", "band")):
        for n in (1, int(rng.integers(2, 40))):
            args = arguments(rng, kind, n)
            llh = make(f"v{kind}{n}", kind, args, cls, rng.permutation(len(args)))
            x = _x(rng, kind, args, n)
            center = {"twohalfnorm": lambda: args["mu"], "norm": lambda: args["loc"], "band": lambda: np.interp(x, args["x"], args["y"])}[kind]()
            for far in (0.0, 1.0, 20.0):
                y = center + far * rng.normal(0, 1, n)
                for eff in (np.ones(n), rng.uniform(0, 1, n), (rng.random(n) < 0.5).astype(float), np.zeros(n)):
                    par = dict(en=jnp.asarray(x), yi=jnp.asarray(y), ef=jnp.asarray(eff), lit_rate=1.0)
                    first = None
                    for batch in (1, int(rng.integers(2, 1000))):
                        got = evaluate(m, llh, m.key(batch), batch, par)
                        expect(m, got, kind, args, x, y, eff, "log likelihood", n=n, far=far, batch=batch)
                        first = got if first is None else first
                        m.check(got == first, "the batch size changes the result", got=got, first=first)
                        m.seen("value", (kind, n, far))
            # every point belongs to its own arguments
            if n > 1 and kind != "band":
                p = np.roll(np.arange(n), 1)
                y = center + 0.1 * rng.normal(0, 1, n)
                par = dict(en=jnp.asarray(x[p]), yi=jnp.asarray(y[p]), ef=jnp.ones(n), lit_rate=1.0)
                expect(m, evaluate(m, llh, m.key(), 1, par), kind, args, x[p], y[p], np.ones(n), "permuted yields", n=n)
            # the rate is no part of it
            par["lit_rate"] = 1e6
            m.check(evaluate(m, llh, m.key(), 1, par) == evaluate(m, llh, m.key(), 1, {**par, "lit_rate": 0.0}), "the rate matters")
        m.sample(density=kind, points=n, log_likelihood=got)


@case(repeat=(1, 4))
def invalid(m):
    """Invalid densities give minus infinity."""
    rng = m.rng()
    cls = toy("I")
    n = 5
    for kind in ("twohalfnorm", "norm", "band"):
        args = arguments(rng, kind, n)
        llh = make(f"i{kind}", kind, args, cls)
        x = _x(rng, kind, args, n)
        y = rng.uniform(1, 10, n)
        for place in range(n):
            for what, bx, by in (("nan yield", None, np.nan), ("inf yield", None, np.inf), ("-inf yield", None, -np.inf),
                                 ("below", 1e-3, None), ("above", 1e3, None), ("nan energy", np.nan, None)):
                if kind != "band" and bx is not None:
                    continue  # the energy has no part in it
                xx, yy = x.copy(), y.copy()
                if bx is not None:
                    xx[place] = bx
                if by is not None:
                    yy[place] = by
                for eff in (np.ones(n), np.full(n, 0.3)):
                    par = dict(en=jnp.asarray(xx), yi=jnp.asarray(yy), ef=jnp.asarray(eff), lit_rate=1.0)
                    got = evaluate(m, llh, m.key(), 1, par)
                    m.check(got == -np.inf, "not minus infinity", what=what, got=got, kind=kind)
                m.seen("invalid", (kind, what))
                # a point of zero efficiency: whatever it counts, the result is a number or minus infinity
                eff = np.ones(n)
                eff[place] = 0
                evaluate(m, llh, m.key(), 1, dict(en=jnp.asarray(xx), yi=jnp.asarray(yy), ef=jnp.asarray(eff), lit_rate=1.0))
        if kind == "band":  # the end points of the band belong to it
            ends = np.array([args["x"][0], args["x"][-1], args["x"][0] * 1.0001, args["x"][-1] * 0.9999, args["x"][0] * 1.01])
            ends = ends.astype(np.float32)
            ok = np.clip(ends, args["x"][0], args["x"][-1])
            par = dict(en=jnp.asarray(ends), yi=jnp.asarray(y), ef=jnp.where(ends == ok.astype(np.float32), 1.0, 0.0), lit_rate=1.0)
            if np.all(ok.astype(np.float64) == ends.astype(np.float64)):
                expect(m, evaluate(m, llh, m.key(), 1, par), kind, args, ends, y, np.ones(n), "ends of the band")


@case
def refused(m):
    """Anything but two observables, a supported density and exactly one component."""
    rng = m.rng()
    cls = toy("R")
    args = arguments(rng, "norm", 3)
    la = [list(args), [v.tolist() for v in args.values()]]
    good = dict(bins_on=["l_energy", "l_yield"], variable_type="norm", logpdf_args=la)
    LikelihoodLit(name="ok", **good)
    for kind in ("normal", "poisson", "", None, "Norm", "uniform"):
        m.raises(Exception, lambda: LikelihoodLit(name="r", **{**good, "variable_type": kind}), f"density {kind!r}")
        m.seen("refused density", repr(kind))
    for on in (["l_energy"], ["l_energy", "l_yield", "eff"], []):
        m.raises(Exception, lambda: LikelihoodLit(name="r", **{**good, "bins_on": on}), f"observables {on}")
        m.seen("refused observables", len(on))
    for k in good:
        m.raises(Exception, lambda: LikelihoodLit(name="r", **{i: v for i, v in good.items() if i != k}), f"no {k}")
    par = dict(en=jnp.ones(3), yi=jnp.ones(3), ef=jnp.ones(3), lit_rate=1.0)
    llh = LikelihoodLit(name="empty", **good)
    m.raises(Exception, lambda: llh.get_log_likelihood(m.key(), 1, par), "no component")
    llh.register_component(cls, "lit")
    want = evaluate(m, llh, m.key(), 1, par)
    m.raises(Exception, lambda: llh.register_component(cls, "second"), "second component")
    m.check(list(llh.components) == ["lit"], "a refused component is registered", got=list(llh.components))
    m.check(evaluate(m, llh, m.key(), 1, par) == want, "a refused component changes the result")
    expect(m, want, "norm", args, np.ones(3), np.ones(3), np.ones(3), "refused")
    m.raises(Exception, lambda: llh.get_log_likelihood(m.key(), 1, {k: v for k, v in par.items() if k != "yi"}), "parameter withheld")


@case(repeat=(1, 3))
def contexts(m):
    """Several literature likelihoods in a context keep their own arguments."""
    rng = m.rng()
    toy("C")
    like, all_args = {}, {}
    for i, kind in enumerate(("twohalfnorm", "norm", "band", "norm")):
        args = arguments(rng, kind, 4)
        all_args[f"l{i}"] = (kind, args)
        like[f"l{i}"] = dict(
            type="LikelihoodLit", components={f"c{i}": "LitCompC"}, copy_parameters={f"c{i}_rate": "rate"},
            bins_on=["l_energy", "l_yield"], variable_type=kind, logpdf_args=[list(args), [np.asarray(v).tolist() for v in args.values()]],
            parameter_alias={f"yi{i}": "yi", f"en{i}": "en"},
        )
    par = {"rate": toys.par_fixed(1.0), "ef": toys.par_fixed(1.0)}
    par.update({f"{k}{i}": toys.par_fixed(1.0) for i in range(4) for k in ("yi", "en")})
    tree = apt.Context({"configs": {}, "likelihoods": like, "par_config": toys.dump_json(par, name="p.json")})
    total, values = 0.0, {"ef": jnp.asarray(rng.uniform(0, 1, 4))}
    for i, (name, (kind, args)) in enumerate(all_args.items()):
        values[f"yi{i}"], values[f"en{i}"] = jnp.asarray(rng.uniform(1, 10, 4)), jnp.asarray(_x(rng, kind, args, 4))
        values[f"c{i}_rate"] = 1.0
    for i, (name, (kind, args)) in enumerate(all_args.items()):
        got = evaluate(m, tree[name], m.key(i), 1, values)
        total += expect(m, got, kind, args, values[f"en{i}"], values[f"yi{i}"], values["ef"], "likelihood of a context", name=name)
        m.seen("context", (name, kind))


@case(repeat=(1, 2))
def shipped_literature(m):
    """The shipped literature measurements."""
    rng = m.rng()
    with open(get_file_path("literature_lyqy.json")) as f:
        ins = json.load(f)
    names = list(ins["likelihoods"])
    chosen = [names[int(rng.integers(2))], names[2 + int(rng.integers(2))]] if m.quick else names
    tree = apt.Context({**ins, "likelihoods": {k: ins["likelihoods"][k] for k in names}})
    for name in chosen:
        llh, cfg = tree[name], ins["likelihoods"][name]
        args = {k: np.array(v) for k, v in zip(*cfg["logpdf_args"])}
        par = shipped.parameters("MonoEnergiesYields", **{f"{n}_field": 200.0 for n in names}, **{f"{n}_nr_rate": 1.0 for n in names})
        for scale in (1.0, 1.02):
            par["alpha"] = shipped.parameters("MonoEnergiesYields")["alpha"] * scale
            key = m.key(name)
            own = dict(par)
            own["field"] = own.pop(f"{name}_field")
            _, out = next(iter(llh.components.values())).simulate(key, 1, own)
            out = [np.asarray(o, float) for o in out]
            _, got = llh.get_log_likelihood(key, 10, par)
            t = (log_density(cfg["variable_type"], args, out[0], out[1]) * out[2]).ravel()
            want = float(np.sum(t))
            want = -np.inf if np.isnan(want) else want
            m.check(got == want or abs(got - want) <= 1e-4 * np.sum(np.abs(t)) + 1e-4, "shipped literature", name=name, got=got, want=want)
            m.check(out[0].size >= (8 if cfg["variable_type"] == "twohalfnorm" else 1), "measurement points", n=out[0].size)
        m.seen("shipped", name)
        m.sample(name=name, log_likelihood=got)
