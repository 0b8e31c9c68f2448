"""C09: maps with uncertainty scale linearly between their curves."""

import itertools

import numpy as np
import jax
from jax import numpy as jnp

import appletree as apt
from appletree.config import SigmaMap
from lib import interp, toys
from lib.record import reads
from lib.vh import case

PROPERTY = "C09"
RULE = (
    "maps with uncertainty of every configuration form (string, three or four entries, per likelihood, default or "
    "configured), map type and method, over scalers of both signs, applied directly and in compiled components of "
    "several likelihoods; each applied value is an event; distinct by (form, type, method, likelihoods)"
)
TECHNIQUE = "runtime monitor: float64 reference of the scaled curves, and a recorder of the parameters read while tracing"

SIGMAS = [0.0, 1.0, -1.0, 0.5, -0.5, 2.5, -3.0, 1e-3, -1e-3]


def _f32(x):
    return np.asarray(x, np.float32).astype(float)


class Curves:
    """Three files of one map and their reference."""

    def __init__(self, rng, kind="point", method="LERP", n=8):
        self.kind, self.method = kind, method
        if kind in ("point", "log_point"):
            self.x = _f32(np.cumsum(rng.uniform(0.5, 2, n)))
            self.v = [_f32(rng.normal(0, 5, n)) for _ in range(3)]
            self.files = [toys.point_map(self.x, v, log=kind == "log_point") for v in self.v]
        else:
            self.lo, self.up = _f32([1.0, 2.0]), _f32([4.0, 9.0])
            self.v = [_f32(rng.normal(0, 5, (3, 4))) for _ in range(3)]
            self.files = [toys.regbin_map(self.lo, self.up, v, types=kind) for v in self.v]
        self.rng = rng

    def queries(self, n=60):
        if self.kind.endswith("point"):
            return _f32(self.rng.uniform(self.x[0], self.x[-1], n))
        return _f32(self.rng.uniform(self.lo, self.up, (n, 2)))

    def one(self, i, q):
        t = np.log10 if self.kind.startswith("log") else (lambda a: a)
        if self.kind.endswith("point"):
            return interp.points(self.method, t(self.x), self.v[i], t(q))
        return interp.grid(self.method, t(self.lo), t(self.up), self.v[i], t(q))

    def want(self, q, sigma):
        (med, ok), (low, _), (up, _) = (self.one(i, q) for i in range(3))
        return med + sigma * ((up - med) if sigma > 0 else (med - low)), ok


def _check(m, apply, cur, scaler, what, extra=None):
    for s in SIGMAS if scaler else [0.0]:
        q = cur.queries()
        par = dict(extra or {})
        if scaler:
            par[scaler] = s
        got = np.asarray(apply(jnp.asarray(q, np.float32), par), float)
        want, ok = cur.want(q, s)
        scale = 5 * (1 + abs(s))
        m.close(got[ok] / scale, want[ok] / scale, what, rtol=1e-4, atol=2e-4, sigma=s, scaler=scaler)
        m.count("applied values", len(q))
        if s in (0.0, 1.0, -1.0) and scaler:
            ref, ok = cur.one({0.0: 0, 1.0: 2, -1.0: 1}[s], q)
            m.close(got[ok], ref[ok], what + f": curve at scaler {s}", rtol=1e-4, atol=1e-3)


def _map(name, default=None, method="LERP", llh_name="llh"):
    kw = {} if default is None else {"default": default}
    c = SigmaMap(name=name, method=method, **kw)
    c.taken_by = "Test"
    c.build(llh_name=llh_name)
    return c


@case(repeat=(1, 5))
def forms(m):
    rng = m.rng()
    n = 0
    for kind, method in itertools.product(("point", "log_point", "regbin", "log_regbin"), ("IDW", "LERP", "NN")):
        if method == "IDW" and "reg" in kind:
            pass
        cur = Curves(rng, kind, method)
        n += 1
        for form in ("three", "four", "string"):
            if m.quick and form == "three" and n % 2:
                continue
            name = f"map{n}_{form}"
            conf = {"three": cur.files, "four": cur.files + [f"other_{n}"], "string": cur.files[0]}[form]
            scaler = {"three": f"{name}_sigma", "four": f"other_{n}", "string": None}[form]
            how = rng.choice(["default", "configured", "per likelihood"])
            if how == "default":
                c = _map(name, list(conf) if isinstance(conf, list) else conf, method)
            else:
                other = Curves(rng, kind, method)
                apt.set_global_config({name: {"llh": conf, "other": other.files} if how == "per likelihood" else conf})
                dflt = list(other.files) if form == "string" else other.files[1]
                c = _map(name, dflt, method)
            m.check(c.required_parameter() == scaler, f"scaler of a map configured as {form}", got=c.required_parameter(),
                    want=scaler, how=how)
            m.check(c.required_parameter("llh") == scaler, f"scaler of a map configured as {form}", how=how)
            _check(m, c.apply, cur, scaler, f"{form} {how} {kind} {method}", {"unrelated": 7.0})
            if form == "string":
                m.check(np.asarray(c.apply(jnp.asarray(cur.queries(), np.float32), {})).shape == (60,),
                        "a static map needs a parameter")
            else:
                m.raises(Exception, lambda: c.apply(jnp.asarray(cur.queries(), np.float32), {"unrelated": 1.0}),
                         "a map with uncertainty works without its scaler")
            m.seen("form", (form, str(how), kind, method))
            m.sample(form=form, how=how, kind=kind, method=method, scaler=scaler)


@case(repeat=(1, 4))
def linear(m):
    """Linear on either side for any scaler, also in compiled code, and elementwise independent."""
    rng = m.rng()
    cur = Curves(rng, "point", "LERP")
    c = _map("lin", list(cur.files))
    q = cur.queries(40)
    f = jax.jit(lambda s: c.apply(jnp.asarray(q, np.float32), {"lin_sigma": s}))
    med = np.asarray(f(0.0), float)
    for sign in (1, -1):
        one = np.asarray(f(1.0 * sign), float)
        for s in rng.uniform(0, 4, m.pick(20, 100)):
            m.close(np.asarray(f(sign * s)), med + s * (one - med), "not linear in the scaler", rtol=1e-4, atol=1e-3, s=s * sign)
        m.seen("side", sign)
    # continuous through zero
    m.close(np.asarray(f(1e-6)), np.asarray(f(-1e-6)), "jumps at scaler zero", rtol=1e-4, atol=1e-3)
    # curves in any order: the median need not lie between
    up = _f32([5.0, 5.0])
    files = [toys.point_map([0, 1], [1, 1]), toys.point_map([0, 1], [3, 3]), toys.point_map([0, 1], up)]
    c = _map("crossed", files)
    v = [float(np.asarray(c.apply(jnp.array([0.5]), {"crossed_sigma": s}))[0]) for s in (0, 1, -1, 2, -2)]
    m.close(v, [1, 5, 3, 9, 5], "curves on the same side of the median", rtol=1e-5)
    # one-sided uncertainties: a file used for two of the three curves
    val = (1.0, 3.0, 7.0)
    files = [toys.point_map([0, 1], [a, a]) for a in val]
    for i, pick in enumerate(itertools.product(range(3), repeat=3)):
        c = _map(f"onesided{i}", [files[k] for k in pick])
        med, low, upp = (val[k] for k in pick)
        for s in (0, 1, -1, 2, -2):
            got = float(np.asarray(c.apply(jnp.array([0.5]), {f"onesided{i}_sigma": s}))[0])
            want = med + s * (upp - med if s > 0 else med - low)
            m.close(got, want, "map with a file used for several of its curves", rtol=1e-5, atol=1e-5, curves=pick, sigma=s)
        m.seen("shared files", pick)


def _user(name, mname, default, q, out, method="LERP"):
    """A plugin that applies a map with uncertainty at fixed positions."""
    def body(self, key, parameters, batch_size):
        return key, getattr(self, mname).apply(jnp.asarray(q, np.float32)[:batch_size], parameters)

    return toys.plugin(name, ["batch_size"], [out], body, jit=True,
                       configs=[SigmaMap(name=mname, default=default, method=method)])


@case(repeat=(1, 6))
def likelihoods(m):
    """Two likelihoods never mix their curves or scalers, whatever the order of building and using them."""
    rng = m.rng()
    cur = {k: Curves(rng, "point", "LERP") for k in ("A", "B", "C")}
    fourth = {"A": "scale_a", "B": None, "C": "static"}
    conf = {"A": cur["A"].files + ["scale_a"], "B": list(cur["B"].files), "C": cur["C"].files[0]}
    scaler = {"A": "scale_a", "B": "mix_sigma", "C": None}
    assert fourth
    q = {k: c.queries(50) for k, c in cur.items()}
    apt.set_global_config({"mix": conf})
    plug = {k: _user(f"User{k}", "mix", list(cur["A"].files), q[k], "val") for k in "ABC"}
    order = [str(v) for v in rng.permutation(list("ABC"))]
    comp = {}
    for k in order:
        comp[k] = toys.build([plug[k]], ["val"], llh_name=k, force_no_eff=True, cls_name=f"Comp{k}")
    m.seen("order", tuple(order))

    def judge(n, what):
        for k in [str(v) for v in rng.permutation(order)]:
            s = float(rng.choice([-2.0, -1.0, 0.0, 1.0, 1.7]))
            want_par = {scaler[k]} if scaler[k] else set()
            m.check(comp[k].needed_parameters == want_par, "needed parameters of a likelihood", llh=k,
                    got=comp[k].needed_parameters, want=want_par)
            par = {scaler[k]: s} if scaler[k] else {}
            _, (v,) = comp[k].simulate(m.key(k, n), n, par)
            want, _ = cur[k].want(q[k][:n], s if scaler[k] else 0.0)
            m.close(v, want, f"{what}: likelihood does not use its own curves", rtol=1e-3, atol=2e-3, llh=k, order=order, sigma=s)
            # the scalers of the others do not matter
            par2 = {"scale_a": 9.0, "mix_sigma": -9.0, **par}
            _, (v2,) = comp[k].simulate(m.key(k, n), n, par2)
            m.same(v2, v, f"{what}: the scaler of another likelihood matters", llh=k)
            m.count("applied values", 2 * n)

    judge(50, "after building")
    judge(31, "traced again")
    got = reads(lambda p: comp["A"].simulate(m.key(), 17, p), {"scale_a": 1.0, "mix_sigma": 1.0})
    m.check(got == {"scale_a"}, "scaler read by likelihood A", got=got)
    got = reads(lambda p: comp["C"].simulate(m.key(), 17, p), {"scale_a": 1.0, "mix_sigma": 1.0})
    m.check(got == set(), "a static map reads a parameter", got=got)
    # a likelihood without entry is refused
    m.raises(Exception, lambda: toys.build([plug["A"]], ["val"], llh_name="D", force_no_eff=True, cls_name="CompD"),
             "missing entry of a likelihood")
    # what is configured afterwards does not matter to what is built
    apt.set_global_config({"mix": {"A": cur["C"].files[0], "B": list(cur["A"].files) + ["x"], "C": list(cur["B"].files)}})
    judge(23, "after another configuration")
    apt.clear_cache()


@case(repeat=(1, 3))
def plugins_of_one_component(m):
    """Two maps of one component have their own scalers; shared names share."""
    rng = m.rng()
    a, b = Curves(rng), Curves(rng)
    q = a.queries(40)
    P1 = _user("UserOne", "map_one", list(a.files), q, "v1")
    P2 = _user("UserTwo", "map_two", list(b.files) + ["map_one_sigma"], q, "v2")
    P3 = _user("UserThree", "map_three", a.files[1], q, "v3")
    c = toys.build([P1, P2, P3], ["v1", "v2", "v3"], force_no_eff=True)
    m.check(c.needed_parameters == {"map_one_sigma"}, "shared scaler", got=c.needed_parameters)
    for s in (-1.0, 0.4):
        _, (v1, v2, v3) = c.simulate(m.key(), 40, {"map_one_sigma": s})
        m.close(v1, a.want(q, s)[0], "first map", rtol=1e-3, atol=2e-3)
        m.close(v2, interp_want(b, q, s), "second map", rtol=1e-3, atol=2e-3)
        m.close(v3, a.one(1, q)[0], "static map", rtol=1e-3, atol=2e-3)
    m.seen("shared", 1)


def interp_want(cur, q, s):
    t = [interp.points(cur.method, cur.x, cur.v[i], q)[0] for i in range(3)]
    return t[0] + s * ((t[2] - t[0]) if s > 0 else (t[0] - t[1]))


@case(repeat=(1, 3))
def part_configured(m):
    """A curve of a map with uncertainty that is configured by its own name too must be the same one."""
    rng = m.rng()
    for i, (k, part) in enumerate(itertools.product(range(3), ("median", "lower", "upper"))):
        apt.clear_cache()
        cur = Curves(rng)
        spare = toys.point_map(cur.x, _f32(rng.normal(0, 5, len(cur.x))))
        name = f"part{i}"
        mine = cur.files[("median", "lower", "upper").index(part)]
        same = {0: mine, 1: {"llh": mine}, 2: {"llh": mine, "other": spare}}[k]
        other = {0: spare, 1: {"llh": spare}, 2: {"llh": spare, "other": mine}}[k]
        files = list(cur.files) if i % 2 else list(cur.files) + [name + "_scaler"]
        for value, good in ((same, True), (other, False)) if rng.integers(2) else ((other, False), (same, True)):
            apt.clear_cache()
            configured = bool(rng.integers(2))
            apt.set_global_config({f"{name}_{part}": value, **({name: {"llh": files}} if configured else {})})
            if rng.integers(2):
                # a plugin which takes this curve alone comes first
                alone = apt.config.Map(name=f"{name}_{part}", method="LERP", default=mine)
                alone.taken_by = "Test"
                alone.build(llh_name="llh")
            make = lambda: _map(name, None if configured else files)  # noqa
            if not good:
                m.raises(Exception, make, "another file for one of the curves", part=part, form=k, configured=configured)
            else:
                _check(m, make().apply, cur, name + ("_sigma" if i % 2 else "_scaler"), "curve configured by its own name")
        m.seen("part configured", (part, k))


@case
def refused(m):
    rng = m.rng()
    cur = Curves(rng)
    m.raises(Exception, lambda: _map("five", list(cur.files) + ["a", "b"]), "five entries")
    m.raises(Exception, lambda: _map("nodefault"), "no default and no configuration")
    apt.set_global_config({"dict_map": {"llh": list(cur.files)}})
    m.raises(Exception, lambda: _map("dict_map", list(cur.files), llh_name="other"), "no entry for the likelihood")
    m.raises(Exception, lambda: _map("dict_map", list(cur.files), llh_name=None), "dictionary without likelihood")
    c = _map("dict_map", cur.files[1], llh_name="llh")
    m.check(c.required_parameter() == "dict_map_sigma", "scaler of a configured map")
    _check(m, c.apply, cur, "dict_map_sigma", "configured map")
    m.seen("refused", 4)
