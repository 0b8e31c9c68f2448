"""C16: parameters are sampled from and scored by their priors."""

import copy

import numpy as np
from scipy import stats

from appletree import Parameter
from appletree.utils import errors_to_two_half_norm_sigmas
from lib import stat, toys
from lib.vh import case

PROPERTY = "C16"
RULE = (
    "random parameter sets (2-9 parameters of all prior types, tight, wide, one-sided and irrelevant ranges), 1500 samples each, values "
    "inside, on, next to and outside of every boundary, histories of set, get and sample; distinct by (prior type, kind of range, situation)"
)
TECHNIQUE = "runtime monitoring: exact distribution tests of the samples, float64 reference of the log prior, reference model of set and get"
TYPES = ("norm", "twohalfnorm", "uniform", "free", "fixed")


def setting(rng, t, how=None):
    """A random parameter; how: its range cuts the prior (tight), one side of it, or not at all."""
    how = how or str(rng.choice(["wide", "tight", "lower", "upper"]))
    mu, s = rng.uniform(-20, 20), rng.uniform(0.1, 5)
    lo, hi = {"wide": (-50, 50), "tight": (-0.7, 1.2), "lower": (0.3, 60), "upper": (-60, -0.2)}[how]
    lo, hi = float(mu + lo * s), float(mu + hi * s)
    i_mu, i_s = float(mu + rng.uniform(-0.5, 0.5) * s), float(s * rng.uniform(0.3, 1))
    mu, s = float(mu), float(s)
    if t == "norm":
        return how, toys.par_norm(mu, s, lo, hi, i_mu, i_s)
    if t == "twohalfnorm":
        return how, toys.par_thn(mu, s, float(s * rng.uniform(0.5, 1.9)), lo, hi, i_mu, i_s)
    if t == "uniform":
        return how, toys.par_uniform(mu - s, mu + s, lo, hi, i_mu, i_s)
    if t == "free":
        return how, toys.par_free(i_mu, i_s, lo, hi)
    return how, toys.par_fixed(mu)


def random_config(rng, n=None, types=TYPES):
    cfg, hows = {}, {}
    n = n or int(rng.integers(2, 10))
    names = [f"{c}{i}" for i, c in enumerate(rng.permutation(list("zyxwvutsrq"))[:n])]
    for k in names:
        hows[k], cfg[k] = setting(rng, str(rng.choice(types)))
    return cfg, hows


def cdf(s, init):
    """Distribution function of a sampled parameter before clipping."""
    a, t = s["prior_args"], s["prior_type"]
    if init or t == "free":
        return lambda x: stats.norm.cdf(x, s["init_mean"], s["init_std"])
    if t == "norm":
        return lambda x: stats.norm.cdf(x, a["mean"], a["std"])
    if t == "uniform":
        return lambda x: stats.uniform.cdf(x, a["lower"], a["upper"] - a["lower"])
    sp, sn = errors_to_two_half_norm_sigmas([a["sigma_pos"], a["sigma_neg"]])
    return lambda x: stat.two_half_norm_cdf(x, a["mu"], sp, sn)


def log_density(s, x):
    a, t = s["prior_args"], s["prior_type"]
    lo, hi = s["allowed_range"]
    if not lo <= x <= hi:
        return -np.inf
    if t == "norm":
        return stats.norm.logpdf(x, a["mean"], a["std"])
    if t == "uniform":
        return 0.0 if a["lower"] <= x <= a["upper"] else -np.inf
    if t == "free":
        return 0.0
    sp, sn = errors_to_two_half_norm_sigmas([a["sigma_pos"], a["sigma_neg"]])
    sig = sp if x >= a["mu"] else sn
    return np.log(2 / (sp + sn) / np.sqrt(2 * np.pi)) - (x - a["mu"]) ** 2 / 2 / sig**2


def judge_samples(m, name, s, x, init, how):
    t = s["prior_type"]
    x = np.asarray(x, float)
    if t == "fixed":
        m.check(np.all(x == s["prior_args"]["val"]), "a fixed parameter changes", parameter=s, got=np.unique(x)[:5])
        m.seen("fixed", init)
        return
    lo, hi = s["allowed_range"]
    m.check(np.all((x >= lo) & (x <= hi)), "a sample outside of the allowed range", range=(lo, hi), got=(x.min(), x.max()), type=t, init=init)
    f = cdf(s, init)
    n = len(x)
    m.pvalue(stat.binom_test((x <= lo).sum(), n, float(f(lo))), "samples clipped to the lower end", type=t, init=init, expected=float(f(lo)), seen=(x <= lo).mean())
    m.pvalue(stat.binom_test((x >= hi).sum(), n, float(1 - f(hi))), "samples clipped to the upper end", type=t, init=init, expected=float(1 - f(hi)), seen=(x >= hi).mean())
    inside = x[(x > lo) & (x < hi)]
    w = f(hi) - f(lo)
    if len(inside) > 20 and w > 1e-6:
        m.pvalue(stat.ks(inside, lambda v: np.clip((f(v) - f(lo)) / w, 0, 1)), "distribution of the samples", type=t, init=init, how=how, setting=s)
    m.count("samples", n)
    m.seen("sampled", (t, how, init))


@case(repeat=(2, 10))
def sampling(m):
    """Samples of the prior and of the initial guess."""
    rng = m.rng()
    np.random.seed(int(rng.integers(2**31)))
    cfg, hows = {}, {}
    for k, t in enumerate(TYPES):
        for how in ("wide", "tight", "lower", "upper")[:: 1 if t != "fixed" else 4]:
            name = f"{'zmab'[k % 4]}{t}_{how}"
            hows[name], cfg[name] = setting(rng, t, how)
    saved = copy.deepcopy(cfg)
    p = Parameter(cfg)
    n = m.pick(600, 2500)
    for init in (False, True):
        got = {k: [] for k in cfg}
        for _ in range(n):
            (p.sample_init if init else p.sample_prior)()
            for k in cfg:
                got[k].append(p.get_parameter(k))
        for k in cfg:
            judge_samples(m, k, cfg[k], got[k], init, hows[k])
        # parameters and successive samples are independent
        free = [k for k in cfg if cfg[k]["prior_type"] != "fixed" and hows[k] == "wide"]
        for a, b in zip(free[:-1], free[1:]):
            m.pvalue(stat.rank_corr(got[a], got[b]), "two parameters are correlated", a=a, b=b, init=init)
        for a in free:
            m.pvalue(stat.rank_corr(got[a][:-1], got[a][1:]), "successive samples are correlated", parameter=a, init=init)
    m.check(cfg == saved, "the configuration of the user is modified")
    m.sample(parameters=list(cfg), samples=n)


@case(repeat=(1, 6))
def two_half_normals(m):
    """The two sides of sampled two-half-normal priors, to a percent."""
    rng = m.rng()
    np.random.seed(int(rng.integers(2**31)))
    cfg = {}
    for i, ratio in enumerate((0.25, 0.6, 1.0, 1.7, 4.0)):
        mu, s = float(rng.uniform(-20, 20)), float(rng.uniform(0.1, 5))
        cfg[f"p{i}"] = toys.par_thn(mu, s, s * ratio, mu - 1000 * s, mu + 1000 * s, mu, s)
    p = Parameter(cfg)
    n = m.pick(6000, 20000)
    got = {k: [] for k in cfg}
    for _ in range(n):
        p.sample_prior()
        for k, v in p.get_all_parameter().items():
            got[k].append(v)
    tail = stats.norm.sf(1)
    for k, s in cfg.items():
        x, a = np.array(got[k], float), s["prior_args"]
        m.pvalue(stat.ks(x, cdf(s, False)), "distribution of the samples of a two-half-normal prior", args=a)
        m.pvalue(stat.binom_test(np.sum(x > a["mu"] + a["sigma_pos"]), n, tail), "samples above the upper error", args=a)
        m.pvalue(stat.binom_test(np.sum(x < a["mu"] - a["sigma_neg"]), n, tail), "samples below the lower error", args=a)
        m.count("samples", n)
        m.seen("two-half-normal", round(a["sigma_neg"] / a["sigma_pos"], 2))


SCALES = (1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e6, 1e9)


@case(repeat=(1, 3))
def scales(m):
    """Priors of any scale."""
    rng = m.rng()
    for t in ("norm", "twohalfnorm", "uniform", "free"):
        for s in SCALES:
            mu = float(rng.normal(0, 3) * s)
            c = {
                "norm": lambda: toys.par_norm(mu, s, mu - 9 * s, mu + 9 * s, mu, s),
                "twohalfnorm": lambda: toys.par_thn(mu, s, 1.5 * s, mu - 9 * s, mu + 9 * s, mu, s),
                "uniform": lambda: toys.par_uniform(mu - 8 * s, mu + 8 * s, mu - 9 * s, mu + 9 * s, mu, s),
                "free": lambda: toys.par_free(mu, s, mu - 9 * s, mu + 9 * s),
            }[t]()
            p = Parameter({"v": c, "other": toys.par_norm(0.0, 1.0, -9, 9, 0.0, 1.0)})
            ref = None
            for d in (0.0, 0.5, -1.0, 2.0, 4.0, -4.0, 9.5, -9.5):
                p.set_parameter({"v": mu + d * s, "other": 0.3})
                got, want = float(p.log_prior), log_density(c, mu + d * s)
                if ref is None:
                    ref = got - want
                if np.isinf(want):
                    m.check(got == -np.inf, "outside, but the log prior is not minus infinity", got=got, scale=s, type=t)
                else:
                    m.close(got - ref, want, "log prior of another scale", rtol=1e-6, atol=1e-6, type=t, scale=s, at=d)
            x = []
            for _ in range(200):
                p.sample_prior()
                x.append((p.get_parameter("v") - mu) / s)
            m.check(np.all(np.isfinite(x)) and 0.2 < np.std(x) < 8, "width of the samples", type=t, scale=s, got=np.std(x))
            m.seen("scale", (t, s))


@case(repeat=(2, 12))
def priors(m):
    """Log prior inside, on and outside of every boundary."""
    rng = m.rng()
    for _ in range(m.pick(4, 10)):
        cfg, hows = random_config(rng)
        p = Parameter(copy.deepcopy(cfg))
        base = {}
        for k, s in cfg.items():
            if s["prior_type"] == "fixed":
                base[k] = s["prior_args"]["val"]
                continue
            lo, hi = s["allowed_range"]
            if s["prior_type"] == "uniform":
                lo, hi = max(lo, s["prior_args"]["lower"]), min(hi, s["prior_args"]["upper"])
            if "mu" in s["prior_args"] or "mean" in s["prior_args"]:
                c = s["prior_args"].get("mu", s["prior_args"].get("mean"))
                w = s["prior_args"].get("std", s["prior_args"].get("sigma_pos"))
                lo, hi = max(lo, c - 5 * w), min(hi, c + 5 * w)
            base[k] = float(rng.uniform(lo, hi))
        ref0 = sum(log_density(s, base[k]) for k, s in cfg.items() if s["prior_type"] != "fixed")
        p.set_parameter(base)
        zero = float(p.log_prior)
        m.check(np.isfinite(zero), "log prior inside", base=base, cfg=cfg)
        for k, s in cfg.items():
            if s["prior_type"] == "fixed":
                for v in (-1e9, 1e9):  # the range of a fixed parameter is not fitted
                    p.set_parameter({**base, k: v})
                    m.close(p.log_prior, zero, "a fixed parameter has a prior", rtol=1e-12)
                continue
            lo, hi = s["allowed_range"]
            marks = [lo, hi] + [v for key, v in s["prior_args"].items() if key in ("lower", "upper", "mean", "mu")]
            trial = [v for q in marks for v in (q, np.nextafter(q, -np.inf), np.nextafter(q, np.inf), q - 0.1, q + 0.1)]
            trial += rng.uniform(lo, hi, 4).tolist() + [-1e12, 1e12, -np.inf, np.inf]
            for v in trial:
                v = float(v)
                p.set_parameter({**base, k: v})
                got = float(p.log_prior)
                d = log_density(s, v)
                data = dict(type=s["prior_type"], value=v, range=(lo, hi), args=s["prior_args"])
                if np.isinf(d):
                    m.check(got == -np.inf, "outside, but the log prior is not minus infinity", got=got, **data)
                    m.count("outside")
                else:
                    want = ref0 - log_density(s, base[k]) + d
                    m.check(abs((got - zero) - (want - ref0)) <= 1e-9 * (abs(want) + abs(ref0) + abs(zero) + abs(got)) + 1e-9,
                            "log prior", got=got - zero, want=want - ref0, **data)
                    m.count("inside")
                m.seen("prior", (s["prior_type"], hows[k], "out" if np.isinf(d) else "in"))
            # two at once outside
            p.set_parameter({**base, k: hi + 1})
            other = [j for j in cfg if j != k and cfg[j]["prior_type"] != "fixed"]
            if other:
                p.set_parameter(other[0], float(cfg[other[0]]["allowed_range"][0] - 1))
            m.check(p.log_prior == -np.inf, "two parameters outside", got=p.log_prior)
        p.set_parameter(base)
        m.check(p.log_prior == zero, "log prior changed by the history", got=p.log_prior, want=zero)


@case(repeat=(2, 12))
def histories(m):
    """Set, get and sample against a dictionary."""
    rng = m.rng()
    cfg, _ = random_config(rng, 8)
    saved = copy.deepcopy(cfg)
    given = copy.deepcopy(cfg)
    p = Parameter(given if rng.random() < 0.5 else toys.dump_json(given, name="p.json"))
    fit = sorted(k for k, s in cfg.items() if s["prior_type"] != "fixed")
    names = list(cfg)
    m.check(list(p.parameter_fit) == fit, "fitted parameters, sorted", got=p.parameter_fit, want=fit)
    model = dict(p.get_all_parameter())
    m.check(set(model) == set(names), "parameters", got=set(model))
    for step in range(m.pick(60, 150)):
        op = str(rng.choice(["set dict", "set list", "set one", "get list", "get one", "get set", "array", "all", "prior", "init", "unknown",
                             "length", "exist", "fill"]))
        some = [str(v) for v in rng.permutation(names)[: int(rng.integers(1, len(names) + 1))]]
        vals = [float(v) for v in rng.uniform(-10, 10, len(some))]
        if op == "set dict":
            d = dict(zip(some, vals))
            p.set_parameter(d)
            m.check(d == dict(zip(some, vals)), "the given values are modified")
            model.update(d)
        elif op == "set list":
            p.set_parameter(some, vals)
            model.update(zip(some, vals))
        elif op == "set one":
            v = vals[0] if step % 2 else int(vals[0])
            p.set_parameter(some[0], v)
            model[some[0]] = v
        elif op == "get list":
            m.same(np.asarray(p.get_parameter(some), float), np.array([model[k] for k in some], float), "get in the order asked for", names=some)
            m.same(np.asarray(p[some], float), np.array([model[k] for k in some], float), "item in the order asked for")
        elif op == "get one":
            m.check(p.get_parameter(some[0]) == model[some[0]], "get one", name=some[0])
        elif op == "get set":
            m.same(np.sort(np.asarray(p.get_parameter(set(some)), float)), np.sort([float(model[k]) for k in some]), "get a set")
        elif op == "array":
            m.same(np.asarray(p.parameter_fit_array, float), np.array([model[k] for k in fit], float), "array of the fitted parameters")
        elif op in ("prior", "init"):
            (p.sample_prior if op == "prior" else p.sample_init)()
            model = dict(p.get_all_parameter())
            for k, s in cfg.items():
                if s["prior_type"] == "fixed":
                    m.check(model[k] == s["prior_args"]["val"], "fixed parameter after sampling", got=model[k])
                else:
                    m.check(s["allowed_range"][0] <= model[k] <= s["allowed_range"][1], "sampled outside", name=k)
        elif op == "unknown":
            bad = some + ["no_such_parameter"]
            bad = [bad[i] for i in rng.permutation(len(bad))]
            m.raises(Exception, lambda: p.set_parameter(bad, [1.0] * len(bad)), "unknown name in a list")
            m.raises(Exception, lambda: p.set_parameter(dict.fromkeys(bad, 1.0)), "unknown name in a dictionary")
            m.raises(Exception, lambda: p.set_parameter("no_such_parameter", 1.0), "unknown name")
            m.raises(Exception, lambda: p.get_parameter(bad), "unknown name asked for")
            m.raises(Exception, lambda: p.get_parameter("no_such_parameter"), "unknown name asked for")
        elif op == "length":
            m.raises(Exception, lambda: p.set_parameter(some, vals + [1.0]), "more values than names")
            m.raises(Exception, lambda: p.set_parameter(some + ["x"], vals), "fewer values than names")
        elif op == "exist":
            m.check(p.check_parameter_exist(some) is True, "existing parameters", names=some)
            m.check(p.check_parameter_exist(some[0]) is True, "existing parameter")
            m.check(p.check_parameter_exist(some + ["nope"]) is False, "missing parameter in a list")
            m.check(p.check_parameter_exist("nope") is False, "missing parameter")
            ok, missing = p.check_parameter_exist(["nope"] + some + ["neither"], return_not_exist=True)
            m.check(ok is False and list(missing) == ["nope", "neither"], "list of the missing parameters", got=missing)
            ok, missing = p.check_parameter_exist(some, return_not_exist=True)
            m.check(ok is True and list(missing) == [], "nothing missing", got=missing)
        now = dict(p.get_all_parameter())
        m.check(now == model and set(now) == set(names), "state after the operation", op=op, got=now, want=model)
        m.count("operations")
        m.seen("operation", op)
    m.check(given == saved, "the configuration of the user is modified")
    # another manager of the same configuration is independent
    q = Parameter(given)
    before = dict(p.get_all_parameter())
    q.set_parameter(names[0], 123.0)
    q.sample_prior()
    m.check(dict(p.get_all_parameter()) == before, "two managers share their values")
    if fit:
        given[fit[0]]["allowed_range"][0] = 1e9
        p.sample_init()
        m.check(p.get_parameter(fit[0]) < 1e9, "changing the given configuration changes the manager")
    mine = {"a": toys.par_norm(1.0, 2.0, -9, 9, 0.0, 1.0), "b": toys.par_fixed(3.0)}
    r = Parameter(mine)
    r.set_parameter({"a": 2.0})
    want = r.log_prior
    mine["a"]["prior_args"]["std"] = 0.01
    mine["a"]["allowed_range"][1] = 1.0
    mine["b"]["prior_args"]["val"] = 7.0
    m.check(r.log_prior == want, "changing the given configuration changes the prior", got=r.log_prior, want=want)
    r.sample_init()
    m.check(r.get_parameter("b") == 3.0, "changing the given configuration changes a fixed parameter")
    m.raises(Exception, lambda: Parameter(None), "no configuration")
    m.raises(Exception, lambda: Parameter("no_such_file.json"), "missing configuration")
    # seeds
    for seed in (0, 1, 7):
        q.init_parameter(seed=seed)
        a = dict(q.get_all_parameter())
        q.sample_prior()
        q.init_parameter(seed=seed)
        m.check(dict(q.get_all_parameter()) == a, "the same seed gives other parameters", seed=seed)
    q.init_parameter(seed=8)
    m.check(len(fit) == 0 or dict(q.get_all_parameter()) != a or all(v in cfg[k]["allowed_range"] for k, v in a.items() if k in fit),
            "another seed gives the same parameters")


@case
def shipped(m):
    """The shipped parameter files."""
    import glob
    import os
    import json
    import appletree

    files = sorted(glob.glob(os.path.join(os.path.dirname(appletree.__file__), "parameters", "*.json")))
    m.check(len(files) > 3, "no parameter files")
    for f in files:
        with open(f) as fp:
            cfg = json.load(fp)
        p = Parameter(f)
        x = {k: [] for k in cfg}
        for i in range(30):
            p.sample_init() if i % 2 else p.sample_prior()
            for k in cfg:
                x[k].append(p.get_parameter(k))
            lp = p.log_prior
            want = sum(log_density(s, x[k][-1]) for k, s in cfg.items() if s["prior_type"] != "fixed")
            m.check(np.isinf(lp) == np.isinf(want), "log prior of a sample", file=f, got=lp, want=want)
        for k, s in cfg.items():
            if s["prior_type"] == "fixed":
                m.check(np.all(np.array(x[k]) == s["prior_args"]["val"]), "fixed parameter", file=f, name=k)
            else:
                lo, hi = s["allowed_range"]
                m.check(np.all((np.array(x[k]) >= lo) & (np.array(x[k]) <= hi)), "outside", file=f, name=k)
        m.seen("file", os.path.basename(f))
