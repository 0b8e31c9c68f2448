"""C04: random samplers draw from the distribution they name."""

import json
import os
import subprocess
import sys

import numpy as np
import jax
from scipy import stats

from appletree import randgen as rg
from lib import keys, stat
from lib.vh import case, REPO

PROPERTY = "C04"
RULE = (
    "every sampler of randgen with random valid parameters (several rows of one call), broadcasting and "
    "explicit shapes and degenerate parameters; each drawn sample is an event, judged against the exact "
    "distribution function; distinct by (sampler, decade of each parameter, shape form)"
)
TECHNIQUE = (
    "runtime monitor: exact-distribution oracle (KS, chi-square, correlation) over large samples of the real "
    "samplers, plus a trace of all keys consumed by jax.random"
)

N = 20000


def _strata(rng, n):
    """n uniform numbers, one in each n-th of the unit interval, in random order."""
    return (rng.permutation(n) + rng.uniform(0, 1, n)) / n


def _loguni(rng, lo, hi, n):
    return np.exp(np.log(lo) + _strata(rng, n) * np.log(hi / lo))


# name -> (parameters of k rows, continuous cdf or discrete pmf of one row)


def _uniform(rng, k):
    lo = rng.normal(0, 10, k)
    return [lo, lo + _loguni(rng, 1e-2, 1e3, k)]


def _poisson(rng, k):
    return [_loguni(rng, 1e-2, 3e3, k)]


def _gamma(rng, k):
    return [_loguni(rng, 0.2, 1e3, k), _loguni(rng, 1e-2, 1e2, k)]


def _normal(rng, k):
    return [rng.normal(0, 10, k), _loguni(rng, 1e-2, 1e2, k)]


def _skew(rng, k):
    return [rng.normal(0, 4, k), rng.normal(0, 10, k), _loguni(rng, 0.1, 1e2, k)]


def _prob(rng, k):
    p = rng.uniform(0, 1, k)
    p[0], p[-1] = 10 ** rng.uniform(-3, -1), 1 - 10 ** rng.uniform(-3, -1)
    return p


def _binomial(rng, k):
    return [_prob(rng, k), np.round(_loguni(rng, 1, 5e3, k))]


def _nbinom(rng, k):
    return [np.clip(_prob(rng, k), 0.02, 0.98), _loguni(rng, 0.5, 200, k)]


def _gpois(rng, k):
    return [_loguni(rng, 0.05, 300, k), 0.7 * _strata(rng, k)]


def _skewcdf(a, loc, scale):
    return lambda x: stats.skewnorm.cdf(x, a, loc, scale)


CONT = {
    "uniform": (_uniform, lambda lo, hi: stats.uniform(lo, hi - lo)),
    "gamma": (_gamma, lambda a, b: stats.gamma(a, scale=1 / b)),
    "normal": (_normal, lambda mu, s: stats.norm(mu, s)),
    "skewnormal": (_skew, lambda a, mu, s: stats.skewnorm(a, mu, s)),
}
DISC = {
    "poisson": (_poisson, lambda lam: stats.poisson(lam)),
    "bernoulli": (lambda rng, k: [_prob(rng, k)], lambda p: stats.bernoulli(p)),
    "binomial": (_binomial, lambda p, n: stats.binom(n, p)),
    "negative_binomial": (_nbinom, lambda p, n: stats.nbinom(n, p)),
    "generalized_poisson": (_gpois, None),
}
SUPPORT0 = {"gamma", "poisson", "binomial", "negative_binomial", "generalized_poisson"}


def _mag(v):
    return int(np.floor(np.log10(abs(v) + 1e-9)))


def _judge(m, name, args, x):
    """Distribution, support and independence of the row x drawn with args."""
    m.count("samples", len(x))
    if name in CONT:
        m.check(x.dtype == rg.FLOAT, f"{name}: not {rg.FLOAT}", dtype=str(x.dtype))
        m.check(np.isfinite(x), f"{name}: sample is not finite", args=args)
        d = CONT[name][1](*args)
        if name == "uniform":
            m.check((x >= np.float32(args[0])) & (x <= np.float32(args[1])), "uniform outside of its range", args=args)
        if name == "gamma":
            m.check(x >= 0, "negative gamma", args=args)
        m.pvalue(stat.ks(x, d.cdf), f"{name} does not follow its distribution", args=args, mean=x.mean(), var=x.var())
    else:
        m.check(x.dtype == rg.INT, f"{name}: not {rg.INT}", dtype=str(x.dtype))
        m.check(x >= 0, f"{name}: negative count", args=args)
        if name == "binomial":
            m.check(x <= args[1], "binomial above its count", args=args)
        if name == "bernoulli":
            m.check(x <= 1, "bernoulli is neither 0 nor 1", args=args)
        kmax = max(int(x.max()), 10) * 2
        if name == "generalized_poisson":
            pmf = lambda k: np.exp(stat.gpois_logpmf(k, *args))  # noqa
        else:
            pmf = DISC[name][1](*args).pmf
        p, nb = stat.chi2_discrete(x, pmf, kmax)
        m.pvalue(p, f"{name} does not follow its distribution", args=args, mean=x.mean(), var=x.var(), bins=nb)
    m.pvalue(stat.rank_corr(x[:-1], x[1:]), f"{name}: neighbouring draws of one call are correlated", args=args)
    h = len(x) // 2
    m.pvalue(stat.rank_corr(x[:h], x[h:2 * h]), f"{name}: halves of one call are correlated", args=args)


def _spec(name):
    return CONT[name] if name in CONT else DISC[name]


@case(repeat=(1, 12))
def distributions(m):
    rng = m.rng()
    n = m.pick(N, 3 * N)
    k = 4
    names = list(CONT) + list(DISC)
    key2, chain = m.key(), []
    for name in [names[i] for i in rng.permutation(len(names))]:
        args = _spec(name)[0](rng, k)
        args = [a.astype(np.float32).astype(float) for a in args]
        shape = (k, n)
        key = key2
        func = getattr(rg, name)
        if rng.random() < 0.5:
            call, kw = [a[:, None] for a in args], {"shape": shape}
        else:
            call, kw = [np.tile(a[:, None], (1, n)) for a in args], {}
        key2, x = func(key, *call, **kw)
        x = np.asarray(x)
        m.check(x.shape == shape, f"{name}: shape", got=x.shape)
        m.check(keys.raw(key2) != keys.raw(key), f"{name} returns the key it was given")
        for i in range(k):
            a = [float(v[i]) for v in args]
            _judge(m, name, a, x[i])
            m.seen(name, tuple(_mag(v) for v in a))
            m.sample(sampler=name, args=a, mean=float(x[i].mean()), var=float(x[i].var()))
        for i in range(k - 1):
            m.pvalue(stat.rank_corr(x[i], x[i + 1]), f"{name}: rows of one call are correlated")
        for other, v in chain:
            m.pvalue(stat.rank_corr(x[0], v), f"{other} and {name} of one chain are correlated")
        chain.append((name, x[0]))
        # the returned key gives independent samples
        _, y = func(key2, *call, **kw)
        y = np.asarray(y)
        for i in range(k):
            m.pvalue(stat.rank_corr(x[i], y[i]), f"{name}: successive calls are correlated")
            if name in CONT:
                m.check(np.mean(x[i] == y[i]) < 0.01, f"{name}: successive calls repeat their samples")
        # a pure function of the key
        _, z = func(key, *call, **kw)
        m.same(z, x, f"{name}: not a function of its key")


@case(repeat=(1, 6))
def clipped_normal(m):
    rng = m.rng()
    n = m.pick(N, 5 * N)
    for form in ("both", "lower", "upper", "far"):
        mu, s = float(rng.normal(0, 5)), float(_loguni(rng, 0.1, 10, 1)[0])
        lo, hi = mu + s * float(rng.uniform(-2, 0.5)), None
        hi = lo + s * float(rng.uniform(0.3, 3))
        if form == "lower":
            hi = None
        elif form == "upper":
            lo, hi = None, lo
        elif form == "far":
            lo, hi = mu + 8 * s, mu + 9 * s
        kw = {} if form != "lower" else {"shape": (n,)}
        mean = np.float32(mu) if kw else np.full(n, mu, np.float32)
        key = m.key(form)
        key2, x = rg.truncate_normal(key, mean, s, lo, hi, **kw)
        x = np.asarray(x)
        m.check(keys.raw(key2) != keys.raw(key), "truncate_normal returns the key it was given")
        m.check(x.shape == (n,) and x.dtype == rg.FLOAT, "truncate_normal: shape or type", got=x.shape)
        m.check(np.isfinite(x), "truncate_normal is not finite")
        L = -np.inf if lo is None else np.float32(lo)
        H = np.inf if hi is None else np.float32(hi)
        m.check((x >= L) & (x <= H), "truncate_normal outside of its bounds", lo=lo, hi=hi, min=x.min(), max=x.max())
        d = stats.norm(mu, s)
        for what, k, p in (("lower", np.sum(x == L), d.cdf(L)), ("upper", np.sum(x == H), d.sf(H))):
            m.pvalue(stat.binom_test(k, n, p), f"truncate_normal: mass at the {what} bound", form=form, k=int(k),
                     want=p * n, mu=mu, s=s, lo=lo, hi=hi)
        inside = x[(x > L) & (x < H)]
        if len(inside) > 100:
            a, b = d.cdf(L), d.cdf(H)
            m.pvalue(stat.ks(inside, lambda v: (d.cdf(v) - a) / (b - a)), "truncate_normal inside of its bounds",
                     form=form, mu=mu, s=s, lo=lo, hi=hi)
        m.seen("clip", (form, _mag(s)))
    # bounds of each element
    mu = rng.normal(0, 1, (3, 1)).astype(np.float32)
    lo, hi = mu - [[0.5], [1.0], [0.1]], mu + [[0.1], [2.0], [0.7]]
    _, x = rg.truncate_normal(m.key("rows"), mu, 2.0, lo.astype(np.float32), hi.astype(np.float32), shape=(3, n))
    x = np.asarray(x)
    for i in range(3):
        for k, p in ((np.sum(x[i] <= np.float32(lo[i, 0])), stats.norm.cdf(lo[i, 0], mu[i, 0], 2.0)),
                     (np.sum(x[i] >= np.float32(hi[i, 0])), stats.norm.sf(hi[i, 0], mu[i, 0], 2.0))):
            m.pvalue(stat.binom_test(k, n, float(p)), "truncate_normal mixes up the bounds of its elements")
    # common bounds of all elements
    for shape in ((3, 50), (2, 3, 50), (50,), ()):
        for a, b in ((-0.5, 0.25), (None, 0.25), (-0.5, None)):
            mean = np.zeros(shape, np.float32)
            _, x = rg.truncate_normal(m.key("common", shape), mean, 2.0, a, b)
            x = np.asarray(x)
            m.check(x.shape == shape, "truncate_normal: shape", got=x.shape, want=shape)
            m.check(a is None or (x >= a), "truncate_normal below the common bound", shape=shape)
            m.check(b is None or (x <= b), "truncate_normal above the common bound", shape=shape)
            m.seen("common bounds", (shape, a, b))


@case
def degenerate(m):
    n = 500
    one = np.ones(n, np.float32)
    D = [
        ("uniform", (2.5, 2.5), 2.5), ("poisson", (0.0,), 0), ("poisson", (0.0,), 0), ("gamma", (0.0, 1.0), 0.0),
        ("normal", (1.5, 0.0), 1.5), ("truncate_normal", (1.5, 0.0, 2.0, 3.0), 2.0),
        ("truncate_normal", (1.5, 0.0, 0.0, 1.0), 1.0), ("truncate_normal", (1.5, 1.0, 1.0, 1.0), 1.0),
        ("skewnormal", (3.0, 1.5, 0.0), 1.5), ("bernoulli", (0.0,), 0), ("bernoulli", (1.0,), 1),
        ("binomial", (0.0, 50), 0), ("binomial", (1.0, 50), 50), ("binomial", (0.3, 0), 0),
        ("binomial", (0.0, 0), 0), ("binomial", (1.0, 0), 0), ("binomial", (1.0, 100000), 100000),
        ("negative_binomial", (1.0, 5.0), 0), ("negative_binomial", (0.5, 0.0), 0),
        ("generalized_poisson", (0.0, 0.5), 0), ("generalized_poisson", (0.0, 0.0), 0),
    ]
    for name in dict.fromkeys(d[0] for d in D):
        rows = [d for d in D if d[0] == name and None not in d[1]]
        func = getattr(rg, name)
        args = [np.repeat(np.array(v, np.float32)[:, None], n, axis=1) for v in zip(*[r[1] for r in rows])]
        _, x = func(m.key(name), *args)
        x = np.asarray(x)
        m.check(x.shape == (len(rows), n), f"{name}: shape", got=x.shape)
        for r, v in zip(rows, x):
            m.check(v == r[2], f"degenerate {name}{r[1]} is not {r[2]}", got=np.unique(v)[:5])
            m.seen("degenerate", (name, r[1]))
        for r in m.pick([], rows):
            _, v = func(m.key(name, 1), *r[1])
            m.check(v.shape == () and float(v) == r[2], f"degenerate scalar {name}{r[1]} is not {r[2]}", got=v)
    # degenerate elements next to ordinary ones
    p = np.array([0.0, 0.5, 1.0] * 1000, np.float32)
    cnt = np.array([0, 7, 40, 3] * 750)
    _, x = rg.binomial(m.key("mix"), p.reshape(6, n), cnt.reshape(6, n).astype(np.float32))
    x = np.asarray(x).ravel()
    m.check(x[p == 0] == 0, "binomial with zero probability next to others")
    m.check(x[p == 1] == cnt[p == 1], "binomial with probability one next to others")
    m.check((x >= 0) & (x <= cnt), "binomial outside of its support next to others")
    lam = np.array([[0.0, 5.0, 0.0, 300.0] * (n // 4)] * 2, np.float32)
    _, x = rg.poisson(m.key("mixp"), lam)
    m.check(np.asarray(x)[lam == 0] == 0, "poisson with zero mean next to others")
    m.check(np.asarray(x)[lam == 300] > 100, "poisson with mean 300 next to zeros")
    _, x = rg.generalized_poisson(m.key("mixg"), lam, np.full(lam.shape, 0.3, np.float32))
    m.check(np.asarray(x)[lam == 0] == 0, "generalized poisson with zero mean next to others")
    # eta = 0 is a poisson, a = 0 is a normal
    n = N
    _, x = rg.generalized_poisson(m.key("e0"), 7.0, 0.0, shape=(n,))
    m.pvalue(stat.chi2_discrete(np.asarray(x), stats.poisson(7.0).pmf, 60)[0], "generalized poisson with eta=0")
    _, x = rg.skewnormal(m.key("a0"), 0.0, 1.0, 2.0, shape=(n,))
    m.pvalue(stat.ks(np.asarray(x), stats.norm(1, 2).cdf), "skew normal with a=0")


@case
def shapes(m):
    """Broadcast or requested shapes, of the documented type; scalars included."""
    rng = m.rng()
    ex = {
        "uniform": (0.0, 1.0), "poisson": (3.0,), "gamma": (2.0, 3.0), "normal": (0.0, 1.0),
        "truncate_normal": (0.0, 1.0, -1.0, 1.0), "skewnormal": (1.0, 0.0, 1.0), "bernoulli": (0.4,),
        "binomial": (0.4, 10.0), "negative_binomial": (0.4, 3.0), "generalized_poisson": (3.0, 0.2),
        "binomial_hybrid": (0.4, 10.0), "twohalfnorm": (0.0, 1.0, 2.0),
    }
    ints = {"poisson", "bernoulli", "binomial", "negative_binomial", "generalized_poisson", "binomial_hybrid"}
    for name, args in ex.items():
        func = getattr(rg, name)
        for form in ["scalar", "mixed", "requested", "last", "3d"]:
            if form == "scalar":
                a, kw, want = args, {}, ()
            elif form == "mixed":
                a = list(args)
                a[0] = np.full((3, 1), a[0])
                want = (3, 1)
                if len(a) > 1 and name != "truncate_normal":
                    a[1] = np.full((5,), a[1])
                    want = (3, 5)
                kw = {}
            elif form == "requested":
                a, kw, want = args, {"shape": (2, 7)}, (2, 7)
            elif form == "last":
                a = [np.full((7,), v) for v in args]
                kw, want = {"shape": (4, 7)}, (4, 7)
            else:
                a, kw, want = [np.full((2, 1, 3), v) for v in args], {}, (2, 1, 3)
            key, x = jax.eval_shape(lambda k, a: func(k, *a, **kw), m.key(name, form), a)
            m.check(x.shape == want, f"{name}: shape ({form})", got=x.shape, want=want)
            m.check(x.dtype == (rg.INT if name in ints else rg.FLOAT), f"{name}: type ({form})", got=str(x.dtype))
            m.seen("shape", (name, form))
        # all elements are drawn
        if name not in ints and name != "truncate_normal":
            _, x = func(m.key(name, "elements"), *args, shape=(2, 7))
            x = np.asarray(x)
            m.check(len(np.unique(x)) == x.size, f"{name}: elements repeat each other", x=x)
    # each element uses its own parameters whatever the layout
    lam = rng.uniform(1, 100, (2, 3)).astype(np.float32)
    key = m.key("layout")
    xs = []
    for i in range(400):
        key, x = rg.poisson(key, lam)
        xs.append(np.asarray(x))
    xs = np.array(xs)
    for i in range(2):
        for j in range(3):
            p, _ = stat.moments(xs[:, i, j], lam[i, j], lam[i, j])
            m.pvalue(p, "poisson: element does not have its own mean")


@case(repeat=(1, 4))
def one_at_a_time(m):
    """The same distribution when only one or two values are drawn by a call."""
    rng = m.rng()
    n = m.pick(6000, 20000)
    names = list(CONT) + list(DISC)
    for i, name in enumerate(names):
        args = [a.astype(np.float32).astype(float) for a in _spec(name)[0](rng, 4)]
        row = int(rng.integers(4))
        args = [float(a[row]) for a in args]
        if name == "generalized_poisson":
            args = [float(np.float32(rng.uniform(0.5, 5))), float(np.float32(rng.uniform(0.3, 0.7)))]
        func = getattr(rg, name)
        ks = jax.random.split(m.key(name), n)
        for shape in m.pick([(), (2,)][i % 2:i % 2 + 1] + ([()] if name == "generalized_poisson" and i % 2 else []), [(), (2,)]):
            back, x = jax.jit(jax.vmap(lambda k: func(k, *args, shape=shape)))(ks)
            x = np.asarray(x)
            m.check(x.shape == (n, *shape), f"{name}: shape of single draws", got=x.shape)
            x = x.reshape(n, -1)
            for j in range(x.shape[1]):
                _judge(m, name, args, x[:, j])
            if x.shape[1] > 1:
                m.pvalue(stat.rank_corr(x[:, 0], x[:, 1]), f"{name}: two draws of one call are correlated", args=args)
            # with the returned keys
            _, y = jax.jit(jax.vmap(lambda k: func(k, *args, shape=shape)))(back)
            m.pvalue(stat.rank_corr(x[:, 0], np.asarray(y).reshape(n, -1)[:, 0]), f"{name}: successive single draws are correlated", args=args)
            m.seen("single " + name, (shape, tuple(_mag(v) for v in args)))


@case
def successive(m):
    """A chain through all samplers never consumes the same key twice, nor returns a consumed key."""
    rng = m.rng()
    calls = [
        ("uniform", (0.0, 1.0)), ("poisson", (3.0,)), ("gamma", (2.0, 3.0)), ("normal", (0.0, 1.0)),
        ("truncate_normal", (0.0, 1.0, -1.0, 1.0)), ("skewnormal", (1.0, 0.0, 1.0)), ("bernoulli", (0.4,)),
        ("binomial", (0.4, 10.0)), ("negative_binomial", (0.4, 3.0)), ("generalized_poisson", (3.0, 0.5)),
        ("binomial_hybrid", (0.4, 10.0)), ("twohalfnorm", (0.0, 1.0, 2.0)),
    ]
    with keys.monitor() as log:
        key = m.key("chain")
        returned = [keys.raw(key)]
        order = [calls[i] for i in rng.permutation(len(calls))] * 4
        for i, (name, args) in enumerate(order):
            n0 = len(log)
            form = i // len(calls)
            if form == 0:
                key, x = getattr(rg, name)(key, *args, shape=(13,))
            elif form == 1:
                key, x = getattr(rg, name)(key, *args)
            elif form == 2:
                key, x = getattr(rg, name)(key, *[np.full((2, 3), a, np.float32) for a in args])
            else:
                key, x = getattr(rg, name)(key, *args, shape=(13,))
            jax.block_until_ready(x)
            jax.effects_barrier()
            m.check(len(log) > n0, f"{name} consumed no key of its own")
            returned.append(keys.raw(key))
        jax.effects_barrier()
        dup = log.duplicates()
        m.check(not dup, "the same key is consumed by several draws", duplicates=dup[:5])
        m.check(len(set(returned)) == len(returned), "a key is returned twice")
        both = set(returned) & log.keys()
        m.check(not both, "a consumed key is also returned", n=len(both))
        m.count("keys consumed", len(log))
        m.seen("chain", len(log))


@case
def by_key(m):
    """uniform_key_vectorized: one standard uniform per key, always the same for the same key."""
    n = N
    ks = jax.random.split(m.key(), n)
    x = np.asarray(rg.uniform_key_vectorized(ks))
    m.check(x.shape == (n,), "shape", got=x.shape)
    m.check((x >= 0) & (x < 1), "outside of [0, 1)")
    m.pvalue(stat.ks(x, stats.uniform.cdf), "not uniform")
    m.pvalue(stat.rank_corr(x[:-1], x[1:]), "neighbours correlated")
    sel = m.rng().permutation(n)[:100]
    m.same(np.asarray(rg.uniform_key_vectorized(ks[sel])), x[sel], "depends on the other keys")
    # get_key: reproducible, distinct
    a, b = rg.get_key(5), rg.get_key(5)
    m.check(keys.raw(a) == keys.raw(b), "get_key(seed) is not reproducible")
    ss = [int(v) for v in m.rng("s").integers(0, 2**31 - 1, 200)]
    m.check(len({keys.raw(rg.get_key(s)) for s in ss}) == len(set(ss)), "get_key maps seeds to the same key")
    m.check(keys.raw(rg.get_key(0)) != keys.raw(rg.get_key(1)), "get_key maps seeds to the same key")
    m.check(keys.raw(rg.get_key(0)) == keys.raw(rg.get_key(0)), "get_key(0) is not reproducible")
    m.seen("keys", n)


@case(tiers=("thorough",))
def moments_at_scale(m):
    """Mean and variance at large parameters, where the exact distribution is not tabulated."""
    rng = m.rng()
    n = 200000
    for i in range(20):
        lam = float(_loguni(rng, 1e3, 1e5, 1)[0])
        _, x = rg.poisson(m.key("p", i), lam, shape=(n,))
        a, b = stat.moments(np.asarray(x), lam, lam)
        m.pvalue(a, "poisson mean", args=lam)
        m.pvalue(b, "poisson variance", args=lam)
        c, p = int(_loguni(rng, 5e3, 1e5, 1)[0]), float(rng.uniform(0.01, 0.99))
        _, x = rg.binomial(m.key("b", i), p, c, shape=(n,))
        a, b = stat.moments(np.asarray(x), c * float(np.float32(p)), c * p * (1 - p))
        m.pvalue(a, "binomial mean", args=(c, p))
        m.pvalue(b, "binomial variance", args=(c, p))
        m.seen("scale", (_mag(lam), _mag(c)))


X64 = """
import json, sys
import numpy as np
import jax
from appletree import randgen as rg
out = {}
for name, args in json.loads(sys.argv[1]).items():
    key, x = getattr(rg, name)(jax.random.PRNGKey(3), *args, shape=(2000,))
    x = np.asarray(x)
    out[name] = [str(x.dtype), float(x.mean()), float(x.std())]
print("RESULT " + json.dumps(out))
"""


@case(tiers=("thorough",))
def double_precision(m):
    """With 64 bit enabled the samplers return 64 bit values of the same distribution."""
    args = {
        "uniform": (0.0, 1.0), "poisson": (3.0,), "gamma": (2.0, 4.0), "normal": (0.0, 1.0),
        "bernoulli": (0.4,), "binomial": (0.4, 10.0), "negative_binomial": (0.4, 3.0), "skewnormal": (0.0, 0.0, 1.0),
        "generalized_poisson": (3.0, 0.2), "binomial_hybrid": (0.4, 10.0), "truncate_normal": (0.0, 1.0, -9.0, 9.0),
    }
    want = {
        "uniform": (0.5, 12**-0.5), "poisson": (3, 3**0.5), "gamma": (0.5, 2**0.5 / 4), "normal": (0, 1),
        "bernoulli": (0.4, 0.24**0.5), "binomial": (4, 2.4**0.5), "negative_binomial": (4.5, 11.25**0.5),
        "skewnormal": (0, 1), "generalized_poisson": (3, 3**0.5 / 0.8), "binomial_hybrid": (4, 2.4**0.5),
        "truncate_normal": (0, 1),
    }
    env = dict(os.environ, JAX_ENABLE_X64="1", PYTHONPATH=REPO)
    r = subprocess.run([sys.executable, "-c", X64, json.dumps(args)], env=env, capture_output=True, text=True)
    m.check(r.returncode == 0, "samplers fail with 64 bit", err=r.stderr[-1500:])
    out = json.loads(r.stdout.split("RESULT ")[1])
    for name, (dtype, mean, std) in out.items():
        kind = "int64" if name in DISC or name == "binomial_hybrid" else "float64"
        m.check(dtype == kind, f"{name}: not 64 bit", got=dtype)
        p = 2 * stats.norm.sf(abs(mean - want[name][0]) / want[name][1] * 2000**0.5)
        m.pvalue(p, f"{name}: mean with 64 bit")
        m.check(abs(std / want[name][1] - 1) < 0.3, f"{name}: width with 64 bit", got=std, want=want[name][1])
        m.seen("x64", name)
