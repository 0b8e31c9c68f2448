"""C06: hybrid binomial sampler is binomial."""

import json
import os
import subprocess
import sys

import numpy as np
from scipy import stats

from appletree import randgen as rg
from lib import keys, stat
from lib.vh import case, REPO

PROPERTY = "C06"
RULE = (
    "random probabilities and counts on both sides of the threshold, boundaries around it, mixed batches, explicit "
    "thresholds, and the sampler enabled through the environment in a separate process; each draw is an event judged "
    "against the exact binomial; distinct by (count, probability decade, form)"
)
TECHNIQUE = (
    "runtime monitor: exact-distribution oracle (chi-square, moments) over large samples of the real sampler, also "
    "enabled through the environment in a subprocess"
)

T = rg.HYBRID_BERNOULLI_THRESHOLD


def _exact(m, x, n, p, what):
    x = np.asarray(x)
    m.count("samples", len(x))
    m.check((x >= 0) & (x <= n), f"{what}: outside of [0, n]", n=n, p=p, min=x.min(), max=x.max())
    q, nb = stat.chi2_discrete(x, stats.binom(n, p).pmf, n)
    m.pvalue(q, f"{what}: not binomial", n=n, prob=p, mean=x.mean(), var=x.var(), bins=nb)
    m.pvalue(stat.rank_corr(x[1:], x[:-1]), f"{what}: neighbours correlated", n=n, prob=p)


def _moments(m, x, n, p, what):
    """Mean, variance and skewness of the binomial, with the resolution of the sample."""
    x = np.asarray(x)
    N = len(x)
    m.count("samples", N)
    m.check((x >= 0) & (x <= n), f"{what}: outside of [0, n]", n=n, p=p, min=x.min(), max=x.max())
    mean, var = n * p, n * p * (1 - p)
    sd = np.sqrt(var)
    skew = (1 - 2 * p) / sd
    # statistical error at 6 sigma plus an allowance for the approximation
    m.check(abs(x.mean() - mean) < sd * (6 / N**0.5 + 0.01), f"{what}: mean", n=n, p=p, got=x.mean(), want=mean)
    m.check(abs(x.var() / var - 1) < 6 * (2.5 / N) ** 0.5 + 0.02, f"{what}: variance", n=n, p=p, got=x.var(), want=var)
    s = stats.skew(x)
    m.check(abs(s - skew) < 6 * (6 / N) ** 0.5 + 0.03 + 0.1 * abs(skew), f"{what}: skewness", n=n, p=p, got=s, want=skew)
    # the whole distribution, coarsely: at no point far from the exact one
    v = np.sort(x)
    k = np.unique(v)
    emp = np.searchsorted(v, k, side="right") / N
    d = np.max(np.abs(emp - stats.binom.cdf(k, n, p)))
    m.check(d < 0.012 + 3 / N**0.5, f"{what}: far from the binomial", n=n, p=p, distance=d)
    m.pvalue(stat.rank_corr(x[1:], x[:-1]), f"{what}: neighbours correlated", n=n, prob=p)


def _counts_small(rng, k):
    n = rng.integers(1, T + 1, k)
    n[:4] = [1, T, T - 1, 2]
    return n


def _counts_large(rng, k):
    n = np.round(np.exp(rng.uniform(np.log(T + 1), np.log(1e5), k))).astype(int)
    n[:2] = [T + 1, T + 2]
    return n


@case(repeat=(1, 6))
def exact_below_threshold(m):
    rng = m.rng()
    k, N = 8, m.pick(20000, 50000)
    n = _counts_small(rng, k)
    p = rng.uniform(0, 1, k)
    p[rng.integers(k)] = 0.005
    p[rng.integers(k)] = 0.995
    p = p.astype(np.float32)
    key2, x = rg.binomial_hybrid(m.key(), p[:, None], n[:, None], shape=(k, N))
    m.check(keys.raw(key2) != keys.raw(m.key()), "the key is returned unchanged")
    m.check(x.shape == (k, N) and x.dtype == rg.INT, "shape or type", got=(x.shape, str(x.dtype)))
    _, y = rg.binomial_hybrid(key2, p[:, None], n[:, None], shape=(k, N))
    x, y = np.asarray(x), np.asarray(y)
    for i in range(k):
        _exact(m, x[i], int(n[i]), float(p[i]), "hybrid below the threshold")
        m.pvalue(stat.rank_corr(x[i], y[i]), "successive calls are correlated")
        m.pvalue(stat.rank_corr(x[i], x[i - 1]), "rows of one call are correlated")
        m.seen("small", (int(n[i]), round(float(p[i]), 2)))
        m.sample(n=int(n[i]), p=float(p[i]), mean=float(x[i].mean()), var=float(x[i].var()))


@case(repeat=(1, 6))
def moments_above_threshold(m):
    rng = m.rng()
    k, N = 8, m.pick(30000, 100000)
    n = _counts_large(rng, k)
    p = rng.uniform(0.02, 0.98, k)
    p[2], p[3] = 0.5, 0.9
    # keep the approximation in its domain: enough expected successes and failures
    p = np.clip(p, np.minimum(10 / n, 0.5), 1 - np.minimum(10 / n, 0.5)).astype(np.float32)
    _, x = rg.binomial_hybrid(m.key(), p[:, None], n[:, None], shape=(k, N))
    x = np.asarray(x)
    for i in range(k):
        _moments(m, x[i], int(n[i]), float(p[i]), "hybrid above the threshold")
        m.seen("large", (int(n[i]), round(float(p[i]), 2)))
        m.sample(n=int(n[i]), p=float(p[i]), mean=float(x[i].mean()), skew=float(stats.skew(x[i])))
    m.pvalue(stat.rank_corr(x[0], x[1]), "rows of one call are correlated")


HARD = ((500, 0.02), (200, 0.05), (1000, 0.99), (T + 1, 0.08), (T + 1, 0.92), (3000, 0.004))


@case
def shape_above_threshold(m):
    """Where the expansion matters most, the moments and the distribution are those of the binomial to a percent."""
    N = m.pick(300000, 1000000)
    for n, p in HARD:
        p = float(np.float32(p))
        key2, x = rg.binomial_hybrid(m.key(n, p), np.full(N, p, np.float32), n)
        x = np.asarray(x)
        mean, var = n * p, n * p * (1 - p)
        sd, skew = var**0.5, (1 - 2 * p) / var**0.5
        m.check(abs(x.mean() - mean) < sd * (6 / N**0.5 + 0.004), "mean above the threshold", n=n, p=p, got=x.mean(), want=mean)
        r = x.var() / var
        m.check(-0.012 - 6 * (2.5 / N) ** 0.5 < r - 1 < 0.018 + 6 * (2.5 / N) ** 0.5, "variance above the threshold", n=n, p=p, ratio=r)
        s = stats.skew(x)
        m.check(abs(s - skew) < 0.02 + 0.05 * abs(skew) + 6 * (15 / N) ** 0.5, "skewness above the threshold", n=n, p=p, got=s, want=skew)
        k = np.arange(n + 1)
        emp = np.searchsorted(np.sort(x), k, side="right") / N
        d = np.max(np.abs(emp - stats.binom.cdf(k, n, p)))
        m.check(d < 0.0022 + 2.6 / N**0.5 / 2, "distribution above the threshold", n=n, p=p, distance=d)
        m.count("samples", N)
        m.seen("hard", (n, round(p, 3)))
        m.sample(n=n, p=p, variance_ratio=r, skew=s, want_skew=skew, distance=d)


@case
def own_keys(m):
    """No key draws twice, and the returned key was not drawn from."""
    import jax

    for name in ("binomial_hybrid", "binomial"):
        f = getattr(rg, name)
        with keys.monitor() as log:
            key, used = m.key(name), set()
            for i, n in enumerate((3, T, T + 1, 5000)):
                del log[:]
                key2, _ = f(key, np.array([0.3, 0.7], np.float32), np.array([n, 4.0], np.float32))
                jax.effects_barrier()
                m.check(len(log) >= 1, "the monitor saw no draws", sampler=name)
                m.check(not log.duplicates(), f"{name}: one key is used for two draws", n=n)
                m.check(keys.raw(key2) not in log.keys(), f"{name}: the returned key was used for a draw", n=n)
                m.check(keys.raw(key2) != keys.raw(key), f"{name}: the key is returned unchanged")
                m.check(not used & log.keys(), f"{name}: chained calls draw from the same key", n=n)
                used |= log.keys()
                key = key2
                m.seen("keys", (name, n))


@case
def edges(m):
    """Deterministic and in range at the edges, in any company, for any probability."""
    rng = m.rng()
    N = 4000
    n = rng.choice([0, 1, 2, T - 1, T, T + 1, 1000, 100000], N)
    p = rng.choice(np.array([0.0, 1.0, 1e-6, 1e-3, 0.2, 0.5, 0.8, 0.999, 1 - 1e-6], np.float32), N)
    for name, func in (("binomial_hybrid", rg.binomial_hybrid), ("binomial", rg.binomial)):
        for j in range(m.pick(2, 10)):
            _, x = func(m.key(name, j), p, n.astype(np.float32) if j % 2 else n)
            x = np.asarray(x)
            m.check(x.shape == (N,) and x.dtype == rg.INT, f"{name}: shape or type")
            m.check((x >= 0) & (x <= n), f"{name}: outside of [0, n]")
            m.check(x[p == 0] == 0, f"{name}: successes at probability zero")
            m.check(x[p == 1] == n[p == 1], f"{name}: failures at probability one", n=n[(p == 1) & (x != n)][:5])
            m.check(x[n == 0] == 0, f"{name}: successes without trials")
            m.count("samples", N)
    for a in set(zip(n.tolist(), p.tolist())):
        m.seen("edge", a)
    _, x = rg.binomial_hybrid(m.key("s"), 1.0, 7.0)
    m.check(x.shape == () and int(x) == 7, "scalar call", got=x)
    _, x = rg.binomial_hybrid(m.key("b"), np.full((3, 1), 1.0), np.full((4,), 300.0))
    m.check(x.shape == (3, 4), "broadcast shape", got=x.shape)
    m.check(np.asarray(x) == 300, "broadcast values")


@case
def elements(m):
    """Each element has its own count and probability, on its own side of the threshold."""
    rng = m.rng()
    n = np.array([3, 50, T, T + 1, 2000, 30000, 10, 500])
    p = np.array([0.7, 0.1, 0.4, 0.3, 0.8, 0.05, 0.02, 0.5], np.float32)
    perm = rng.permutation(len(n))
    n, p = n[perm], p[perm]
    R = m.pick(20000, 100000)
    _, x = rg.binomial_hybrid(m.key(), np.tile(p, R), np.tile(n, R))
    x = np.asarray(x).reshape(R, len(n))
    _, x2 = rg.binomial_hybrid(m.key(2), p.reshape(2, 4), n.reshape(2, 4), shape=(R // 4, 2, 4))
    x2 = np.asarray(x2).reshape(R // 4, 8)
    for i in range(len(n)):
        for v in (x[:, i], x2[:, i]):
            (_exact if n[i] <= T else _moments)(m, v, int(n[i]), float(p[i]), "element of a mixed batch")
        m.seen("mixed", (int(n[i]), float(p[i])))


@case
def thresholds(m):
    """An explicit threshold: exact up to it."""
    rng = m.rng()
    N = 20000
    for t in m.pick((5,), (1, 5, 300, 1000)):
        for n in {t, max(t - 1, 1)}:
            p = float(np.float32(rng.uniform(0.05, 0.95)))
            _, x = rg.binomial_hybrid(m.key(t, n), np.full(N, p, np.float32), n, threshold=t)
            _exact(m, x, n, p, f"hybrid with threshold {t}")
            m.seen("threshold", (t, n))


SCRIPT = """
import sys
import numpy as np
import jax
import appletree
from appletree import randgen as rg
key = jax.random.PRNGKey(int(sys.argv[1]))
n = np.load(sys.argv[2])
p = np.load(sys.argv[3])
N = int(sys.argv[4])
k2, x = rg.binomial(key, p[:, None], n[:, None], shape=(len(n), N))
_, h = rg.binomial_hybrid(key, p[:, None], n[:, None], (len(n), N))
_, e = rg.binomial(k2, np.array([0., 1., .5, 0., 1., .5]), np.array([10, 10, 0, 1000, 1000, 1]))
_, s = rg.binomial(k2, 0.3, 5)
_, b = rg.binomial(k2, np.full((3, 1), .3), np.full(4, 7))
same = np.array_equal(np.asarray(x), np.asarray(h))
np.savez(sys.argv[5], x=np.asarray(x), e=np.asarray(e), s=np.asarray(s), b=np.asarray(b), k=np.asarray(k2), same=same)
"""


def _subprocess(m, value, n, p, N):
    from lib import toys

    d = toys.scratch()
    np.save(d + "/n.npy", n)
    np.save(d + "/p.npy", p)
    env = dict(os.environ, PYTHONPATH=REPO)
    env.pop("APPLETREE_USE_HYBRID", None)
    if value is not None:
        env["APPLETREE_USE_HYBRID"] = value
    seed = int(m.rng("sub").integers(2**31 - 1))
    r = subprocess.run([sys.executable, "-c", SCRIPT, str(seed), d + "/n.npy", d + "/p.npy", str(N), d + "/o.npz"],
                       env=env, capture_output=True, text=True)
    m.check(r.returncode == 0, "sampling with the environment set fails", value=value, err=r.stderr[-1500:])
    return np.load(d + "/o.npz")


@case(repeat=(1, 2))
def environment(m):
    rng = m.rng()
    k, N = 8, m.pick(20000, 50000)
    n = np.concatenate([_counts_small(rng, 5), _counts_large(rng, 3)])
    p = rng.uniform(0.1, 0.9, k).astype(np.float32)
    for value in m.pick(["1"], ["1", None, "0"]):
        o = _subprocess(m, value, n, p, N)
        if value == "1":
            m.check(bool(o["same"]), "the environment does not enable the hybrid sampler")
        else:
            m.check(not bool(o["same"]), "the hybrid sampler is enabled without the environment asking for it")
        x = o["x"]
        m.check(x.shape == (k, N) and x.dtype == np.int32, "shape or type", got=(x.shape, str(x.dtype)))
        for i in range(k):
            exact = n[i] <= T or value != "1"
            (_exact if exact else _moments)(m, x[i], int(n[i]), float(p[i]), f"default sampler with {value}")
        m.check(o["e"][:5].tolist() == [0, 10, 0, 0, 1000], "edges of the default sampler", got=o["e"], value=value)
        m.check(o["e"][5] in (0, 1), "one trial", got=o["e"])
        m.check(o["s"].shape == () and 0 <= o["s"] <= 5, "scalar call", got=o["s"])
        m.check(o["b"].shape == (3, 4), "broadcast", got=o["b"].shape)
        m.seen("environment", (value, tuple(n.tolist())))


json
