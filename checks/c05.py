"""C05: two-half-normal sampling, density and error conversion agree."""

import numpy as np
from scipy import integrate, stats, optimize

from appletree import randgen as rg
from appletree.randgen import TwoHalfNorm, BandTwoHalfNorm
from appletree.utils import errors_to_two_half_norm_sigmas
from lib import keys, stat
from lib.vh import case

PROPERTY = "C05"
RULE = (
    "random modes and width ratios from 1:50 to 50:1; densities integrated numerically, samples of both samplers "
    "judged against the cumulative distribution of that density, converted errors judged by their percentiles; "
    "distinct by (object, decade of the width ratio)"
)
TECHNIQUE = (
    "runtime monitor: quadrature, exact-distribution and percentile oracles over executions of the real "
    "samplers, densities and solver"
)


def _args(rng, ratio=None):
    s = np.exp(rng.uniform(np.log(0.05), np.log(20)))
    r = np.exp(rng.uniform(-np.log(50), np.log(50))) if ratio is None else ratio
    return float(rng.normal(0, 5)), float(s), float(s * r)  # mu, sigma_pos, sigma_neg


def _tag(sp, sn):
    return int(np.round(2 * np.log10(sp / sn)))


def _logpdf(x, mu, sp, sn):
    """The density as documented: two half normals with one mode and one normalisation."""
    s = np.where(x < mu, sn, sp)
    return np.log(2 / (sp + sn)) - 0.5 * np.log(2 * np.pi) - 0.5 * ((x - mu) / s) ** 2


@case(repeat=(1, 5))
def density(m):
    rng = m.rng()
    for i in range(m.pick(30, 100)):
        mu, sp, sn = _args(rng, 1.0 if i == 0 else None)
        f = lambda x: np.exp(TwoHalfNorm.logpdf(x, mu=mu, sigma_pos=sp, sigma_neg=sn))  # noqa
        lo = integrate.quad(f, mu - 12 * sn, mu, epsabs=1e-12, limit=200)[0]
        hi = integrate.quad(f, mu, mu + 12 * sp, epsabs=1e-12, limit=200)[0]
        m.close(lo + hi, 1.0, "density does not integrate to one", rtol=1e-8, mu=mu, sp=sp, sn=sn)
        m.close(lo, sn / (sp + sn), "probability of the lower side", rtol=1e-7, mu=mu, sp=sp, sn=sn)
        e = 1e-9 * min(sp, sn)
        a, b, c = TwoHalfNorm.logpdf(np.array([mu - e, mu, mu + e]), mu, sp, sn)
        m.close([a, c], [b, b], "density is not continuous at its mode", rtol=0, atol=1e-6)
        # widths of both sides: the density drops by exp(-1/2) at one sigma, and is gaussian
        for k in (0.3, 1.0, 2.5, 5.0):
            v = TwoHalfNorm.logpdf(np.array([mu - k * sn, mu + k * sp]), mu=mu, sigma_pos=sp, sigma_neg=sn)
            m.close(v - b, [-k * k / 2] * 2, "widths of the density", rtol=1e-6, atol=1e-6, mu=mu, sp=sp, sn=sn)
        x = mu + np.concatenate([-sn * rng.exponential(2, 20), sp * rng.exponential(2, 20)])
        m.close(TwoHalfNorm.logpdf(x, mu, sp, sn), _logpdf(x, mu, sp, sn), "log density", rtol=1e-9, atol=1e-9)
        m.check(TwoHalfNorm.logpdf(x, mu, sp, sn) <= b + 1e-12, "the mode is not the maximum")
        m.seen("pdf", _tag(sp, sn))
        m.sample(mu=mu, sigma_pos=sp, sigma_neg=sn, below=lo, above=hi)
    # elementwise arguments and defaults
    mu, sp, sn = np.array([_args(rng) for _ in range(50)]).T
    x = mu + rng.normal(0, 3, 50)
    m.close(TwoHalfNorm.logpdf(x, mu=mu, sigma_pos=sp, sigma_neg=sn), _logpdf(x, mu, sp, sn), "elementwise log density",
            rtol=1e-9)
    m.close(TwoHalfNorm.logpdf(x), stats.norm.logpdf(x), "default log density is not the standard normal", rtol=1e-9)
    m.check(np.shape(TwoHalfNorm.logpdf(0.3, 0.1, 1.0, 2.0)) == (), "scalar log density")
    for bad in ((0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (1.0, -2.0)):
        m.raises(AssertionError, lambda: TwoHalfNorm.logpdf(x, 0.0, *bad), "density with a non-positive width")
        m.raises(AssertionError, lambda: TwoHalfNorm.rvs(0.0, *bad), "sample with a non-positive width")


def _judge(m, what, x, mu, sp, sn):
    m.check(np.isfinite(x), f"{what}: not finite")
    n = len(x)
    m.count("samples", n)
    m.pvalue(stat.ks(x, lambda v: stat.two_half_norm_cdf(v, mu, sp, sn)), f"{what} does not follow its density",
             mu=mu, sp=sp, sn=sn)
    m.pvalue(stat.binom_test(np.sum(x < mu), n, sn / (sp + sn)), f"{what}: fraction below the mode", mu=mu, sp=sp, sn=sn)
    for side, s in ((x[x > mu] - mu, sp), (mu - x[x < mu], sn)):
        if len(side) > 200:
            m.pvalue(stat.ks(side / s, stats.halfnorm.cdf), f"{what}: size of one side", mu=mu, sp=sp, sn=sn)
    m.pvalue(stat.rank_corr(x[1:], x[:-1]), f"{what}: neighbours correlated")
    m.seen(what, _tag(sp, sn))


@case(repeat=(1, 8))
def numpy_sampler(m):
    rng = m.rng()
    np.random.seed(int(rng.integers(2**31)))
    n = m.pick(20000, 50000)
    for i in range(m.pick(12, 30)):
        mu, sp, sn = _args(rng, 1.0 if i == 0 else None)
        x = TwoHalfNorm.rvs(mu=mu, sigma_pos=sp, sigma_neg=sn, size=n)
        m.check(np.shape(x) == (n,), "shape")
        _judge(m, "numpy sampler", x, mu, sp, sn)
        m.sample(sampler="numpy", mu=mu, sigma_pos=sp, sigma_neg=sn, below=float(np.mean(x < mu)))
    # sides and widths to a few permille
    n = m.pick(1000000, 4000000)
    for ratio in (1.0, 1.3, 3.0, 0.4, 20.0, 0.05):
        mu, sp, sn = _args(rng, ratio)
        x = TwoHalfNorm.rvs(mu=mu, sigma_pos=sp, sigma_neg=sn, size=n)
        m.pvalue(stat.binom_test(np.sum(x < mu), n, sn / (sp + sn)), "numpy sampler: fraction below the mode, large sample",
                 mu=mu, sp=sp, sn=sn)
        for side, s in ((x[x > mu] - mu, sp), (mu - x[x < mu], sn)):
            z = float(np.mean((side / s) ** 2) - 1) * (len(side) / 2) ** 0.5
            m.pvalue(2 * stats.norm.sf(abs(z)), "numpy sampler: width of one side, large sample", mu=mu, sp=sp, sn=sn)
        m.count("samples", n)
        m.seen("numpy, large", ratio)
    m.check(np.shape(TwoHalfNorm.rvs(1.0, 2.0, 3.0, size=(4, 5))) == (4, 5), "shape of a tuple")
    m.check(np.shape(TwoHalfNorm.rvs(1.0, 2.0, 3.0)) == (), "shape of a single draw")
    # arguments left out
    n = m.pick(20000, 100000)
    for kw in ({}, dict(mu=2.0), dict(sigma_pos=3.0), dict(sigma_neg=0.25), dict(mu=-1.0, sigma_neg=2.0)):
        x = TwoHalfNorm.rvs(size=n, **kw)
        _judge(m, "numpy sampler, arguments left out", x, kw.get("mu", 0.0), kw.get("sigma_pos", 1.0), kw.get("sigma_neg", 1.0))
        at = np.linspace(-3, 3, 25)
        m.same(TwoHalfNorm.logpdf(at, **kw), TwoHalfNorm.logpdf(at, kw.get("mu", 0.0), kw.get("sigma_pos", 1.0), kw.get("sigma_neg", 1.0)),
               "density, arguments left out")
    xs = np.array([float(TwoHalfNorm.rvs(1.0, 0.5, 2.0)) for _ in range(4000)])
    _judge(m, "numpy sampler, single draws", xs, 1.0, 0.5, 2.0)


@case(repeat=(1, 8))
def jax_sampler(m):
    rng = m.rng()
    n = m.pick(20000, 100000)
    k = 6
    args = [_args(rng, 1.0 if i == 0 else None) for i in range(k)]
    mu, sp, sn = np.array(args, np.float32).T
    key = m.key()
    key2, x = rg.twohalfnorm(key, mu[:, None], sp[:, None], sn[:, None], shape=(k, n))
    _, y = rg.twohalfnorm(key2, mu[:, None], sp[:, None], sn[:, None], shape=(k, n))
    m.check(keys.raw(key) != keys.raw(key2), "the key is returned unchanged")
    x, y = np.asarray(x), np.asarray(y)
    m.check(x.shape == (k, n) and x.dtype == rg.FLOAT, "shape or type", got=(x.shape, str(x.dtype)))
    for i in range(k):
        _judge(m, "jax sampler", x[i].astype(float), float(mu[i]), float(sp[i]), float(sn[i]))
        m.pvalue(stat.rank_corr(x[i], y[i]), "successive calls are correlated")
        if i:
            m.pvalue(stat.rank_corr(x[i], x[i - 1]), "rows of one call are correlated")
    big = m.pick(1000000, 4000000)
    for ratio in (1.0, 1.3, 3.0, 0.4, 20.0, 0.05):
        a, b, c = (float(np.float32(v)) for v in _args(rng, ratio))
        a = 0.0
        _, v = rg.twohalfnorm(m.key("big", ratio), a, b, c, shape=(big,))
        v = np.asarray(v, float)
        m.pvalue(stat.binom_test(np.sum(v < a), big, c / (b + c)), "jax sampler: fraction below the mode, large sample", sp=b, sn=c)
        for side, s in ((v[v > a], b), (v[v < a], c)):
            z = float(np.mean((side / s) ** 2) - 1) * (len(side) / 2) ** 0.5
            m.pvalue(2 * stats.norm.sf(abs(z)), "jax sampler: width of one side, large sample", sp=b, sn=c)
        m.count("samples", big)
        m.seen("jax, large", ratio)
    # elements broadcast from their own shapes
    _, z = rg.twohalfnorm(key, np.tile(mu[:, None], (1, n)), sp[:, None], sn[:, None])
    m.check(z.shape == (k, n), "broadcast shape", got=z.shape)
    for i in range(k):
        _judge(m, "jax sampler (broadcast)", np.asarray(z)[i].astype(float), float(mu[i]), float(sp[i]), float(sn[i]))


@case(repeat=(1, 4))
def samplers_agree(m):
    """Both samplers give the moments integrated from the density."""
    rng = m.rng()
    n = m.pick(40000, 200000)
    np.random.seed(int(rng.integers(2**31)))
    for i in range(m.pick(5, 20)):
        mu, sp, sn = _args(rng)
        f = lambda x: np.exp(TwoHalfNorm.logpdf(x, mu=mu, sigma_pos=sp, sigma_neg=sn))  # noqa

        def mom(g):
            return sum(integrate.quad(lambda x: g(x) * f(x), *r, limit=200)[0]
                       for r in ((mu - 12 * sn, mu), (mu, mu + 12 * sp)))

        mean = mom(lambda x: x)
        var = mom(lambda x: (x - mean) ** 2)
        k4 = mom(lambda x: (x - mean) ** 4) / var**2 - 3
        _, j = rg.twohalfnorm(m.key(i), mu, sp, sn, shape=(n,))
        for what, x in (("jax", j), ("numpy", TwoHalfNorm.rvs(mu, sp, sn, size=n))):
            a, b = stat.moments(np.asarray(x, float), mean, var, k4)
            m.pvalue(a, f"mean of the {what} sampler", mu=mu, sp=sp, sn=sn, mean=mean)
            m.pvalue(b, f"variance of the {what} sampler", mu=mu, sp=sp, sn=sn, var=var)
        m.seen("moments", _tag(sp, sn))


@case(repeat=(1, 8))
def band(m):
    rng = m.rng()
    for i in range(m.pick(20, 60)):
        n = int(rng.integers(2, 12))
        x = np.sort(rng.uniform(-10, 10, n)) + np.arange(n) * 0.1
        y, up, lo = rng.normal(0, 5, n), rng.uniform(0.1, 3, n), rng.uniform(0.1, 3, n)
        shuffle = rng.permutation(n) if i % 3 == 2 else np.arange(n)
        b = BandTwoHalfNorm(x=x[shuffle], y=y[shuffle], yerr_upper=up[shuffle], yerr_lower=lo[shuffle])
        q = rng.uniform(x[0], x[-1], 60)
        q[: n] = x[: 60]
        v = rng.normal(0, 6, len(q))
        got = b.logpdf(x=q, y=v)
        want = _logpdf(v, np.interp(q, x, y), np.interp(q, x, up), np.interp(q, x, lo))
        m.close(got, want, "band log density", rtol=1e-8, atol=1e-8, x=x, y=y)
        # outside of the range, also next to points inside
        w = x[-1] - x[0]
        qq = np.array([x[0] - 1e-6 * w, x[0] - 5, x[-1] + 1e-6 * w, x[-1] + 100, x[0], x[-1], 0.5 * (x[0] + x[-1])])
        vv = np.full(len(qq), float(y[0]))
        got = b.logpdf(x=qq, y=vv)
        m.check(got[:4] == -np.inf, "points outside of the band are not rejected", got=got)
        m.check(np.isfinite(got[4:]), "points on the edges of the band are rejected", got=got)
        g2 = np.asarray(b.logpdf(x=q.reshape(-1, 2), y=v.reshape(-1, 2))) if len(q) % 2 == 0 else None
        if g2 is not None:
            m.check(g2.shape == (len(q) // 2, 2), "shape of the band log density")
        # normalised in y at any x
        if i < 5:
            x0 = float(rng.uniform(x[0], x[-1]))
            mu, s = np.interp(x0, x, y), max(up.max(), lo.max())
            tot = integrate.quad(lambda t: np.exp(b.logpdf(x0, t)), mu - 12 * s, mu, limit=200)[0]
            tot += integrate.quad(lambda t: np.exp(b.logpdf(x0, t)), mu, mu + 12 * s, limit=200)[0]
            m.close(tot, 1.0, "band density does not integrate to one in y", rtol=1e-6)
        m.seen("band", (n, i % 3 == 2))


@case(repeat=(1, 4))
def errors(m):
    """Percentiles of the distribution with the converted widths are the given errors."""
    rng = m.rng()
    p = stats.norm.sf(1)
    ratios = np.concatenate([[1.0], np.exp(rng.uniform(-np.log(4.5), np.log(4.5), m.pick(40, 200)))])
    for r in ratios:
        s = np.array([1.0, r]) * 10 ** rng.uniform(-3, 3)
        # errors with this solution
        e = s * -stats.norm.ppf(p * s.sum() / s / 2)
        given = [float(v) for v in e] if rng.random() < 0.5 else e.copy()
        got = np.asarray(errors_to_two_half_norm_sigmas(given), float)
        m.check(got.shape == (2,), "two widths", got=got)
        m.check(np.asarray(given) == e, "the given errors are modified")
        m.check(got > 0, "widths are positive", errors=e, got=got)
        # as widths of the density: first error below, second one above the mode
        cdf = stat.two_half_norm_cdf(np.array([-e[0], e[1]]), 0.0, got[1], got[0])
        m.close(cdf, [p, 1 - p], "percentiles at the given errors", rtol=0, atol=1e-6, errors=e, got=got)
        f = lambda x: np.exp(TwoHalfNorm.logpdf(x, 0.0, sigma_pos=got[1], sigma_neg=got[0]))  # noqa
        tail = integrate.quad(f, e[1], e[1] + 12 * got[1])[0]
        m.close(tail, p, "tail of the density above the upper error", rtol=1e-5, errors=e)
        m.close(got, s, "widths", rtol=1e-5, errors=e)
        if r > 1.01:
            m.check(got[1] > got[0], "sides are exchanged", errors=e, got=got)
        # mirrored errors give mirrored widths
        m.close(np.asarray(errors_to_two_half_norm_sigmas(list(e[::-1])))[::-1], got, "mirrored errors", rtol=1e-5)
        m.seen("errors", int(np.round(4 * np.log10(r))))
    m.close(errors_to_two_half_norm_sigmas([2.0, 2.0]), [2.0, 2.0], "symmetric errors are the widths", rtol=1e-6)
    # errors no two-half-normal has are refused, not answered with something else
    for e in ([1.0, 1e3], [1e3, 1.0], [1.0, -1.0]):
        try:
            got = np.asarray(errors_to_two_half_norm_sigmas(e), float)
        except AssertionError:
            m.count("refusals")
            continue
        ok = np.all(got > 0)
        if ok:
            cdf = stat.two_half_norm_cdf(np.array([-e[0], e[1]]), 0.0, got[1], got[0])
            ok = np.allclose(cdf, [p, 1 - p], atol=1e-4)
        m.check(ok or not np.all(np.isfinite(got)), "a wrong solution is returned", errors=e, got=got)


assert optimize
