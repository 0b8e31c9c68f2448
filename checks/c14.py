"""C14: the likelihood of binned data is the Poisson log-likelihood."""

import jax
import numpy as np
from jax import numpy as jnp

from appletree.likelihood import Likelihood
from lib import toys
from lib.vh import case

PROPERTY = "C14"
RULE = (
    "components whose expectation of every bin is set through the parameters (1e-20 to 1e7, zero, negative, NaN, infinite, in bins with "
    "and without data), random components, 1-3 components, all binning types; distinct by (kind of expectation, dimension, data)"
)
TECHNIQUE = "runtime monitoring: float64 recomputation of the log-likelihood from the observed expectation"


def table(tag, shape, par, ex, ey=None):
    """One event per bin of the given shape, its weight is the value of the parameter: the expectation is the parameter."""
    nx, ny = shape if len(shape) == 2 else (shape[0], 1)
    cx = (ex[:-1] + ex[1:]) / 2
    x = np.repeat(cx, ny)
    y = np.tile((ey[:-1] + ey[1:]) / 2, nx) if ey is not None else np.zeros(nx)
    n = nx * ny

    def fx(self, key, parameters, batch_size):
        key, _ = jax.random.split(key)
        return key, jnp.tile(jnp.asarray(x), batch_size // n)

    def fy(self, key, parameters, batch_size):
        return key, jnp.tile(jnp.asarray(y), batch_size // n)

    def fe(self, key, parameters, gx):
        return key, jnp.tile(jnp.broadcast_to(jnp.ravel(parameters[par]), (n,)), len(gx) // n) * n

    return toys.component_cls(
        f"Table{tag}",
        [toys.plugin(f"TabX{tag}", ["batch_size"], ["gx"], fx), toys.plugin(f"TabY{tag}", ["batch_size"], ["gy"], fy),
         toys.plugin(f"TabE{tag}", ["gx"], ["eff"], fe, (par,))],
        "on_sim", False,
    )


def poisson(data, mu):
    data, mu = np.asarray(data, float), np.asarray(mu, float)
    if not np.all(np.isfinite(mu)) or np.any(mu <= 0):
        return -np.inf
    return float(np.sum(data * np.log(mu) - mu))


EX = np.array([0.0, 1.0, 3.0, 4.0, 8.0])
EY = np.array([0.0, 2.0, 3.0, 7.0])


def make(rng, tag, dim, kind, ncomp, empty=True, nothing=False):
    """Likelihood of ncomp tables."""
    n = int(rng.integers(20, 400))
    ex, ey = EX, EY
    x, y = rng.uniform(0, 8, n), rng.uniform(0, 7, n)
    if empty:  # a bin without data
        keep = ~((x > 3) & (x < 4))
        x, y = x[keep], y[keep]
    if nothing:
        x = x - 20
    path = toys.csv({"gx": x, "gy": y})
    cfg = dict(data_file_name=path, bins_type=kind)
    if dim == 1:
        cfg.update(bins_on="gx", bins=[ex.tolist()], clip=[0, 8])
        shape = (4,)
    else:
        by = np.tile(ey, (4, 1)).tolist() if kind == "irreg" else ey.tolist()
        cfg.update(bins_on=["gx", "gy"], bins=[ex.tolist(), by], x_clip=[0, 8], y_clip=[0, 7])
        shape = (4, 3)
    llh = Likelihood(name="p" + tag, **cfg)
    names = []
    for k in range(ncomp):
        llh.register_component(table(f"{tag}_{k}", shape, f"mu{k}", ex, ey if dim == 2 else None), f"c{k}")
        names.append(f"c{k}")
    return llh, shape, int(np.prod(shape))


def compare(m, llh, key, n, par, mu, what, **data):
    _, ll = llh.get_log_likelihood(key, n, par)
    m.check(isinstance(ll, float), "the log likelihood is no number", got=repr(type(ll)))
    m.check(not np.isnan(ll), "undefined log likelihood", what=what, mu=mu, **data)
    want = poisson(llh.data_hist, mu)
    if np.isinf(want):
        m.check(ll == want, "not minus infinity", what=what, got=ll, mu=mu, data=np.asarray(llh.data_hist), **data)
        m.count("minus infinity")
    else:
        d = np.asarray(llh.data_hist, float)
        scale = np.sum(np.abs(d * np.log(mu))) + np.sum(mu)
        m.check(abs(ll - want) <= 1e-5 * scale + 1e-4, "log likelihood", what=what, got=ll, want=want, mu=mu, **data)
        m.count("finite values")
    return ll


@case(repeat=(1, 8))
def values(m):
    """Expectations of any size."""
    rng = m.rng()
    i = 0
    for dim, kind in ((1, "irreg"), (2, "irreg"), (2, "meshgrid"), (1, "meshgrid")):
        i += 1
        llh, shape, nb = make(rng, f"v{i}", dim, kind, 1, empty=i % 2 == 0)
        for lo, hi in ((-1, 2), (-20, 0), (3, 7), (-6, 6)):
            mu = 10 ** rng.uniform(lo, hi, shape)
            for rate in (1.0, 0.01):
                for batch in (nb, 7 * nb):
                    par = {"mu0": jnp.asarray(mu), "c0_rate": rate}
                    compare(m, llh, m.key(i), batch, par, mu.astype(np.float32) * rate, "values", dim=dim, kind=kind, batch=batch)
            m.seen("value", (dim, kind, lo))
        # the key does not matter to a deterministic expectation
        a = [llh.get_log_likelihood(m.key(j), nb, par)[1] for j in range(3)]
        m.check(max(a) == min(a), "deterministic expectation", got=a)
    m.sample(mu=mu, data=np.asarray(llh.data_hist), log_likelihood=a[0])


BAD = {"zero": 0.0, "negative zero": -0.0, "negative": -1.0, "tiny negative": -1e-20, "nan": np.nan, "inf": np.inf, "-inf": -np.inf,
       "overflow": 3.0e38}


@case(repeat=(1, 5))
def invalid(m):
    """One invalid bin, with or without data, in any place."""
    rng = m.rng()
    for dim in (1, 2):
        llh, shape, nb = make(rng, f"i{dim}", dim, "irreg", 1)
        d = np.asarray(llh.data_hist).ravel()
        where = {"first": 0, "last": nb - 1, "empty": int(np.flatnonzero(d == 0)[0]), "full": int(np.argmax(d))}
        good = rng.uniform(0.5, 20, nb)
        compare(m, llh, m.key(), nb, {"mu0": jnp.asarray(good.reshape(shape)), "c0_rate": 1.0}, good.reshape(shape), "valid")
        for name, bad in BAD.items():
            for place, i in where.items():
                mu = good.copy()
                mu[i] = bad
                rate = 100.0 if name == "overflow" else 1.0
                with np.errstate(all="ignore"):
                    want = (mu.astype(np.float32) * np.float32(rate * nb)).reshape(shape) / nb
                compare(m, llh, m.key(), nb, {"mu0": jnp.asarray(mu.reshape(shape)), "c0_rate": rate}, want, name, place=place)
                m.seen("invalid", (dim, name, place))
        # several at once, and all of them
        for k in range(6):
            mu = good.copy()
            idx = rng.permutation(nb)[: int(rng.integers(1, nb + 1))]
            mu[idx] = rng.choice([0.0, -1.0, np.nan, np.inf], len(idx))
            compare(m, llh, m.key(), nb, {"mu0": jnp.asarray(mu.reshape(shape)), "c0_rate": 1.0}, mu.reshape(shape), "several")
        for rate in (0.0, -1.0, np.nan, np.inf):
            compare(m, llh, m.key(), nb, {"mu0": jnp.asarray(good.reshape(shape)), "c0_rate": rate}, good.reshape(shape) * rate, "rate", rate=repr(rate))
            m.seen("rate", repr(rate))


@case(repeat=(1, 4))
def no_data(m):
    """Without any data it is minus the expected number of events."""
    rng = m.rng()
    for dim in (1, 2):
        llh, shape, nb = make(rng, f"n{dim}", dim, "irreg", 1, nothing=True)
        mu = rng.uniform(0.1, 5, shape)
        ll = compare(m, llh, m.key(), nb, {"mu0": jnp.asarray(mu), "c0_rate": 1.0}, mu, "no data")
        m.check(abs(ll + mu.sum()) < 1e-4, "log likelihood without data", got=ll, want=-mu.sum())
        for bad in (0.0, np.nan, np.inf, -1.0):
            mu2 = mu.copy()
            mu2.flat[1] = bad
            compare(m, llh, m.key(), nb, {"mu0": jnp.asarray(mu2), "c0_rate": 1.0}, mu2, "no data", bad=repr(bad))
        m.seen("no data", dim)


@case(repeat=(1, 5))
def sums(m):
    """Several components: only their sum matters."""
    rng = m.rng()
    for dim, ncomp in ((1, 2), (2, 3)):
        llh, shape, nb = make(rng, f"s{dim}", dim, "irreg", ncomp)
        for k in range(8):
            mus = [rng.uniform(0.0, 10, shape) * rng.choice([0, 1], shape, p=[0.3, 0.7]) for _ in range(ncomp)]
            mus[0] = mus[0] + (0.5 if k % 2 else 0.0)
            if k == 6:  # a negative part in a positive sum
                mus[1].flat[0], mus[0].flat[0] = -1.0, 3.0
            if k == 7:
                mus[1].flat[0], mus[0].flat[0] = np.inf, -np.inf
            rates = rng.uniform(0.5, 3, ncomp)
            if k == 5:
                mus = [rng.uniform(0.5, 10, shape) for _ in range(ncomp)]
                rates[0] = 0.0
            par = {f"mu{j}": jnp.asarray(v) for j, v in enumerate(mus)} | {f"c{j}_rate": float(r) for j, r in enumerate(rates)}
            with np.errstate(all="ignore"):
                mu = sum(v * r for v, r in zip(mus, rates))
            compare(m, llh, m.key(k), nb, par, mu, "sum", k=k)
            m.seen("sum", (dim, k, bool(np.all(mu > 0))))
        # one component of several is not finite, in one bin or everywhere
        for j in range(ncomp):
            for bad in (np.nan, np.inf, -np.inf):
                for place in (0, -1, slice(None)):
                    mus = [rng.uniform(0.5, 10, shape) for _ in range(ncomp)]
                    mus[j].flat[place] = bad
                    par = {f"mu{i}": jnp.asarray(v) for i, v in enumerate(mus)} | {f"c{i}_rate": 1.0 for i in range(ncomp)}
                    with np.errstate(all="ignore"):
                        compare(m, llh, m.key(j), nb, par, sum(mus), "sum with a part that is not finite", component=j, bad=repr(bad),
                                place=str(place))
            m.seen("not finite", (dim, j))


@case(repeat=(1, 5))
def same_simulation(m):
    """The expectation belongs to the simulation of the key of the call."""
    rng = m.rng()
    cls = toys.component_cls("RandomComp", toys.band_plugins(jit=False))
    data = toys.write_band_data(rng, 300)
    llh = Likelihood(name="rand", data_file_name=data, bins_type="equiprob", bins_on=["cs1", "cs2"], bins=[3, 2], x_clip=[3, 28],
                     y_clip=[120, 1000])
    llh.register_component(cls, "one")
    for i in range(m.pick(6, 20)):
        par = {"t_mu": float(rng.uniform(2.5, 3.5)), "t_sig": 1.0, "t_eff": 0.9, "one_rate": float(rng.uniform(10, 1000))}
        key = m.key(i)
        n = int(rng.choice([50, 400]))
        k1, h = llh["one"].simulate_hist(key, n, par)
        k2, ll = llh.get_log_likelihood(key, n, par)
        m.same(np.asarray(k2), np.asarray(k1), "the returned key is not the one of the simulation")
        want = poisson(llh.data_hist, h)
        m.check(ll == want or abs(ll - want) <= 1e-4 * (abs(want) + 300), "not the expectation of the same simulation", got=ll, want=want, n=n)
        m.seen("random", (n, np.isfinite(ll)))
        if i < 2:
            other = {llh.get_log_likelihood(m.key(i + 1000 * j), 400, par)[1] for j in range(1, 9)}
            m.check(len(other) > 1, "other keys give the same likelihood", got=other)
    # several random components
    for ncomp in (2, 3, 4):
        llh = Likelihood(name=f"rand{ncomp}", data_file_name=data, bins_type="equiprob", bins_on=["cs1", "cs2"], bins=[3, 2], x_clip=[3, 28],
                         y_clip=[120, 1000])
        for j in range(ncomp):
            llh.register_component(cls, f"n{j}")
        several = {**par, **{f"n{j}_rate": 100.0 * (j + 1) for j in range(ncomp)}}
        got = [llh.get_log_likelihood(m.key(i + 100 * j), 400, several)[1] for j in range(6)]
        m.check(len(set(got)) > 3, "other keys give the same likelihood", got=got, components=ncomp)
        again = llh.get_log_likelihood(m.key(i), 400, several)[1]
        m.check(again == got[0], "the same key gives another likelihood", got=again, want=got[0], components=ncomp)
        key, hists = m.key(i + 500), []
        k2, ll = llh.get_log_likelihood(key, 400, several)
        for j in range(ncomp):
            key, h = llh[f"n{j}"].simulate_hist(key, 400, several)
            hists.append(np.asarray(h, float))
        want = poisson(llh.data_hist, sum(hists))
        m.same(np.asarray(k2), np.asarray(key), "the returned key is not the one of the simulations")
        m.check(ll == want or abs(ll - want) <= 1e-4 * (abs(want) + 300), "not the expectation of the same simulations", got=ll, want=want, components=ncomp)
        m.seen("several random", ncomp)
    llh = Likelihood(name="randend", data_file_name=data, bins_type="equiprob", bins_on=["cs1", "cs2"], bins=[3, 2], x_clip=[3, 28],
                     y_clip=[120, 1000])
    llh.register_component(cls, "one")
    # a larger simulation comes closer to the limit, a single event leaves bins empty
    m.check(llh.get_log_likelihood(key, 1, par)[1] == -np.inf, "one event cannot fill six bins")
    a = [llh.get_log_likelihood(m.key(j), 100000, par)[1] for j in range(2)]
    m.check(abs(a[0] - a[1]) < 60, "large simulations disagree", got=a)
