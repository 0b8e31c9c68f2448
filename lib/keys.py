"""Monitor of the random keys consumed by the samplers of jax.random, inside of compiled code."""

import contextlib
import functools

import jax
import numpy as np

SAMPLERS = [
    "uniform", "normal", "poisson", "gamma", "binomial", "bernoulli", "bits", "beta", "cauchy", "exponential",
    "gumbel", "laplace", "logistic", "lognormal", "randint", "truncated_normal", "t", "geometric", "rademacher",
    "permutation", "choice", "loggamma", "dirichlet", "categorical", "rayleigh", "weibull_min", "chisquare",
    "multivariate_normal", "maxwell", "pareto", "triangular", "wald", "generalized_normal", "double_sided_maxwell",
]


class Log(list):
    """(sampler, key) of every draw."""

    def duplicates(self):
        seen, bad = {}, []
        for name, key in self:
            if key in seen:
                bad.append((seen[key], name, key))
            seen[key] = name
        return bad

    def keys(self):
        return {k for _, k in self}


def raw(key):
    try:
        return tuple(int(v) for v in np.asarray(key, dtype=np.uint32).ravel())
    except TypeError:
        return tuple(int(v) for v in np.asarray(jax.random.key_data(key)).ravel())


@contextlib.contextmanager
def monitor():
    log = Log()
    depth = [0]
    old = {}

    def wrap(name, func):
        @functools.wraps(func)
        def wrapped(key, *args, **kwargs):
            if depth[0] == 0:
                jax.debug.callback(lambda k: log.append((name, raw(k))), key)
            depth[0] += 1
            try:
                return func(key, *args, **kwargs)
            finally:
                depth[0] -= 1

        return wrapped

    jax.clear_caches()
    for name in SAMPLERS:
        if hasattr(jax.random, name):
            old[name] = getattr(jax.random, name)
            setattr(jax.random, name, wrap(name, old[name]))
    try:
        yield log
        jax.effects_barrier()
    finally:
        for name, func in old.items():
            setattr(jax.random, name, func)
        jax.clear_caches()
