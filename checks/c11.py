"""C11: histograms conserve weight."""

import numpy as np
from jax import numpy as jnp

from appletree import hist as H
from appletree.component import ComponentSim
from lib import toys
from lib.vh import case

PROPERTY = "C11"
RULE = (
    "random samples (inside, beyond every edge, on edges, heavy tails, none at all), weights (zero, one, fractional, large) and edges "
    "(uneven, per-column, one bin to hundreds); distinct by (kind, number of bins, kind of weights)"
)
TECHNIQUE = "runtime monitoring: differential oracle, float64 direct count of every event"
ASSUMPTIONS = ["which of two adjacent bins gets an event exactly on their common edge is not specified"]


def edges(rng, n, kind=None):
    kind = kind or str(rng.choice(["even", "uneven", "log", "negative", "narrow", "integer"]))
    if kind == "even":
        e = np.linspace(0, 10, n + 1)
    elif kind == "uneven":
        e = np.cumsum(np.concatenate([[rng.uniform(-5, 5)], rng.uniform(0.2, 2, n)]))
    elif kind == "log":
        e = np.geomspace(0.1, 1000, n + 1)
    elif kind == "negative":
        e = -np.cumsum(np.concatenate([[0.5], rng.uniform(0.2, 2, n)]))[::-1]
    elif kind == "narrow":
        e = 100 + np.cumsum(rng.uniform(0.01, 0.1, n + 1))
    else:
        e = np.cumsum(np.concatenate([[0], rng.integers(1, 5, n)])).astype(float) - 0.5
    return np.asarray(e, np.float32).astype(float)


def values(rng, n, e):
    """Values around the edges e: inside, beyond both, far beyond."""
    e = np.ravel(e)
    lo, hi = e.min(), e.max()
    w = hi - lo
    x = rng.uniform(lo - 0.4 * w, hi + 0.4 * w, n)
    far = rng.random(n)
    x = np.where(far < 0.05, lo - rng.uniform(1, 1e4, n) * w, x)
    x = np.where(far > 0.95, hi + rng.uniform(1, 1e4, n) * w, x)
    near = rng.random(n) < 0.1  # inside, close to one of the edges
    x = np.where(near, e[rng.integers(len(e), size=n)] + w * 1e-3 * rng.choice([-1, 1], n), x)
    return np.asarray(x, np.float32).astype(float)


def weights(rng, n, kind=None):
    kind = kind or str(rng.choice(["one", "uniform", "some zero", "all zero", "large", "tiny", "integer"]))
    w = {
        "one": np.ones(n), "uniform": rng.uniform(0, 1, n), "some zero": (rng.random(n) < 0.5) * rng.uniform(0, 1, n),
        "all zero": np.zeros(n), "large": rng.uniform(1, 1e5, n), "tiny": rng.uniform(0, 1e-6, n),
        "integer": rng.integers(0, 5, n).astype(float),
    }[kind]
    return kind, np.asarray(w, np.float32).astype(float)


def clear_of(x, *es):
    """Events not close to an edge (there single precision decides)."""
    e = np.unique(np.concatenate([np.ravel(v) for v in es]))
    d = np.abs(x[:, None] - e[None, :])
    return np.all(d > 1e-5 * (1e-3 + np.abs(e)[None, :]), axis=1)


def count_1d(x, e, w):
    h = np.zeros(len(e) - 1)
    for i in range(len(e) - 1):
        h[i] = w[(x > e[i]) & (x < e[i + 1])].sum()
    return h


def count_2d(x, y, ex, ey, w):
    h = np.zeros((len(ex) - 1, ey.shape[1] - 1))
    for i in range(len(ex) - 1):
        m = (x > ex[i]) & (x < ex[i + 1])
        h[i] = count_1d(y[m], ey[i], w[m])
    return h


def judge(m, got, want, w, what, **data):
    got = np.asarray(got, float)
    m.close(got, want, what + ": bin contents", rtol=2e-4, atol=1e-5 * max(1e-6, w.max() if len(w) else 0), **data)
    m.check(got.sum() <= w.sum() * (1 + 2e-4) + 1e-6, what + ": more than the total weight", total=got.sum(), weight=w.sum(), **data)
    m.count("events binned", len(w))
    m.count("bins compared", want.size)


def form(rng, *arrays):
    """The same arrays for numpy or jax."""
    if rng.random() < 0.5:
        return [np.asarray(a) for a in arrays]
    return [jnp.asarray(a) for a in arrays]


@case(repeat=(1, 8))
def one_dimension(m):
    rng = m.rng()
    for nb in (1, 2, 3, int(rng.integers(4, 40)), 200):
        e = edges(rng, nb)
        for n in (0, 1, int(rng.integers(2, 2000))):
            x = values(rng, n, e)
            x = x[clear_of(x, e)]
            kind, w = weights(rng, len(x))
            a, b, c = form(rng, x, e, w)
            h = H.make_hist_irreg_bin_1d(a, b, c)
            judge(m, h, count_1d(x, e, w), w, "1D", bins=nb, weights=kind)
            if n > 1:
                p = rng.permutation(len(x))
                judge(m, H.make_hist_irreg_bin_1d(x[p], e, w[p]), count_1d(x, e, w), w, "1D permuted", bins=nb)
                if kind in ("one", "integer"):
                    m.same(H.make_hist_irreg_bin_1d(x[p], e, w[p]), h, "order of the events matters", bins=nb)
                # the same bins as a mesh
                g = H.make_hist_mesh_grid(x[:, None], bins=(e,), weights=w)
                judge(m, g, count_1d(x, e, w), w, "1D mesh", bins=nb)
            m.seen("1d", (nb, kind))
        m.sample(bins=nb, events=len(x), total=float(np.sum(h)))


def column_edges(rng, nx, ny):
    shift = rng.choice(["same", "per column", "far apart"])
    base = edges(rng, ny)
    if shift == "same":
        return shift, np.tile(base, (nx, 1))
    if shift == "per column":
        return shift, np.stack([edges(rng, ny, "uneven") for _ in range(nx)])
    return shift, np.stack([edges(rng, ny, "uneven") + 20.0 * i for i in range(nx)]).astype(np.float32).astype(float)


@case(repeat=(1, 8))
def two_dimensions(m):
    rng = m.rng()
    for nx, ny in ((1, 1), (1, 5), (5, 1), (2, 2), (int(rng.integers(3, 15)), int(rng.integers(3, 15)))):
        ex = edges(rng, nx)
        shift, ey = column_edges(rng, nx, ny)
        for n in (0, 1, 3000):
            x = values(rng, n, ex)
            y = values(rng, n, ey)
            ok = clear_of(x, ex) & clear_of(y, ey)
            x, y = x[ok], y[ok]
            kind, w = weights(rng, len(x))
            s = np.stack([x, y], axis=1)
            a, b, c, d = form(rng, s, ex, ey, w)
            h = H.make_hist_irreg_bin_2d(a, b, c, d)
            judge(m, h, count_2d(x, y, ex, ey, w), w, "2D", bins=(nx, ny), columns=shift, weights=kind)
            if n > 1:
                p = rng.permutation(len(x))
                g = H.make_hist_irreg_bin_2d(s[p], ex, ey, w[p])
                judge(m, g, count_2d(x, y, ex, ey, w), w, "2D permuted", bins=(nx, ny))
                e2 = edges(rng, ny)
                ok = clear_of(y, e2)
                g = H.make_hist_mesh_grid(s[ok], bins=(ex, e2), weights=w[ok])
                judge(m, g, count_2d(x[ok], y[ok], ex, np.tile(e2, (nx, 1)), w[ok]), w, "2D mesh", bins=(nx, ny))
            m.seen("2d", (nx, ny, shift, kind))


@case(repeat=(1, 4))
def three_dimensions(m):
    """The mesh grid has no limit of dimension."""
    rng = m.rng()
    es = [edges(rng, k) for k in (2, 3, 4)]
    xs = [values(rng, 2000, e) for e in es]
    ok = np.all([clear_of(x, e) for x, e in zip(xs, es)], axis=0)
    xs = [x[ok] for x in xs]
    kind, w = weights(rng, len(xs[0]), "uniform")
    want = np.zeros((2, 3, 4))
    for i in range(2):
        sel = (xs[0] > es[0][i]) & (xs[0] < es[0][i + 1])
        want[i] = count_2d(xs[1][sel], xs[2][sel], es[1], np.tile(es[2], (3, 1)), w[sel])
    judge(m, H.make_hist_mesh_grid(np.stack(xs, 1), bins=tuple(es), weights=w), want, w, "3D mesh")
    m.seen("3d", kind)


@case(repeat=(1, 4))
def on_edges(m):
    """Events exactly on an edge are in one of the adjacent bins, not in both or none."""
    rng = m.rng()
    for nb in (1, 2, 5):
        e = np.cumsum(rng.integers(1, 4, nb + 1)).astype(float)
        for i, v in enumerate(e):
            for name, h in (
                ("irreg", H.make_hist_irreg_bin_1d(np.array([v, v]), e, np.array([1.0, 2.0]))),
                ("mesh", H.make_hist_mesh_grid(np.array([[v], [v]]), bins=(e,), weights=np.array([1.0, 2.0]))),
            ):
                h = np.asarray(h)
                inner = 0 < i < nb
                m.check(h.sum() == 3.0 if inner else h.sum() in (0.0, 3.0), "event on an edge", edge=i, of=nb, kind=name, hist=h)
                near = set(range(max(i - 1, 0), min(i + 1, nb)))
                m.check(set(np.flatnonzero(h).tolist()) <= near, "event on an edge is in a distant bin", edge=i, hist=h)
                m.check(np.count_nonzero(h) <= 1, "event on an edge is split", hist=h)
        ex = np.cumsum(rng.integers(1, 4, 4)).astype(float)
        ey = np.stack([np.arange(nb + 1) * 2.0 for _ in range(3)])
        for i, v in enumerate(ex):
            for j in range(nb):
                s = np.array([[v, 2.0 * j + 1.0]])
                for name, h in (
                    ("irreg", H.make_hist_irreg_bin_2d(s, ex, ey, np.ones(1))),
                    ("mesh", H.make_hist_mesh_grid(s, bins=(ex, ey[0]), weights=np.ones(1))),
                ):
                    h = np.asarray(h)
                    m.check(h.sum() == 1.0 if 0 < i < 3 else h.sum() in (0.0, 1.0), "event on an edge of x", kind=name, hist=h)
                    m.check(np.all(np.delete(h, j, axis=1) == 0), "event on an edge of x moves in y", kind=name, hist=h)
        for j in range(1, nb):
            h = np.asarray(H.make_hist_irreg_bin_2d(np.array([[ex[0] + 0.5, 2.0 * j]]), ex, ey, np.ones(1)))
            m.check(h.sum() == 1.0 and h[1:].sum() == 0, "event on an inner edge of y", hist=h)
        m.seen("edges", nb)


@case(repeat=(1, 3))
def beyond(m):
    """Events outside in any direction, infinite or undefined, are in no bin."""
    rng = m.rng()
    ex = edges(rng, 4)
    ey = np.stack([edges(rng, 3, "uneven") + 5.0 * i for i in range(4)])
    bad = [-1e30, 1e30, -np.inf, np.inf, np.nan, ex.min() - 1, ex.max() + 1]
    inx = (ex[:-1] + ex[1:]) / 2
    for v in bad:
        h = np.asarray(H.make_hist_irreg_bin_1d(np.array([v]), ex, np.ones(1)))
        m.check(np.all(h == 0), "event outside is counted", value=v, hist=h)
        h = np.asarray(H.make_hist_mesh_grid(np.array([[v]]), bins=(ex,), weights=np.ones(1)))
        if not np.isnan(v):
            m.check(np.all(h == 0), "event outside is counted in the mesh", value=v, hist=h)
        for j in range(4):
            y = (ey[j][0] + ey[j][1]) / 2
            h = np.asarray(H.make_hist_irreg_bin_2d(np.array([[v, y]]), ex, ey, np.ones(1)))
            m.check(np.all(h == 0), "event outside in x is counted", value=v, y=y, hist=h)
            h = np.asarray(H.make_hist_mesh_grid(np.array([[v, y]]), bins=(ex, np.sort(ey[j])), weights=np.ones(1)))
            if not np.isnan(v):
                m.check(np.all(h == 0), "event outside in x is counted in the mesh", value=v, y=y, hist=h)
        m.seen("beyond x", repr(v))
    for j in range(4):
        for v in [-1e30, 1e30, -np.inf, np.inf, np.nan, ey[j].min() - 0.5, ey[j].max() + 0.5]:
            h = np.asarray(H.make_hist_irreg_bin_2d(np.array([[inx[j], v]]), ex, ey, np.ones(1)))
            m.check(np.all(h == 0), "event outside of its column is counted", column=j, value=v, hist=h)
            m.seen("beyond y", (j, repr(v)))
    # they do not disturb the others
    x = np.concatenate([np.repeat(inx, 3), bad])
    h = np.asarray(H.make_hist_irreg_bin_1d(x, ex, np.ones(len(x))))
    m.same(h, np.full(4, 3.0), "events outside disturb the others")


class _Bare(ComponentSim):
    norm_type = "on_sim"


@case(repeat=(1, 6))
def floor(m):
    """Every bin is at least the mean efficiency if the floor is enabled, the others are unchanged."""
    rng = m.rng()
    for eps in (True, False):
        for bins_type, dim in (("irreg", 1), ("irreg", 2), ("meshgrid", 1), ("meshgrid", 2)):
            for n in (5, 2000):
                e = [edges(rng, 6, "uneven") for _ in range(dim)]
                x = np.stack([values(rng, n, v) for v in e], 1)
                ok = np.all([clear_of(x[:, i], v) for i, v in enumerate(e)], axis=0)
                x = x[ok]
                if len(x) == 0:
                    continue
                kind, w = weights(rng, len(x))
                bins = list(e)
                if bins_type == "irreg" and dim == 2:
                    bins[1] = np.tile(e[1], (6, 1))
                c = _Bare(name="bare", llh_name="l", bins=tuple(bins), bins_type=bins_type)
                c.add_eps_to_hist = eps
                want = count_1d(x[:, 0], e[0], w) if dim == 1 else count_2d(x[:, 0], x[:, 1], e[0], np.tile(e[1], (6, 1)), w)
                got = np.asarray(c.implement_binning(jnp.asarray(x), jnp.asarray(w)), float)
                mean = w.mean()
                if eps:
                    m.check(np.all(got >= mean * (1 - 1e-4)), "a bin is below the mean efficiency", mean=mean, hist=got)
                    m.close(got, np.maximum(want, mean), "floor", rtol=3e-4, atol=1e-6 + 1e-5 * w.max(), dim=dim, bins_type=bins_type)
                    above = want > mean * 1.001
                    m.close(got[above], want[above], "bins above the floor", rtol=2e-4, atol=1e-5 * w.max())
                    m.count("bins on the floor", (~above).sum())
                    m.check(np.all(got > 0), "empty bin in spite of the floor", weights=kind)
                else:
                    m.close(got, want, "without floor", rtol=2e-4, atol=1e-5 * max(w.max(), 1e-6), dim=dim, bins_type=bins_type)
                m.seen("floor", (eps, bins_type, dim, kind))


@case(repeat=(1, 3))
def components(m):
    """The histogram of a component against a count of its own simulation, by the same key."""
    rng = m.rng()
    plugs = toys.band_plugins()
    for i, (bins_type, dim) in enumerate((("irreg", 1), ("irreg", 2), ("meshgrid", 2), ("meshgrid", 1))):
        ex = np.sort(rng.uniform(2, 30, 5))
        ey = np.sort(rng.uniform(100, 1000, (4, 4)), axis=1)
        if dim == 1:
            bins = (ex,)
        else:
            bins = (ex, ey if bins_type == "irreg" else ey[0])
        c = toys.build(plugs, ["cs1", "cs2"][:dim], llh_name=f"h{i}", norm_type="on_sim", rate_name="r", bins=bins, bins_type=bins_type)
        n = 3000
        par = {"t_mu": 3.0, "t_sig": 1.0, "t_eff": float(rng.uniform(0.2, 1)), "r": float(n)}
        k0 = m.key(i)
        k1, out = c.simulate(k0, n, par)
        k2, h = c.simulate_hist(k0, n, par)
        m.same(np.asarray(k2), np.asarray(k1), "another key")
        out = [np.asarray(o, float) for o in out]
        w = out[-1]
        if dim == 1:
            want = count_1d(out[0], ex, w)
        else:
            want = count_2d(out[0], out[1], ex, ey if bins_type == "irreg" else np.tile(ey[0], (4, 1)), w)
        h = np.asarray(h, float)
        # (one event per bin within rounding of an edge at most)
        m.check(np.all(np.abs(h - want) <= 1.001 * w.max() + 3e-4 * want), "histogram of a component", got=h, want=want)
        m.check(abs(h.sum() - want.sum()) <= 2.01 * w.max() + 3e-4 * want.sum(), "total of a component", got=h.sum(), want=want.sum())
        m.count("events binned", n)
        m.seen("component", (bins_type, dim))
