"""C07: map interpolation honours nodes, bounds and method."""

import itertools

import numpy as np
import jax
from jax import numpy as jnp
from scipy.interpolate import RegularGridInterpolator

from appletree import interpolation as ip
from lib.vh import case

PROPERTY = "C07"
RULE = (
    "random irregular point maps and regular grids (anisotropic, different numbers of nodes per axis, offsets and "
    "scales over decades, nodes/edges/faces/interior/outside queries); each interpolated value is an event, judged "
    "against float64 references; distinct by (interpolator, map shape, class of query)"
)
TECHNIQUE = "runtime monitor: float64 reference interpolation and range oracle over executions of the real interpolators"

POINT = {"IDW": ip.curve_interpolator, "LERP": ip.map_interpolator_linear_1d, "NN": ip.map_interpolator_nearest_neighbor_1d}
GRID = {
    (1, "IDW"): ip.map_interpolator_regular_binning_1d,
    (2, "IDW"): ip.map_interpolator_regular_binning_2d,
    (3, "IDW"): ip.map_interpolator_regular_binning_3d,
    (2, "LERP"): ip.map_interpolator_regular_binning_bilinear_2d,
    (3, "LERP"): ip.map_interpolator_regular_binning_trilinear_3d,
    (2, "NN"): ip.map_interpolator_regular_binning_nearest_neighbor_2d,
    (3, "NN"): ip.map_interpolator_regular_binning_nearest_neighbor_3d,
}
if hasattr(ip, "map_interpolator_regular_binning_nearest_neighbor_1d"):
    GRID[1, "NN"] = ip.map_interpolator_regular_binning_nearest_neighbor_1d


def _f(x):
    return np.asarray(x, np.float32)


def _batch(m, what, func, q, got):
    """The value of a query does not depend on the batch it is in."""
    perm = np.random.default_rng(5).permutation(len(q))
    scale = np.max(np.abs(got)) + 1e-30
    m.close(func(_f(q[perm]))[np.argsort(perm)] / scale, got / scale, f"{what}: depends on the order of the batch",
            rtol=1e-3, atol=1e-4)
    for i in perm[:2]:
        m.close(func(_f(q[i:i + 1]))[0] / scale, got[i] / scale, f"{what}: depends on the other points of the batch",
                rtol=1e-3, atol=1e-4, query=q[i])
    far = q.copy()
    far[perm[1:]] = np.max(np.abs(q)) * 1e3 + 7
    m.close(func(_f(far))[perm[0]] / scale, got[perm[0]] / scale, f"{what}: depends on the other points of the batch",
            rtol=1e-3, atol=1e-4)


@case(repeat=(1, 6))
def points(m):
    rng = m.rng()
    for n in m.pick((2, 7, 40), (2, 3, 7, 40, 300)):
        scale, off = 10 ** rng.uniform(-2, 3), rng.normal(0, 1) * rng.integers(0, 2)
        x = np.cumsum(rng.uniform(0.05, 2, n))
        x = _f((x - x.mean()) * scale + off * scale).astype(float)
        v = _f(rng.normal(0, 1, n) * 10 ** rng.uniform(-2, 3)).astype(float)
        span, vs = x[-1] - x[0], np.max(np.abs(v))
        inside = rng.uniform(x[0], x[-1], 100)
        edge = np.array([x[0], x[-1]])
        outside = np.concatenate([x[0] - span * 10 ** rng.uniform(-3, 9, 20), x[-1] + span * 10 ** rng.uniform(-3, 9, 20)])
        q = _f(np.concatenate([x, inside, edge, outside])).astype(float)
        k = np.clip(np.searchsorted(x, q, side="right") - 1, 0, n - 2)
        lo, hi = np.minimum(v[k], v[k + 1]), np.maximum(v[k], v[k + 1])
        lin = np.interp(q, x, v)
        near = np.argmin(np.abs(q[:, None] - x), axis=1)
        d2 = np.sort(np.abs(q[:, None] - x), axis=1)
        tie = (d2[:, 1] - d2[:, 0]) < 1e-4 * d2[:, 1]
        steps = np.min(np.diff(x))
        rel = np.max(np.abs(np.diff(v))) * np.max(np.abs(x)) * 3e-7 / steps + 1e-5 * vs
        for method, func in POINT.items():
            f = lambda z: np.asarray(func(jnp.asarray(z), _f(x), _f(v)))  # noqa
            got = f(_f(q)).astype(float)
            what = f"{method} of points"
            m.check(got.shape == q.shape, f"{what}: shape", got=got.shape)
            m.check(np.isfinite(got), f"{what}: not finite", query=q[~np.isfinite(got)][:5])
            m.close(got[:n], v, f"{what}: value at the nodes", rtol=1e-5, atol=1e-6 * vs)
            m.check((got >= lo - rel) & (got <= hi + rel), f"{what}: outside of the range of its nodes")
            if method == "NN":
                m.close(got[~tie], v[near][~tie], f"{what}: not the nearest node", rtol=1e-6)
                m.check(np.isin(_f(got), _f(v)), f"{what}: not a node value")
            else:  # inverse distance of two neighbours is linear
                m.close(got, lin, f"{what}: not linear between its nodes", rtol=1e-5, atol=rel)
            m.close(got[-40:-20], np.full(20, v[0]), f"{what}: below the map", rtol=1e-5, atol=1e-6 * vs)
            m.close(got[-20:], np.full(20, v[-1]), f"{what}: above the map", rtol=1e-5, atol=1e-6 * vs)
            m.close(f(_f(edge)), [v[0], v[-1]], f"{what}: at the edges", rtol=1e-5, atol=1e-6 * vs)
            _batch(m, what, f, q, got)
            for c in ("node", "inside", "edge", "outside"):
                m.seen(what, (n, c))
            m.count("interpolated values", len(q))
            m.sample(method=method, nodes=n, query=q[n], got=got[n], linear=lin[n])


def _grid(rng, ndim, shape):
    scale = 10 ** rng.uniform(-1, 2, ndim)
    lo = rng.normal(0, 2, ndim) * scale
    up = lo + scale * rng.uniform(0.5, 3, ndim)
    lo, up = _f(lo).astype(float), _f(up).astype(float)
    v = _f(rng.normal(0, 1, shape) * 10 ** rng.uniform(-1, 2)).astype(float)
    axes = [np.linspace(a, b, n) for a, b, n in zip(lo, up, shape)]
    return lo, up, v, axes


def _queries(rng, axes, n):
    """Queries by class: nodes, interior, faces (one coordinate on a node), outside."""
    ndim = len(axes)
    lo, up = np.array([a[0] for a in axes]), np.array([a[-1] for a in axes])
    nodes = np.array(list(itertools.product(*axes)))
    inside = rng.uniform(lo, up, (n, ndim))
    face = rng.uniform(lo, up, (n, ndim))
    for i in range(n):
        d = rng.integers(ndim)
        face[i, d] = rng.choice(axes[d])
    out = rng.uniform(lo, up, (n, ndim))
    for i in range(n):
        for d in set(rng.integers(0, ndim, int(rng.integers(1, ndim + 1)))):
            s = (up - lo)[d] * 10 ** rng.uniform(-3, 8)
            out[i, d] = up[d] + s if rng.random() < 0.5 else lo[d] - s
    q = np.concatenate([nodes, inside, face, out])
    cls = np.repeat(["node", "inside", "face", "outside"], [len(nodes), n, n, n])
    return _f(q).astype(float), cls


def _cell(q, axes, v):
    """Lower corner, corner positions and values of the cell of each query."""
    ndim = len(axes)
    idx = np.array([np.clip(np.searchsorted(a, q[:, d], side="right") - 1, 0, len(a) - 2) for d, a in enumerate(axes)]).T
    pos, val = [], []
    for c in itertools.product((0, 1), repeat=ndim):
        j = idx + np.array(c)
        pos.append(np.stack([axes[d][j[:, d]] for d in range(ndim)], -1))
        val.append(v[tuple(j.T)])
    return idx, np.array(pos), np.array(val)


SHAPES = {1: [(2,), (9,)], 2: [(2, 3), (6, 4)], 3: [(2, 3, 4), (5, 2, 3)]}
MORE = {1: [(2,), (3,), (50,)], 2: [(2, 2), (2, 5), (7, 3), (20, 31)], 3: [(2, 2, 2), (3, 2, 4), (6, 5, 4), (9, 11, 8)]}


@case(repeat=(1, 6))
def grids(m):
    rng = m.rng()
    for (ndim, method), func in GRID.items():
        for shape in m.pick(SHAPES, MORE)[ndim]:
            lo, up, v, axes = _grid(rng, ndim, shape)
            q, cls = _queries(rng, axes, m.pick(80, 200))
            L, U = _f(lo), _f(up)

            def f(z):
                z = jnp.asarray(z)
                return np.asarray(func(z[:, 0] if ndim == 1 else z, L, U, _f(v)))

            got = f(_f(q)).astype(float)
            what = f"{method} on a {ndim}D grid"
            m.check(got.shape == (len(q),), f"{what}: shape", got=got.shape)
            m.check(np.isfinite(got), f"{what}: not finite", query=q[~np.isfinite(got)][:5],
                    where=cls[~np.isfinite(got)][:5])
            idx, pos, val = _cell(q, axes, v)
            vs = np.max(np.abs(v))
            step = np.array([a[1] - a[0] for a in axes])
            # rounding of the coordinates in units of a cell, in 32 bit
            eps = 3e-7 * np.max((np.abs(np.clip(q, lo, up)) + np.abs(lo) + np.abs(up)) / step, axis=1)
            if method == "IDW":  # distances mix the axes
                eps = eps * np.max(step) / np.min(step)
            tol = vs * (1e-5 + 20 * eps)
            node = cls == "node"
            m.check(np.abs(got[node] - v.ravel()) <= tol[node], f"{what}: value at the nodes",
                    got=got[node][:8], want=v.ravel()[:8])
            rng_lo, rng_up = val.min(0), val.max(0)
            inner = np.isin(cls, ["inside", "node", "face"])
            # a query on the border of cells may be counted to either of them
            frac = (q - lo) / step
            onb = np.any(np.abs(frac - np.round(frac)) < 1e-3, axis=1)
            s = inner & ~onb
            m.check((got >= rng_lo - tol)[s] & (got <= rng_up + tol)[s], f"{what}: outside of the range of its nodes",
                    n=int(s.sum()))
            m.check((got >= v.min() - tol) & (got <= v.max() + tol), f"{what}: outside of the range of the map",
                    where=cls[(got < v.min() - tol) | (got > v.max() + tol)][:5])
            if method == "LERP" or ndim == 1 and method == "IDW":
                ref = RegularGridInterpolator(axes, v)(np.clip(q, lo, up))
                m.check(np.abs(got - ref) <= tol, f"{what}: not multilinear (held to the edge outside)",
                        where=cls[np.abs(got - ref) > tol][:5], got=got[np.abs(got - ref) > tol][:5],
                        want=ref[np.abs(got - ref) > tol][:5])
            elif method == "NN":
                fr = np.clip(frac, 0, np.array(shape) - 1)
                near = np.round(fr).astype(int)
                tie = np.any(np.abs(fr - np.floor(fr) - 0.5) < 1e-3, axis=1)
                ref = v[tuple(near.T)]
                m.check(np.abs(got - ref)[~tie] <= 1e-6 * vs, f"{what}: not the nearest node (held to the edge outside)",
                        where=cls[~tie & (np.abs(got - ref) > 1e-6 * vs)][:5])
                m.check(np.isin(_f(got), _f(v)), f"{what}: not a node value")
            else:
                d = np.sqrt(np.sum((pos - q) ** 2, -1))
                w = 1 / np.maximum(d, 1e-300)
                ref = np.sum(w * val, 0) / np.sum(w, 0)
                m.check(np.abs(got - ref)[s] <= tol[s], f"{what}: not the inverse distance average of its cell",
                        n=int(s.sum()), got=got[s][:5], want=ref[s][:5])
                # approaching a node from any direction gives its value
                near = pos[0] + (q - pos[0]) * 1e-3
                near = near[s][:20]
                g = f(_f(np.concatenate([near, q[: len(q) - len(near)]])))[: len(near)]
                jump = np.max(np.abs(val - val[0]), 0)[s][:20]
                anis = (np.max(step) / np.min(step)) * np.sqrt(ndim)
                far = np.linalg.norm((q - pos[0])[s][:20], axis=1) * 1e-3
                bound = jump * (2**ndim) * far / np.min(step) * 1.5 + tol[s][:20] * 2
                m.check(np.abs(g - val[0][s][:20]) <= bound, f"{what}: jumps at a node", anisotropy=anis)
            # away from the borders of the cells, where rounding decides
            half = np.any(np.abs(frac - np.floor(frac) - 0.5) < 1e-3, axis=1)
            b = np.isin(cls, ["inside", "outside"]) & ~onb & ~half
            _batch(m, what, f, q[b], got[b])
            for c in np.unique(cls):
                m.seen(what, (shape, str(c)))
            m.count("interpolated values", len(q))
            m.sample(method=method, shape=shape, query=q[-1], got=got[-1])
            # a constant map is constant everywhere
            c = np.asarray(func(_f(q[:, 0] if ndim == 1 else q), L, U, np.full(shape, 3.25, np.float32)))
            m.close(c, np.full(len(q), 3.25), f"{what}: a constant map is not constant", rtol=1e-5)


@case(repeat=(1, 4))
def orientation(m):
    """Each axis moves its own coordinate, for every method (a value that is linear in one coordinate only)."""
    rng = m.rng()
    for (ndim, method), func in GRID.items():
        shape = (4, 6, 5)[:ndim]
        lo, up = np.arange(ndim) * 10.0, np.arange(ndim) * 10.0 + 3.0 + np.arange(ndim)
        axes = [np.linspace(a, b, n) for a, b, n in zip(lo, up, shape)]
        mesh = np.meshgrid(*axes, indexing="ij")
        q = rng.uniform(lo, up, (50, ndim))
        for d in range(ndim):
            got = np.asarray(func(_f(q[:, 0] if ndim == 1 else q), _f(lo), _f(up), _f(mesh[d])))
            step = axes[d][1] - axes[d][0]
            m.check(np.abs(got - q[:, d]) <= step * 1.001, f"{method} {ndim}D: axis {d} does not follow its coordinate")
            m.seen("axis", (ndim, method, d))


@case(repeat=(1, 6))
def neighbours(m):
    """Inverse distance average of the k nearest of scattered points."""
    rng = m.rng()
    for ndim, n, k in m.pick([(1, 8, 2), (2, 30, 3), (3, 20, 5)], [(1, 5, 1), (2, 30, 3), (2, 12, 12), (3, 100, 4), (4, 50, 7)]):
        ref = rng.uniform(-3, 3, (n, ndim)) * 10 ** rng.uniform(-0.5, 1)
        ref, v = _f(ref).astype(float), _f(rng.normal(0, 2, n)).astype(float)
        q = np.concatenate([ref, rng.uniform(ref.min(0) - 1, ref.max(0) + 1, (60, ndim)), ref[:1] + 1e5, ref[:1] - 1e8])
        q = _f(q).astype(float)
        got = np.asarray(ip.map_interpolator_knn(_f(q), _f(ref), _f(v), k=k)).astype(float)
        m.check(got.shape == (len(q),), "knn: shape")
        m.check(np.isfinite(got), "knn: not finite")
        d = np.sqrt(np.sum((q[:, None] - ref) ** 2, -1))
        o = np.argsort(d, axis=1)
        ds = np.take_along_axis(d, o, 1)
        m.close(got[:n], v, "knn: value at the nodes", rtol=1e-3, atol=1e-3)
        kd, kv = ds[:, :k], v[o[:, :k]]
        w = 1 / np.maximum(kd, 1e-6)
        want = np.sum(w * kv, 1) / np.sum(w, 1)
        ok = np.ones(len(q), bool) if k == n else (ds[:, k] - ds[:, k - 1]) > 1e-3 * ds[:, k]
        ok[-2:] = k == n
        ok &= ds[:, 0] > 1e-3
        m.close(got[ok], want[ok], "knn: not the inverse distance average", rtol=2e-3, atol=2e-3)
        m.check((got >= v.min() - 1e-4) & (got <= v.max() + 1e-4), "knn: outside of the range of the nodes")
        f = lambda z: np.asarray(ip.map_interpolator_knn(jnp.asarray(z), _f(ref), _f(v), k=k))  # noqa
        _batch(m, "knn", f, q[: n + 60], got[: n + 60])
        m.seen("knn", (ndim, n, k))
        m.count("interpolated values", len(q))


@case
def compiled(m):
    """The same values inside of a compiled simulation, and finite gradients are not promised but values are."""
    rng = m.rng()
    lo, up, v, axes = _grid(rng, 2, (5, 4))
    q, _ = _queries(rng, axes, 30)
    for method in ("IDW", "LERP", "NN"):
        f = GRID[2, method]
        a = np.asarray(f(_f(q), _f(lo), _f(up), _f(v)))
        b = np.asarray(jax.jit(lambda z, l, u, w: f(z * 1.0, l, u, w) + 0.0)(_f(q), _f(lo), _f(up), _f(v)))
        m.close(b, a, f"{method}: differs inside of compiled code", rtol=1e-4, atol=1e-4 * np.max(np.abs(v)))
        m.seen("jit", method)
