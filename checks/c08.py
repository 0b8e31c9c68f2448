"""C08: maps are built as their file describes."""

import itertools
import json
import os

import numpy as np
import jax
from jax import numpy as jnp

import appletree as apt
from appletree.config import Map
from lib import interp, toys
from lib.vh import case

PROPERTY = "C08"
RULE = (
    "map files of every type (points and 1-3 dimensional grids, linear, logarithmic and mixed axes, densities and "
    "cumulative densities) with every method, applied directly and in a compiled simulation, and invalid variants of "
    "them; each applied value or refusal is an event; distinct by (type, dimension, axes, method)"
)
TECHNIQUE = "runtime monitor: float64 reference of the described function over maps built from generated files"

METHODS = ("IDW", "LERP", "NN")


def _build(path, method="IDW", name="test_map", llh_name=None):
    apt.share._cached_configs.clear()
    c = Map(name=name, default=path, method=method)
    c.taken_by = "Test"
    c.build(llh_name=llh_name)
    return c


def _apply(mp, q):
    return np.asarray(mp.apply(jnp.asarray(np.asarray(q, np.float32))), float)


def _f32(x):
    return np.asarray(x, np.float32).astype(float)


@case(repeat=(1, 6))
def points(m):
    rng = m.rng()
    for log, method in itertools.product((False, True), METHODS):
        for n in m.pick((rng.integers(2, 6), 25), (2, 3, 10, 100)):
            n = int(n)
            if log:
                x = 10 ** np.sort(rng.uniform(-3, 4, n) + np.arange(n) * 0.05)
                q = 10 ** rng.uniform(np.log10(x[0]) - 1, np.log10(x[-1]) + 1, 80)
            else:
                x = np.sort(rng.uniform(-50, 50, n)) + np.arange(n) * 0.5
                q = rng.uniform(x[0] - 10, x[-1] + 10, 80)
            v = rng.normal(0, 1, n) * 10 ** rng.uniform(-2, 4)  # values may well be negative
            x, v, q = _f32(x), _f32(v), _f32(np.concatenate([x, q]))
            mp = _build(toys.point_map(x, v, log=log), method)
            got = _apply(mp, q)
            what = f"{method} of a {'log ' * log}point map"
            m.check(got.shape == q.shape, f"{what}: shape")
            vs = np.max(np.abs(v))
            m.close(got[:n] / vs, v / vs, f"{what}: node values", rtol=0, atol=2e-5, x=x)
            t = np.log10 if log else (lambda a: a)
            ref, ok = interp.points(method, t(x), v, t(q))
            tol = 2e-5 + 2e-6 * np.max(np.abs(t(x))) / np.min(np.diff(t(x)))
            m.close(got[ok] / vs, ref[ok] / vs, f"{what}: not interpolated in its coordinate", rtol=0, atol=tol,
                    x=x, v=v)
            if log:
                z = _apply(mp, [0.0, -5.0, 1e-30])
                m.close(z / vs, [v[0] / vs] * 3, f"{what}: non-positive positions are not held to the edge", rtol=0,
                        atol=2e-5)
            m.seen("point", (log, method, n))
            m.count("applied values", len(q))
            m.sample(kind="log_point" if log else "point", method=method, nodes=n, query=q[-1], got=got[-1], want=ref[-1])


SHAPES = {1: (7,), 2: (5, 3), 3: (4, 2, 3)}


def _axes_flags(ndim):
    """coordinate_type of the file, and which axes are logarithmic."""
    out = [("regbin", [False] * ndim), ("log_regbin", [True] * ndim)]
    for flags in itertools.product((False, True), repeat=ndim):
        out.append((["log_regbin" if f else "regbin" for f in flags], list(flags)))
    return out


@case(repeat=(1, 6))
def grids(m):
    rng = m.rng()
    for ndim in (1, 2, 3):
        flavours = _axes_flags(ndim)
        if m.quick and ndim == 3:
            flavours = flavours[:2] + [flavours[2 + i] for i in rng.choice(8, 3, replace=False)]
        for types, flags in flavours:
            shape = SHAPES[ndim] if m.quick else tuple(rng.integers(2, 7, ndim))
            flags = np.array(flags)
            a = rng.uniform(-2, 2, ndim)
            b = a + rng.uniform(0.5, 2, ndim)
            lo = np.where(flags, 10**a, a * 10 - 5)
            up = np.where(flags, 10**b, b * 10 + 5)
            lo, up = _f32(lo), _f32(up)
            v = _f32(rng.normal(0, 1, shape) * 10 ** rng.uniform(-1, 3))
            vs = np.max(np.abs(v))
            t = lambda p: np.where(flags, np.log10(np.where(flags, p, 1.0)), p)  # noqa
            tl, tu = t(lo), t(up)
            inv = lambda p: np.where(flags, 10.0 ** np.where(flags, p, 0.0), p)  # noqa
            nodes = np.array(list(itertools.product(*[np.linspace(c, d, n) for c, d, n in zip(tl, tu, shape)])))
            q = rng.uniform(tl - 0.3 * (tu - tl), tu + 0.3 * (tu - tl), (150, ndim))
            q[:100] = rng.uniform(tl, tu, (100, ndim))
            q = inv(np.concatenate([nodes, q]))
            q = _f32(q)
            path = toys.regbin_map(lo, up, v, types=types, names=["a", "b", "c"][:ndim])
            for method in METHODS:
                mp = _build(path, method)
                got = _apply(mp, q if ndim > 1 else q[:, 0])
                what = f"{method} of a {ndim}D grid with axes {types}"
                m.check(got.shape == (len(q),), f"{what}: shape", got=got.shape)
                m.check(np.isfinite(got), f"{what}: not finite")
                ref, ok = interp.grid(method, tl, tu, v, t(q))
                step = (tu - tl) / (np.array(shape) - 1)
                tol = 2e-5 + 3e-6 * np.max(np.maximum(np.abs(tl), np.abs(tu))) / np.min(step) * np.max(step) / np.min(step)
                m.close(got[: len(nodes)] / vs, v.ravel() / vs, f"{what}: node values", rtol=0, atol=5 * tol)
                m.close(got[ok] / vs, ref[ok] / vs, f"{what}: not interpolated in its coordinate", rtol=0, atol=5 * tol)
                m.check((got >= v.min() - tol * vs) & (got <= v.max() + tol * vs), f"{what}: outside of its values")
                m.seen("grid", (ndim, str(types), method))
                m.count("applied values", len(q))
            m.sample(types=types, shape=shape, query=q[-60], got=got[-60], want=ref[-60])


@case(repeat=(1, 6))
def densities(m):
    """A density is turned into the inverse of its cumulative distribution."""
    rng = m.rng()
    for i in range(m.pick(6, 12)):
        n = int(rng.choice([10, 40, 200]))
        x = np.cumsum(rng.uniform(0.5, 1.5, n)) if i % 2 else np.linspace(0, n, n)
        x = (x - rng.uniform(0, n)) * 10 ** rng.uniform(-1, 1)
        if i % 3 == 0:
            pdf = rng.uniform(0.2, 1, n)
        elif i % 3 == 1:
            pdf = np.exp(-0.5 * ((x - x.mean()) / (np.ptp(x) / 8)) ** 2)
        else:
            pdf = rng.uniform(0.5, 1, n)
            pdf[n // 3: n // 2] = 0.0
        # (the scale of a density is arbitrary)
        pdf = pdf * 10 ** (rng.uniform(-1, 1) + (-3, 0, 3, -5, 5, 0)[(i + i // 6) % 6])
        x, pdf = _f32(x), _f32(pdf)
        path = toys.point_map(x, pdf, coord="pdf")
        seg = np.concatenate([[0], np.cumsum(0.5 * (pdf[1:] + pdf[:-1]) * np.diff(x))])
        total = seg[-1]

        def F(t):
            """Exact cumulative distribution of the piecewise linear density."""
            t = np.clip(t, x[0], x[-1])
            k = np.clip(np.searchsorted(x, t, side="right") - 1, 0, n - 2)
            d = t - x[k]
            s = (pdf[k + 1] - pdf[k]) / (x[k + 1] - x[k])
            return (seg[k] + pdf[k] * d + 0.5 * s * d * d) / total

        dx = np.max(np.diff(x)) * 1.01
        u = np.concatenate([rng.uniform(0, 1, 300), [1e-6, 0.5, 1 - 1e-6, 0.0, 1.0]])
        for method in METHODS:
            mp = _build(path, method)
            got = _apply(mp, u)
            what = f"{method} of a density"
            m.check(np.isfinite(got), f"{what}: not finite")
            m.check((got >= x[0] - 1e-5 * abs(x).max()) & (got <= x[-1] + 1e-5 * abs(x).max()), f"{what}: out of range")
            width = dx if method != "NN" else 2 * dx
            lo, hi = F(got - width), F(got + width)
            bad = (lo > u + 1e-4) | (hi < u - 1e-4)
            if method == "NN":  # the nearest node may lie on the other side of a gap
                bad &= np.abs(F(got) - u) > 1.01 * np.max(np.diff(seg)) / total + 1e-4
            m.check(~bad, f"{what}: not the inverse cumulative distribution", u=u[bad][:5], got=got[bad][:5],
                    between=[lo[bad][:5], hi[bad][:5]])
            s = np.argsort(u)
            m.check(np.diff(got[s]) >= -1e-4 * dx, f"{what}: not monotonic")
            # the distribution keeps its mean up to the spacing
            uu = (np.arange(5000) + 0.5) / 5000
            w = _apply(mp, uu)
            tt = np.linspace(x[0], x[-1], 20001)
            mean = x[-1] - np.sum(0.5 * (F(tt)[1:] + F(tt)[:-1]) * np.diff(tt))
            m.check(abs(w.mean() - mean) < width, f"{what}: mean", got=w.mean(), want=mean, spacing=dx)
        m.count("applied values", len(u) * 3)
        m.seen("pdf", (n, i % 3, i % 2))
        m.sample(kind="pdf", n=n, u=u[0], got=got[0])
    # the spacing does not matter in the limit
    x = np.linspace(-5, 5, 4001)
    mp = _build(toys.point_map(x, np.exp(-x * x / 2), coord="pdf"))
    from scipy.stats import norm

    u = np.linspace(0.01, 0.99, 99)
    m.close(_apply(mp, u), norm.ppf(u), "fine density", rtol=0, atol=0.01)
    # a cumulative distribution is used as it is
    x = np.sort(rng.uniform(0, 1, 20))
    x[0], x[-1] = 0, 1
    v = np.cumsum(rng.uniform(0, 3, 20))
    mp = _build(toys.point_map(x, v, coord="cdf"), "LERP")
    m.close(_apply(mp, u), np.interp(u, _f32(x), _f32(v)), "cumulative distribution", rtol=1e-4, atol=1e-4)


def _write(obj):
    return toys.dump_json(obj)


def _point(**kw):
    return {"coordinate_type": "point", "coordinate_name": "x", "coordinate_system": [1.0, 2.0, 3.0],
            "map": [3.0, 1.0, 2.0], **kw}


def _reg(**kw):
    return {"coordinate_type": "regbin", "coordinate_name": ["x", "y"], "coordinate_lowers": [1.0, 2.0],
            "coordinate_uppers": [3.0, 5.0], "map": [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], **kw}


@case
def invalid(m):
    """Invalid descriptions are rejected when the map is built (and their valid neighbours are not)."""
    good = {
        "point": _point(), "log_point": _point(coordinate_type="log_point"), "regbin": _reg(),
        "log_regbin": _reg(coordinate_type="log_regbin"), "mixed": _reg(coordinate_type=["regbin", "log_regbin"]),
        "mixed, negative on the linear axis": _reg(coordinate_type=["regbin", "log_regbin"], coordinate_lowers=[-1.0, 2.0]),
        "mixed, zero on the linear axis": _reg(coordinate_type=["log_regbin", "regbin"], coordinate_lowers=[1.0, 0.0]),
        "pdf": _point(coordinate_name="pdf"), "cdf": _point(coordinate_name="cdf"),
        "linear, negative": _point(coordinate_system=[-1.0, 0.0, 1.0]),
        "linear grid, negative": _reg(coordinate_lowers=[-1.0, -2.0], coordinate_uppers=[0.0, 1.0]),
        "negative values on log axes": _point(coordinate_type="log_point", map=[-3.0, 0.0, 2.0]),
        "pdf on a linear axis next to a log axis": _reg(coordinate_type=["regbin", "log_regbin"], coordinate_name=["pdf", "y"]),
    }
    bad = {
        "unknown type": _point(coordinate_type="points"), "empty type": _point(coordinate_type=""),
        "unknown type of a grid": _reg(coordinate_type="bin"), "no type": _point(coordinate_type=None),
        "unknown type of an axis": _reg(coordinate_type=["regbin", "log"]),
        "point axes": _reg(coordinate_type=["point", "regbin"]),
        "too few axis types": _reg(coordinate_type=["regbin"]), "no axis types": _reg(coordinate_type=[]),
        "too many axis types": _reg(coordinate_type=["regbin", "log_regbin", "regbin"]),
        "log pdf": _point(coordinate_type="log_point", coordinate_name="pdf"),
        "log cdf": _point(coordinate_type="log_point", coordinate_name="cdf"),
        "log grid with pdf": _reg(coordinate_type="log_regbin", coordinate_name=["x", "pdf"]),
        "log grid with cdf": _reg(coordinate_type="log_regbin", coordinate_name=["cdf", "y"]),
        "mixed grid with log pdf": _reg(coordinate_type=["regbin", "log_regbin"], coordinate_name=["x", "pdf"]),
        "mixed grid with log cdf": _reg(coordinate_type=["log_regbin", "regbin"], coordinate_name=["cdf", "y"]),
        "zero in log points": _point(coordinate_type="log_point", coordinate_system=[0.0, 1.0, 2.0]),
        "negative in log points": _point(coordinate_type="log_point", coordinate_system=[-1.0, 1.0, 2.0]),
        "negative at the end of log points": _point(coordinate_type="log_point", coordinate_system=[1.0, 2.0, -3.0]),
        "zero lower edge": _reg(coordinate_type="log_regbin", coordinate_lowers=[1.0, 0.0]),
        "negative lower edge": _reg(coordinate_type="log_regbin", coordinate_lowers=[-1.0, 1.0]),
        "negative upper edge": _reg(coordinate_type="log_regbin", coordinate_uppers=[-1.0, 1.0]),
        "mixed, zero lower edge": _reg(coordinate_type=["regbin", "log_regbin"], coordinate_lowers=[1.0, 0.0]),
        "mixed, negative upper edge": _reg(coordinate_type=["log_regbin", "regbin"], coordinate_uppers=[-1.0, 1.0]),
        "1D log grid from zero": _reg(coordinate_type="log_regbin", coordinate_name=["x"], coordinate_lowers=[0.0],
                                      coordinate_uppers=[1.0], map=[1.0, 2.0]),
        "four dimensions": _reg(coordinate_name=list("abcd"), coordinate_lowers=[0.0] * 4, coordinate_uppers=[1.0] * 4,
                                map=np.ones((2, 2, 2, 2)).tolist()),
    }
    for what, obj in good.items():
        mp = _build(_write(obj))
        pos = [[2.0, 3.0]] if "lowers" in str(obj) else [2.0]
        m.check(np.isfinite(_apply(mp, pos)), f"valid map is not usable: {what}")
        m.seen("valid", what)
    for what, obj in bad.items():
        m.raises(Exception, lambda: _build(_write(obj)), f"map with {what} is not rejected")
        m.seen("invalid", what)
    for method in ("nn", "", "linear", None, "KNN"):
        for obj in (_point(), _reg(), _reg(coordinate_name=["x"], coordinate_lowers=[1.0], coordinate_uppers=[2.0],
                                           map=[1.0, 2.0])):
            m.raises(Exception, lambda: _build(_write(obj), method), f"method {method} is not rejected")
            m.seen("method", (method, len(obj["map"])))
    d = toys.scratch()
    files = {"broken": b'{"coordinate_type": "point", ', "binary": bytes(range(256)), "empty": b"", "text": b"hello"}
    for name, content in files.items():
        with open(os.path.join(d, name + ".json"), "wb") as f:
            f.write(content)
        m.raises(Exception, lambda: _build(os.path.join(d, name + ".json")), f"{name} file is not rejected")
        m.seen("file", name)
    m.raises(Exception, lambda: _build(os.path.join(d, "missing.json")), "missing file is not rejected")
    # the refusal happens when a component is set up too
    P = toys.plugin("BadMap", ["batch_size"], ["v"], lambda self, key, parameters, batch_size: (
        key, self.bad_map.apply(jnp.ones(batch_size))), configs=[Map(name="bad_map", default=_write(bad["unknown type"]))])
    m.raises(Exception, lambda: toys.build([P], ["v"]), "invalid map is accepted by a component")


@case
def simulated(m):
    """The described function is what a compiled simulation uses."""
    rng = m.rng()
    x = _f32(10 ** np.sort(rng.uniform(0, 2, 8)))
    v = _f32(rng.normal(0, 3, 8))
    lo, up = _f32([-2.0, 1.0]), _f32([2.0, 100.0])
    g = _f32(rng.normal(0, 3, (4, 5)))

    def body(self, key, parameters, batch_size):
        key, a = apt.randgen.uniform(key, 0.5, 150.0, shape=(batch_size,))
        key, b = apt.randgen.uniform(key, -3.0, 3.0, shape=(batch_size,))
        return key, a, b, self.m_point.apply(a), self.m_grid.apply(jnp.stack([b, a], axis=1))

    P = toys.plugin(
        "MapUser", ["batch_size"], ["a", "b", "p", "g"], body, jit=True,
        configs=[Map(name="m_point", default=toys.point_map(x, v, log=True), method="LERP"),
                 Map(name="m_grid", default=toys.regbin_map(lo, up, g, types=["regbin", "log_regbin"]), method="LERP")],
    )
    c = toys.build([P], ["a", "b", "p", "g"], force_no_eff=True)
    _, (a, b, p, gg) = c.simulate(m.key(), 300, {})
    a, b = np.asarray(a, float), np.asarray(b, float)
    m.close(p, interp.points("LERP", np.log10(x), v, np.log10(a))[0], "point map in a simulation", rtol=1e-3, atol=1e-3)
    tl, tu = np.array([lo[0], np.log10(lo[1])]), np.array([up[0], np.log10(up[1])])
    m.close(gg, interp.grid("LERP", tl, tu, g, np.stack([b, np.log10(a)], 1))[0], "grid in a simulation", rtol=1e-3,
            atol=1e-3)
    m.seen("simulated", 300)


@case
def shipped(m):
    """Every shipped map file is built as it describes."""
    from appletree.utils import _package_path

    d = str(_package_path("maps"))
    rng = m.rng()
    for name in sorted(os.listdir(d)):
        if not name.endswith(".json"):
            continue
        with open(os.path.join(d, name)) as f:
            obj = json.load(f)
        if not isinstance(obj, dict) or "coordinate_type" not in obj:
            continue
        mp = _build(name, "IDW")
        t = obj["coordinate_type"]
        if t in ("point", "log_point") and obj["coordinate_name"] != "pdf":
            x, v = np.array(obj["coordinate_system"], float), np.array(obj["map"], float)
            if np.any(np.diff(x) <= 1e-6 * np.abs(x[1:])):
                continue
            got = _apply(mp, x)
            vs = np.max(np.abs(v)) + 1e-30
            m.close(got / vs, v / vs, f"{name}: node values", rtol=1e-4, atol=1e-3)
        elif "regbin" in str(t):
            lo, up, v = (np.array(obj[k], float) for k in ("coordinate_lowers", "coordinate_uppers", "map"))
            q = rng.uniform(lo, up, (50, len(lo)))
            got = _apply(mp, q if len(lo) > 1 else q[:, 0])
            m.check((got >= v.min() - 1e-4 * abs(v).max()) & (got <= v.max() + 1e-4 * abs(v).max()), f"{name}: range")
        m.seen("shipped", name)


assert jax
