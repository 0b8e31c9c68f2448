"""C30: GPU memory fraction and midpoint integration."""

import os
import subprocess
import sys
from fractions import Fraction

import numpy as np

import appletree as apt
from appletree.utils import cumulative_integrate_midpoint, integrate_midpoint
from lib.vh import case

PROPERTY = "C30"
RULE = (
    "fractions over nine decades, near and beyond both ends, of every numeric type; piecewise linear integrands on uniform, uneven, "
    "decreasing and repeated nodes, of every numeric type; distinct by (decade or grid, type)"
)
TECHNIQUE = "runtime monitoring: environment of the runtime against the request, integrals against exact rational arithmetic"

VAR = "XLA_PYTHON_CLIENT_MEM_FRACTION"


def request(value):
    os.environ.pop(VAR, None)
    apt.set_gpu_memory_usage(value)
    return os.environ.get(VAR)


def runtime_value(text):
    """How the runtime reads the variable."""
    return float(text) if text else None


@case(repeat=(1, 4))
def fractions(m):
    """Any fraction in (0, 1)."""
    rng = m.rng()
    old = os.environ.get(VAR)
    try:
        values = [i / 100 for i in range(1, 99)] + [0.1, 0.05, 0.011, 0.999, 0.995, 0.99, 0.0123, 0.3, 0.29, 0.58, 0.57, 0.07, 1e-3, 1e-4, 1e-5, 5e-324]
        values += list(10 ** rng.uniform(-9, 0, m.pick(300, 3000))) + list(rng.uniform(0, 1, m.pick(300, 3000)))
        for v in values:
            v = float(v)
            text = request(v)
            got = runtime_value(text)
            m.check(got is not None and 0 < got < 1, "below one and positive", fraction=v, got=text)
            if v <= 0.98:
                m.check(abs(got - v) <= 1e-9 * v, "the requested fraction", fraction=v, got=text)
            else:
                m.check(0.98 <= got <= max(v, 0.98) + 1e-12, "capped close to one", fraction=v, got=text)
            m.seen("decade", int(np.floor(np.log10(v))))
        # order is kept
        v = np.sort(rng.uniform(0, 1, 50))
        got = [runtime_value(request(float(x))) for x in v]
        m.check(np.all(np.diff(got) >= 0), "monotonic")
        # other types
        for v in (np.float64(0.25), np.float32(0.25), np.array(0.25), np.float16(0.5), Fraction(1, 4), np.float64(0.07)):
            m.check(abs(runtime_value(request(v)) - float(v)) <= 1e-6 * float(v), "the requested fraction", fraction=v)
            m.seen("type", type(v).__name__)
        # above
        for v in (1, 1.0, 1.0001, 2, 100, 1e9, np.inf, np.float32(3), True):
            got = runtime_value(request(v))
            m.check(got is not None and 0.9 <= got < 1, "capped below one", fraction=v, got=got)
            m.seen("above", repr(v))
        # not positive: refused, and the setting in place is kept
        for v in (0, 0.0, -0.0, -1e-9, -0.5, -1, -100, -np.inf, np.float32(-0.1), np.float64(0)):
            request(0.37)
            m.raises(ValueError, lambda v=v: apt.set_gpu_memory_usage(v), "fractions which are not positive are refused")
            m.check(runtime_value(os.environ[VAR]) == 0.37, "a refused request changes nothing", fraction=v)
            m.seen("refused", repr(v))
        # the last request counts, also over an existing one
        for v in rng.uniform(0.01, 0.98, 5):
            apt.set_gpu_memory_usage(float(v))
            m.check(abs(runtime_value(os.environ[VAR]) - v) <= 1e-9, "the last request counts")
        os.environ.pop(VAR, None)
        apt.set_gpu_memory_usage()
        m.check(runtime_value(os.environ[VAR]) == 0.3, "default fraction", got=os.environ[VAR])
        os.environ.pop(VAR, None)
        apt.set_gpu_memory_usage(fraction=0.41)
        m.check(runtime_value(os.environ[VAR]) == 0.41, "by name")
    finally:
        os.environ.pop(VAR, None)
        if old is not None:
            os.environ[VAR] = old


@case
def process(m):
    """A new process: what the runtime and its children get."""
    code = (
        "import os, subprocess, sys\n"
        "import appletree as apt\n"
        "print('AT', os.environ.get('XLA_PYTHON_CLIENT_MEM_FRACTION'))\n"
        "apt.set_gpu_memory_usage(float(sys.argv[1]))\n"
        "print('AT', os.environ.get('XLA_PYTHON_CLIENT_MEM_FRACTION'))\n"
        "print('AT', subprocess.run([sys.executable, '-c', 'import os; print(os.environ[\"XLA_PYTHON_CLIENT_MEM_FRACTION\"])'],"
        " capture_output=True, text=True).stdout.strip())\n"
    )
    f = float(np.round(m.rng().uniform(0.01, 0.9), 3))
    out = subprocess.run([sys.executable, "-c", code, repr(f)], capture_output=True, text=True, timeout=300)
    lines = [ln.split()[1] for ln in out.stdout.splitlines() if ln.startswith("AT ")]
    m.check(len(lines) == 3, "the process ran", out=out.stdout[-500:], err=out.stderr[-500:])
    m.check(abs(float(lines[1]) - f) < 1e-9 and abs(float(lines[2]) - f) < 1e-9, "fraction of the process", lines=lines, fraction=f)
    m.seen("process", f)


# ------------------------------------------------------------------ integration


def exact(x, y):
    """Middles and cumulative integrals of the piecewise linear function, exactly."""
    x, y = [Fraction(v) for v in x], [Fraction(v) for v in y]
    mid, total, out = [], Fraction(0), []
    for i in range(len(x) - 1):
        mid.append((x[i] + x[i + 1]) / 2)
        total += (x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2
        out.append(total)
    return mid, out


def nodes(rng, kind, n):
    if kind == "uniform":
        a = rng.uniform(-100, 100)
        return np.linspace(a, a + rng.uniform(0.1, 50), n)
    if kind == "uneven":
        return rng.uniform(-10, 10) + np.cumsum(rng.exponential(1.0, n))
    if kind == "decades":
        return np.sort(10 ** rng.uniform(-3, 3, n))
    if kind == "decreasing":
        return (rng.uniform(-10, 10) + np.cumsum(rng.exponential(1.0, n)))[::-1].copy()
    if kind == "steps":
        return np.repeat(np.cumsum(rng.uniform(0.1, 2, (n + 1) // 2)), 2)[:n]
    return np.cumsum(rng.integers(1, 9, n)).astype(float)


KINDS = ["uniform", "uneven", "decades", "decreasing", "steps", "integers"]


def judge(m, x, y, kind, tol=1e-12, **where):
    xs, ys = [float(v) for v in np.asarray(x)], [float(v) for v in np.asarray(y)]
    mid, cum = exact(xs, ys)
    gx, gc = cumulative_integrate_midpoint(x, y)
    gx, gc = np.asarray(gx, float), np.asarray(gc, float)
    m.check(gx.shape == gc.shape == (len(xs) - 1,), "one value per interval", shapes=(gx.shape, gc.shape), n=len(xs), kind=kind, **where)
    scale = sum(abs((xs[i + 1] - xs[i]) * (abs(ys[i]) + abs(ys[i + 1])) / 2) for i in range(len(xs) - 1)) + 1e-300
    err = max(abs(g - float(c)) for g, c in zip(gc, cum))
    m.check(err <= tol * scale, "cumulative integral", kind=kind, err=err, scale=scale, got=gc, want=[float(c) for c in cum], **where)
    err = max(abs(g - float(c)) for g, c in zip(gx, mid))
    m.check(err <= tol * (max(map(abs, xs)) + 1e-300), "middle of the intervals", kind=kind, err=err, **where)
    total = float(integrate_midpoint(x, y))
    m.check(abs(total - float(cum[-1])) <= tol * scale, "integral", kind=kind, got=total, want=float(cum[-1]), **where)
    inc = np.diff(np.concatenate([[0.0], gc]))
    m.check(abs(inc.sum() - total) <= tol * scale * 4, "increments sum to the integral", got=inc.sum(), want=total, kind=kind, **where)
    m.seen("integral", (kind, len(xs)))
    m.count("intervals", len(xs) - 1)


@case(repeat=(2, 20))
def integrals(m):
    """Samples of piecewise linear functions."""
    rng = m.rng()
    for kind in KINDS:
        for n in [2, 3, 4, 7] + list(rng.integers(5, m.pick(60, 200), 6)):
            n = int(n)
            x = nodes(rng, kind, n)
            y = rng.normal(0, 10 ** rng.uniform(-3, 3), n) if rng.random() < 0.7 else rng.uniform(0, 1, n)
            judge(m, x, y, kind)
            # the same samples as lists, and the same function on finer nodes
            judge(m, list(map(float, x)), list(map(float, y)), kind + "_list")
            if kind != "steps":
                fx = np.concatenate([[x[i], x[i] + (x[i + 1] - x[i]) * 0.25, x[i] + (x[i + 1] - x[i]) * 0.75] for i in range(n - 1)] + [[x[-1]]])
                order = np.argsort(x)
                fy = np.interp(fx, x[order], y[order])
                a, b = float(integrate_midpoint(fx, fy)), float(integrate_midpoint(x, y))
                scale = np.sum(np.abs(np.diff(x))) * np.max(np.abs(y)) + 1e-300
                m.check(abs(a - b) <= 1e-11 * scale, "more nodes do not change the integral", got=a, want=b, kind=kind)
    m.sample(kind=kind, n=n)


@case(repeat=(1, 6))
def lines(m):
    """Closed forms, linearity, reversal and pieces."""
    rng = m.rng()
    for _ in range(m.pick(40, 120)):
        a, b = rng.uniform(-5, 5, 2)
        x = np.sort(rng.uniform(-20, 20, int(rng.integers(2, 40))))
        L = x[-1] - x[0]
        want = a * L + b * (x[-1] ** 2 - x[0] ** 2) / 2
        m.check(abs(integrate_midpoint(x, a + b * x) - want) <= 1e-10 * (abs(want) + L * 100), "integral of a line", want=want)
        y, z = rng.normal(0, 1, (2, len(x)))
        c, d = rng.uniform(-3, 3, 2)
        got = cumulative_integrate_midpoint(x, c * y + d * z)[1]
        m.check(np.allclose(got, c * cumulative_integrate_midpoint(x, y)[1] + d * cumulative_integrate_midpoint(x, z)[1], rtol=0, atol=1e-10 * L), "linear")
        m.check(abs(integrate_midpoint(x[::-1], y[::-1]) + integrate_midpoint(x, y)) <= 1e-11 * L, "reversed")
        k = int(rng.integers(1, len(x))) if len(x) > 2 else 1
        parts = (integrate_midpoint(x[: k + 1], y[: k + 1]) if k > 0 else 0) + (integrate_midpoint(x[k:], y[k:]) if len(x[k:]) > 1 else 0)
        m.check(abs(parts - integrate_midpoint(x, y)) <= 1e-11 * L, "pieces add up", k=k)
        m.seen("line", len(x))


@case(repeat=(1, 6))
def types(m):
    """Integrands of other types are not spoiled by their type, and are not changed."""
    import jax.numpy as jnp

    rng = m.rng()
    for dt in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.float32, np.float64):
        for _ in range(m.pick(3, 10)):
            n = int(rng.integers(2, 30))
            if np.dtype(dt).kind in "iu":
                info = np.iinfo(dt)
                y = rng.integers(0 if info.min == 0 else max(info.min, -(2**40)), min(info.max, 2**40), n).astype(dt)
                x = np.sort(rng.choice(100, n, replace=False)).astype(dt)
                if rng.random() < 0.3:
                    x = x[::-1].copy()
            else:
                y, x = rng.normal(0, 5, n).astype(dt), np.sort(rng.uniform(0, 9, n)).astype(dt)
            x0, y0 = x.copy(), y.copy()
            judge(m, x, y, np.dtype(dt).name, tol=1e-12 if dt != np.float32 else 1e-5)
            m.check((x == x0).all() and (y == y0).all(), "the samples are not changed", type=np.dtype(dt).name)
    x, y = np.sort(rng.uniform(0, 9, 20)), rng.normal(0, 5, 20)
    judge(m, jnp.asarray(x), jnp.asarray(y), "jax", tol=1e-5)
    judge(m, tuple(x.tolist()), tuple(y.tolist()), "tuple")
    judge(m, [0, 1, 3], [True, False, True], "bool")
