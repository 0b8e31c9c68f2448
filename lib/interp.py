"""Float64 references of the interpolation methods."""

import itertools

import numpy as np
from scipy.interpolate import RegularGridInterpolator


def points(method, x, v, q):
    """(values, unambiguous queries) of a point map."""
    x, v, q = (np.asarray(a, float) for a in (x, v, q))
    if method == "NN":
        d = np.abs(np.clip(q, x[0], x[-1])[:, None] - x)
        s = np.sort(d, axis=1)
        return v[np.argmin(d, 1)], (s[:, 1] - s[:, 0]) > 1e-3 * s[:, 1]
    return np.interp(q, x, v), np.ones(len(q), bool)


def grid(method, lo, up, v, q):
    """(values, unambiguous queries) of a regular grid; q has shape (N, D) in the coordinate of the grid."""
    lo, up, v, q = (np.asarray(a, float) for a in (lo, up, v, q))
    shape = v.shape
    ndim = len(shape)
    axes = [np.linspace(a, b, n) for a, b, n in zip(lo, up, shape)]
    step = (up - lo) / (np.array(shape) - 1)
    frac = (q - lo) / step
    if method == "LERP" or ndim == 1 and method == "IDW":
        return RegularGridInterpolator(axes, v)(np.clip(q, lo, up)), np.ones(len(q), bool)
    if method == "NN":
        fr = np.clip(frac, 0, np.array(shape) - 1)
        tie = np.any(np.abs(fr - np.floor(fr) - 0.5) < 1e-2, axis=1)
        return v[tuple(np.round(fr).astype(int).T)], ~tie
    # inverse distance average of the corners of the cell
    out = np.any((q < lo) | (q > up), axis=1)
    border = np.any(np.abs(frac - np.round(frac)) < 1e-2, axis=1)
    idx = np.clip(np.floor(frac), 0, np.array(shape) - 2).astype(int)
    num = den = 0
    for c in itertools.product((0, 1), repeat=ndim):
        j = idx + np.array(c)
        d = np.sqrt(np.sum((lo + j * step - q) ** 2, -1))
        w = 1 / np.maximum(d, 1e-300)
        num, den = num + w * v[tuple(j.T)], den + w
    return num / den, ~out & ~border
