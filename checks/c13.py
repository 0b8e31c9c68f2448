"""C13: data selection and binning cover exactly the region of interest."""

import copy

import numpy as np
from jax import numpy as jnp

import appletree as apt
from appletree.likelihood import Likelihood
from appletree.utils import get_equiprob_bins_1d, get_equiprob_bins_2d
from lib import toys
from lib.vh import case

PROPERTY = "C13"
RULE = (
    "random data sets (20-3000 events, inside, outside and exactly on the boundaries of the region, unordered and extra columns) with "
    "all binning types in one and two dimensions; distinct by (binning type, dimension, numbers of bins)"
)
TECHNIQUE = "runtime monitoring: selection, edges and counts of the likelihood against a direct count of the data file"
ASSUMPTIONS = ["bins with equal numbers are only asked of data without ties"]


def sample(rng, n, roi, name):
    """n values around the region of interest, a few exactly on its boundaries, the rest without ties."""
    lo, hi = roi
    w = hi - lo
    kind = str(rng.choice(["uniform", "normal", "skew", "all inside"]))
    if kind == "uniform":
        x = rng.uniform(lo - 0.3 * w, hi + 0.3 * w, n)
    elif kind == "normal":
        x = rng.normal(lo + 0.4 * w, 0.3 * w, n)
    elif kind == "skew":
        x = lo - 0.1 * w + rng.exponential(0.3 * w, n)
    else:
        x = rng.uniform(lo, hi, n)
    x = np.asarray(x, np.float32).astype(float)
    x = np.unique(x)
    while len(x) < n:
        x = np.unique(np.concatenate([x, rng.uniform(lo, hi, n - len(x)).astype(np.float32).astype(float)]))
    x = x[rng.permutation(len(x))]
    x[: 3] = [lo, hi, lo]  # on the boundary: outside
    return x[rng.permutation(n)]


def make(rng, n, dim, rois):
    names = ["vx", "vy"][:dim]
    cols = {k: sample(rng, n, r, k) for k, r in zip(names, rois)}
    return cols, toys.csv({"extra": np.arange(n), **{k: cols[k] for k in names[::-1]}})


def inside(cols, rois):
    s = np.ones(len(next(iter(cols.values()))), bool)
    for v, (lo, hi) in zip(cols.values(), rois):
        s &= (v > lo) & (v < hi)
    return np.stack(list(cols.values()), 1)[s]


def likelihood(name, path, dim, rois, bins_type, bins, string=True, **kw):
    cfg = dict(data_file_name=path, bins_type=bins_type, bins_on=["vx", "vy"][:dim], bins=bins, **kw)
    if dim == 1 and string:
        cfg["bins_on"] = "vx"
    cfg.update(dict(clip=rois[0]) if dim == 1 else dict(x_clip=rois[0], y_clip=rois[1]))
    saved = copy.deepcopy(cfg)
    return Likelihood(name=name, **cfg), saved, cfg


_n = [0]


def bins_of(llh, path):
    """The bins a component of the likelihood gets."""
    _n[0] += 1
    cls = toys.fixed_cls("BinsOf", add=False, add_eps=False)
    llh.register_component(cls, f"b{_n[0]}", file_name=path)
    c = llh.components.pop(f"b{_n[0]}")
    return c, c.bins


def kept(m, llh, want, what, **data):
    got = np.asarray(llh.data, float)
    m.check(got.shape == want.shape, what + ": number of selected events", got=got.shape, want=want.shape, **data)
    m.close(got[np.lexsort(got.T)], want[np.lexsort(want.T)], what + ": selected events", rtol=1e-12, atol=1e-12, **data)
    m.count("events selected", len(want))


def counts(sel, bins):
    """Counts of (lo, hi] and of [lo, hi), in single precision like the data histogram."""
    sel = np.asarray(sel, np.float32)
    if len(bins) == 1:
        b = np.asarray(bins[0], np.float32)
        x = sel[:, 0]
        return np.array([[((x > b[i]) & (x <= b[i + 1])).sum(), ((x >= b[i]) & (x < b[i + 1])).sum()] for i in range(len(b) - 1)])
    bx, by = (np.asarray(b, np.float32) for b in bins)
    if by.ndim == 1:
        by = np.tile(by, (len(bx) - 1, 1))
    out = np.zeros((len(bx) - 1, by.shape[1] - 1, 2))
    x, y = sel[:, 0], sel[:, 1]
    for i in range(len(bx) - 1):
        for j in range(by.shape[1] - 1):
            out[i, j, 0] = ((x > bx[i]) & (x <= bx[i + 1]) & (y > by[i, j]) & (y <= by[i, j + 1])).sum()
            out[i, j, 1] = ((x >= bx[i]) & (x < bx[i + 1]) & (y >= by[i, j]) & (y < by[i, j + 1])).sum()
    return out


def judge_hist(m, llh, sel, bins, on_edges, what, **data):
    h = np.asarray(llh.data_hist, float)
    c = counts(sel, bins)
    m.check(h.shape == c.shape[:-1], what + ": shape of the data histogram", got=h.shape, want=c.shape[:-1], **data)
    m.check(np.all(h == np.round(h)), what + ": counts are no integers", hist=h, **data)
    if not on_edges:
        m.same(h, c[..., 0], what + ": data histogram", **data)
    else:  # edges are data events: either convention, but a single one
        m.check(np.array_equal(h, c[..., 0]) or np.array_equal(h, c[..., 1]), what + ": data histogram", got=h, want=c[..., 0], **data)
    return h


@case(repeat=(2, 12))
def equiprob(m):
    """Equiprobable bins."""
    rng = m.rng()
    for dim in (1, 2):
        for k in range(m.pick(3, 4)):
            rois = [sorted((np.round(rng.uniform(-50, 100, 2) * 4) / 4).tolist()) for _ in range(dim)]
            rois = [[lo, hi + 1.0] for lo, hi in rois]
            if k == 0:  # around zero
                rois = [[-8.0, 5.0], [-20.0, 30.0]][:dim]
            nb = [int(v) for v in rng.integers(1, 9, dim)]
            cols, path = make(rng, int(rng.choice([300, 1000, 3000])), dim, rois)
            sel = inside(cols, rois)
            if len(sel) < 3 * np.prod(nb):
                continue
            m.count("events outside or on the boundary", len(cols["vx"]) - len(sel))
            extra = {} if k % 2 else dict(left=False)
            for string in (True, False) if dim == 1 else (True,):
                b = nb[0] if dim == 1 and string and rng.random() < 0.5 else list(nb)
                llh, saved, cfg = likelihood("eq", path, dim, rois, "equiprob", b, string, **extra)
                m.check(cfg == saved, "the configuration is modified")
                kept(m, llh, sel, "equiprob", dim=dim)
                comp, bins = bins_of(llh, path)
                m.check(isinstance(bins, tuple) and len(bins) == dim, "bins", got=repr(type(bins)))
                judge_equiprob(m, [np.asarray(v, float) for v in bins], rois, nb, dim)
                h = judge_hist(m, llh, sel, bins, True, "equiprob", dim=dim, numbers=nb)
                m.check(h.sum() == len(sel), "not all selected events are counted", got=h.sum(), want=len(sel), dim=dim)
                m.check(np.max(np.abs(h - len(sel) / np.prod(nb))) < 4.5, "bins do not hold equal numbers", hist=h, events=len(sel), bins=nb)
                # (events exactly on the outer edges may be counted by the component, the data selection drops them)
                on = sum(int(np.isin(np.float32(v), np.float32(r)).sum()) for v, r in zip(cols.values(), rois))
                m.check(np.abs(np.asarray(comp.hist, float) - h).sum() <= on, "a component of the same data gets another histogram",
                        dim=dim, got=comp.hist, want=h)
                m.seen("equiprob", (dim, tuple(nb)))
            m.sample(dim=dim, roi=rois, bins=nb, events=len(sel), hist=h)


def judge_equiprob(m, bins, rois, nb, dim):
    m.check(bins[0].shape == (nb[0] + 1,), "number of bins", got=bins[0].shape, want=nb)
    m.check(np.all(np.diff(bins[0]) > 0), "edges are not ordered", edges=bins[0])
    m.close(bins[0][[0, -1]], rois[0], "bins do not span the region of interest", rtol=1e-6, atol=1e-6)
    if dim == 2:
        m.check(bins[1].shape == (nb[0], nb[1] + 1), "number of bins of the second axis", got=bins[1].shape, want=nb)
        m.check(np.all(np.diff(bins[1], axis=1) > 0), "edges of the second axis are not ordered", edges=bins[1])
        m.close(bins[1][:, [0, -1]], np.tile(rois[1], (nb[0], 1)), "bins do not span the second axis", rtol=1e-6, atol=1e-6)


@case(repeat=(1, 8))
def utilities(m):
    """The binning functions themselves, numpy or jax, in either order, with data outside of the clip."""
    rng = m.rng()
    for k in range(6):
        rois = [sorted(rng.uniform(-5, 5, 2).tolist()) for _ in range(2)]
        rois = [[lo, hi + 1.0] for lo, hi in rois]
        data = np.stack([sample(rng, 1500, r, "") for r in rois], 1)
        nb = [int(v) for v in rng.integers(1, 7, 2)]
        for which in (np, jnp):
            sel = data[(data[:, 0] > rois[0][0]) & (data[:, 0] < rois[0][1])]
            b = get_equiprob_bins_1d(data[:, 0], nb[0], clip=rois[0], which_np=which)
            m.check(isinstance(b, np.ndarray if which is np else jnp.ndarray), "type of the bins", got=repr(type(b)))
            judge_equiprob(m, [np.asarray(b, float)], rois, nb, 1)
            c = np.histogram(sel[:, 0], bins=np.asarray(b, float))[0]
            m.check(np.max(np.abs(c - len(sel) / nb[0])) < 3.5, "unequal numbers", counts=c)
            sel = sel[(sel[:, 1] > rois[1][0]) & (sel[:, 1] < rois[1][1])]
            if len(sel) < 100:
                continue
            for order in ((0, 1), (1, 0), [0, 1]):
                f, s = get_equiprob_bins_2d(data, nb, order=order, x_clip=rois[0], y_clip=rois[1], which_np=which)
                o = list(order)
                judge_equiprob(m, [np.asarray(f, float), np.asarray(s, float)], [rois[i] for i in o], [nb[i] for i in o], 2)
                c = counts(sel[:, o], (np.asarray(f, float), np.asarray(s, float)))
                c = c.mean(axis=-1)
                m.check(np.max(np.abs(c - len(sel) / np.prod(nb))) < 6, "unequal numbers in two dimensions", counts=c, order=o)
            m.seen("utilities", (which.__name__, tuple(nb)))
    # without a clip all data are used
    x = rng.normal(0, 1, 1000)
    b = np.asarray(get_equiprob_bins_1d(x, 4))
    m.check(np.histogram(x, b)[0].sum() == 1000, "default clip drops data")
    f, s = get_equiprob_bins_2d(np.stack([x, -x], 1), [2, 2])
    m.check(np.asarray(f)[0] == -np.inf and np.asarray(s)[0, -1] == np.inf, "default clip in two dimensions")


@case(repeat=(1, 6))
def integers(m):
    """Integer observables: the edges are between integers and keep every event."""
    rng = m.rng()
    for left in (True, False):
        for dim in (1, 2):
            n = 3000
            roi = [-0.5, 40.5]
            # random integers tie: the binning refuses or warns about ties depending on the second axis
            vx = rng.poisson(15, n).astype(float)
            vx[:2] = [41, 50]
            cols = {"vx": vx, "vy": sample(rng, n, [0.0, 10.0], "")}
            path = toys.csv({"vy": cols["vy"], "vx": vx})
            rois = [roi, [0.0, 10.0]][:dim]
            cols = {k: cols[k] for k in ("vx", "vy")[:dim]}
            llh, _, _ = likelihood("int", path, dim, rois, "equiprob", [4, 3][:dim], True, left=left,
                                   integer=True if dim == 1 else [True, False])
            sel = inside(cols, rois)
            kept(m, llh, sel, "integers")
            _, bins = bins_of(llh, path)
            e = np.asarray(bins[0], float)
            m.check(np.all(np.diff(e) >= 0), "edges of integers are not ordered", edges=e)
            m.close(e[[0, -1]], roi, "bins of integers do not span the region")
            m.check(np.all(np.abs(e - np.round(e)) > 1e-3), "an edge coincides with an integer", edges=e)
            h = judge_hist(m, llh, sel, bins, False if dim == 1 else True, "integers", dim=dim)
            m.check(h.sum() == len(sel), "an integer is not counted", got=h.sum(), want=len(sel))
            share = h.sum(axis=tuple(range(1, dim))) / h.sum()
            m.check(np.all(np.abs(share - 0.25) < 0.15), "bins of integers are far from equal", share=share)
            m.seen("integer", (left, dim))
    # the side to start from: the mirrored data started from the other side have the mirrored bins
    differ = 0
    for trial in range(4):
        vx = rng.poisson(6, 1500).astype(float)
        vy = sample(rng, 1500, [0.0, 10.0], "")
        for dim, nb in ((1, [6]), (1, [4]), (2, [6, 2]), (2, [4, 3])):
            rois = [[-0.5, 30.5], [0.0, 10.0]][:dim]
            mirrored = [[-30.5, 0.5], [0.0, 10.0]][:dim]
            first = {}
            for left in (True, False):
                got = []
                for sign, r, side in ((1, rois, left), (-1, mirrored, not left)):
                    path = toys.csv({"vy": vy, "vx": sign * vx})
                    llh, _, _ = likelihood("side", path, dim, r, "equiprob", list(nb), True, left=side,
                                           integer=True if dim == 1 else [True, False])
                    got.append([np.asarray(b, float) for b in bins_of(llh, path)[1]])
                a, b = got
                m.close(-b[0][::-1], a[0], "bins of mirrored integers", rtol=1e-6, atol=1e-6, left=left, dim=dim)
                if dim == 2:
                    m.close(b[1][::-1], a[1], "second axis of mirrored integers", rtol=1e-6, atol=1e-6, left=left)
                first[left] = a[0]
            differ += not np.array_equal(first[True], first[False])
            m.seen("side", (dim, tuple(nb)))
    m.check(differ > 0, "the side to start from never matters in this workload")


@case(repeat=(2, 10))
def explicit(m):
    """Explicit and counted bins are used as given."""
    rng = m.rng()
    rois = [[2.0, 30.0], [100.0, 900.0]]
    cols, path = make(rng, 1200, 2, rois)
    nx, ny = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    odd = 0.0000137  # the edges are no data
    ex = np.sort(rng.uniform(1, 33, nx + 1)) + odd
    ey1 = np.sort(rng.uniform(50, 1000, ny + 1)) + odd
    ey2 = np.sort(rng.uniform(50, 1000, (nx, ny + 1)), axis=1) + odd
    specs = [
        ("irreg", 1, [ex.tolist()], (ex,), False), ("meshgrid", 1, [ex.tolist()], (ex,), False),
        ("meshgrid", 1, [nx], (np.linspace(2, 30, nx + 1),), True), ("meshgrid", 1, nx, (np.linspace(2, 30, nx + 1),), True),
        ("irreg", 2, [ex.tolist(), ey2.tolist()], (ex, ey2), False), ("meshgrid", 2, [ex.tolist(), ey1.tolist()], (ex, ey1), False),
        ("meshgrid", 2, [nx, ny], (np.linspace(2, 30, nx + 1), np.linspace(100, 900, ny + 1)), True),
        ("meshgrid", 2, [nx, ey1.tolist()], (np.linspace(2, 30, nx + 1), ey1), True),
        ("meshgrid", 2, [ex.tolist(), ny], (ex, np.linspace(100, 900, ny + 1)), True),
        ("irreg", 2, [ex, ey2], (ex, ey2), False),
    ]
    specs += [("meshgrid", 1, [n], (np.linspace(2, 30, n + 1),), True) for n in (1, 2, 40)]
    specs += [("meshgrid", 2, [i, j], (np.linspace(2, 30, i + 1), np.linspace(100, 900, j + 1)), True) for i, j in ((1, 1), (1, 5), (9, 1))]
    for kind, dim, bins, want, counted in specs:
        llh, saved, cfg = likelihood("ex", path, dim, rois, kind, bins)
        c = {k: cols[k] for k in ("vx", "vy")[:dim]}
        sel = inside(c, rois[:dim])
        kept(m, llh, sel, kind, dim=dim)
        comp, got = bins_of(llh, path)
        m.check(comp.bins_type == kind, "binning type of the component", got=comp.bins_type)
        m.check(len(got) == dim, "bins", got=len(got))
        for a, b in zip(got, want):
            m.close(np.asarray(a, float), b, "bins are not as given", rtol=1e-6, atol=1e-6, kind=kind, bins=bins)
        near = np.all([np.min(np.abs(sel[:, i][:, None] - np.ravel(want[i])[None]), axis=1) > 1e-4 * np.max(np.abs(want[i]))
                       for i in range(dim)], axis=0)
        h = np.asarray(llh.data_hist, float)
        ref = counts(sel, want)
        slack = (~near).sum()
        m.check(h.shape == ref.shape[:-1], "shape of the data histogram", got=h.shape)
        m.check(np.abs(h - ref[..., 0]).sum() <= 2 * slack, "data histogram of explicit bins", got=h, want=ref[..., 0], kind=kind)
        if dim == 1 and counted:
            m.check(h.sum() == len(sel), "counted bins do not keep all events", got=h.sum(), want=len(sel))
        m.check(h.sum() <= len(sel), "events counted twice", got=h.sum(), want=len(sel))
        m.count("bins compared", h.size)
        m.seen("explicit", (kind, dim, counted))


@case
def refused(m):
    """Inconsistent binning."""
    rng = m.rng()
    rois = [[2.0, 30.0], [100.0, 900.0]]
    cols, path = make(rng, 400, 2, rois)
    ex, ey = [2.0, 10.0, 30.0], [[100.0, 500.0, 900.0], [100.0, 400.0, 900.0]]
    base = dict(data_file_name=path, x_clip=rois[0], y_clip=rois[1], clip=rois[0])

    def bad(what, **kw):
        m.raises(Exception, lambda: Likelihood(name="bad", **{**base, **kw}), what)
        m.seen("refused", what)

    two = dict(bins_on=["vx", "vy"])
    Likelihood(name="good", **{**base, **two, "bins_type": "irreg", "bins": [ex, ey]})
    bad("unknown binning type", bins_type="regular", bins=[2, 2], **two)
    bad("no binning type", bins_type=None, bins=[2, 2], **two)
    bad("one number for two observables", bins_type="equiprob", bins=[2], **two)
    bad("three numbers for two observables", bins_type="equiprob", bins=[2, 2, 2], **two)
    bad("number for two observables", bins_type="equiprob", bins=4, **two)
    bad("edges of equiprobable bins", bins_type="equiprob", bins=[ex, ey], **two)
    bad("edges of one equiprobable axis", bins_type="equiprob", bins=[2, ex], **two)
    bad("fractional number of equiprobable bins", bins_type="equiprob", bins=[2.5, 2], **two)
    bad("too few columns", bins_type="irreg", bins=[ex, ey[:1]], **two)
    bad("too many columns", bins_type="irreg", bins=[ex, ey + ey[:1]], **two)
    bad("columns of different length", bins_type="irreg", bins=[ex, [ey[0], ey[1][:2]]], **two)
    bad("three observables", bins_type="equiprob", bins=[2, 2, 2], bins_on=["vx", "vy", "extra"])
    bad("observables that are no list", bins_type="equiprob", bins=[2, 2], bins_on=("vx", "vy"))
    bad("unknown observable", bins_type="equiprob", bins=[2, 2], bins_on=["vx", "vz"])
    bad("no data file", bins_type="equiprob", bins=[2, 2], data_file_name="no_such_file.csv", **two)
    for k in ("x_clip", "y_clip"):
        kw = {i: v for i, v in {**base, **two, "bins_type": "equiprob", "bins": [2, 2]}.items() if i != k}
        m.raises(Exception, lambda: Likelihood(name="bad", **kw), f"no {k}")
    for k in ("bins", "bins_type", "bins_on", "data_file_name"):
        kw = {i: v for i, v in {**base, **two, "bins_type": "equiprob", "bins": [2, 2]}.items() if i != k}
        m.raises(Exception, lambda: Likelihood(name="bad", **kw), f"no {k}")
    # components
    cls = toys.fixed_cls("Refuse", add=False)
    m.raises(Exception, lambda: cls(file_name=path, bins=(np.array(ex),), bins_type="equiprob"), "component with unknown binning")
    c = cls(file_name=path)
    m.raises(Exception, lambda: c.set_binning(bins=(np.array(ex),)), "component without binning type")
    m.raises(Exception, lambda: c.set_binning(bins_type="irreg"), "component without bins")


assert apt
