"""C27: plots of the maps show the maps the model uses."""

import os
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

import appletree as apt  # noqa: E402
from appletree import Context  # noqa: E402
from appletree.plot import plot_maps  # noqa: E402
from lib import toys  # noqa: E402
from lib.vh import case  # noqa: E402

PROPERTY = "C27"
RULE = (
    "contexts with maps of every kind (point, log, 1D to 3D regular, mixed axes, with uncertainty), shared and own files of likelihoods, used "
    "and unused plugins; collapsed over every axis, whole and ranges; distinct by (kind, axes, collapse, likelihoods)"
)
TECHNIQUE = "runtime monitoring: curves, bars and pixels read back from the figures against the files"

AXES = ["x", "y", "z"]
NAMED = (["x", "y", "z"], ["z", "x", "y"], ["cs2", "r", "depth"], ["y", "z", "x"])


# ------------------------------------------------------------------ files of maps


def grid(rng, ndim, log, n=None):
    lo, hi, shape = [], [], []
    for d in range(ndim):
        a = float(rng.uniform(1, 5)) if log[d] else float(rng.uniform(-50, 0))
        lo.append(a)
        hi.append(a * float(rng.uniform(20, 500)) if log[d] else a + float(rng.uniform(5, 100)))
        shape.append(int(rng.integers(2, 6)) if n is None else n[d])
    return lo, hi, shape


def nodes_of(lo, hi, n, log):
    if n == 1:
        return np.array([lo])
    return 10 ** np.linspace(np.log10(lo), np.log10(hi), n) if log else np.linspace(lo, hi, n)


def make_point(rng, log=False, x=None):
    k = int(rng.integers(3, 9))
    x = np.cumsum(rng.uniform(0.5, 5, k)) if x is None else x
    y = rng.uniform(0.1, 5, len(x))
    return toys.point_map(x, y, log=log), dict(kind="point", x=x, y=y)


def make_regbin(rng, ndim, log=None, like=None):
    log = [False] * ndim if log is None else log
    lo, hi, shape = grid(rng, ndim, log) if like is None else (like["lo"], like["hi"], like["shape"])
    v = rng.uniform(0.1, 5, shape)
    if not any(log):
        types = "regbin"
    elif all(log):
        types = "log_regbin"
    else:
        types = ["log_regbin" if f else "regbin" for f in log]
    names = NAMED[int(rng.integers(len(NAMED)))][:ndim] if like is None else like["names"]
    path = toys.regbin_map(lo, hi, v, types=types, names=names)
    return path, dict(kind="regbin", lo=lo, hi=hi, shape=shape, log=log, v=v, names=names)


def expected(info, collapse):
    """(axis names, nodes of the axes, log flags, values) after collapsing, in double precision."""
    v, names, log = info["v"], list(info["names"]), list(info["log"])
    nodes = [nodes_of(a, b, n, f) for a, b, n, f in zip(info["lo"], info["hi"], info["shape"], log)]
    for axis, rng_ in (collapse or {}).items():
        if axis not in names:
            continue
        d = names.index(axis)
        if rng_ is not None:
            keep = (nodes[d] >= rng_[0]) & (nodes[d] <= rng_[1])
            if not keep.any():
                keep[:] = True
            v = np.compress(keep, v, axis=d)
        v = v.mean(axis=d)
        names.pop(d), nodes.pop(d), log.pop(d)
    return names, nodes, log, v


# ------------------------------------------------------------------ reading figures


def close(a, b, tol=2e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))


def read(fig):
    """What a figure shows."""
    out = dict(lines=[], bars=None, image=None, labels=[], xlabel="", ylabel="")
    for ax in fig.axes:
        out["labels"] += [ax.get_ylabel(), ax.get_xlabel()]
        for ln in ax.get_lines():
            out["lines"].append((np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)))
        rect = [p for p in ax.patches if isinstance(p, matplotlib.patches.Rectangle)]
        if rect:
            out["bars"] = np.array([[p.get_x(), p.get_x() + p.get_width(), p.get_y() + p.get_height()] for p in rect], float)
        for im in ax.get_images():
            if out["image"] is None:
                out["image"] = (np.asarray(im.get_array(), float), im.get_extent(), im.origin, ax)
    ax = fig.axes[0]
    out["xlabel"], out["ylabel"] = ax.get_xlabel(), ax.get_ylabel()
    return out


def shows_bars(r, nodes, log, v):
    """Bars with the values, centered on the nodes."""
    if r["bars"] is None or len(r["bars"]) != len(nodes):
        return False
    b = r["bars"][np.argsort(r["bars"].sum(axis=1) - r["bars"][:, 2])]
    center = (b[:, 0] + b[:, 1]) / 2
    ok = close(center, nodes, 1e-4)
    if log and not ok and np.all(b[:, 0] > 0):
        ok = close(np.sqrt(b[:, 0] * b[:, 1]), nodes, 1e-4)
    if not log and len(nodes) > 1:
        step = nodes[1] - nodes[0]
        ok = ok and close(b[:, 1] - b[:, 0], np.full(len(nodes), step), 1e-3)
    return ok and close(b[:, 2], v)


def shows_image(r, nodes, log, v):
    """Pixels with the values, centered on the nodes."""
    if r["image"] is None:
        return False
    a, ext, origin, ax = r["image"]
    if a.shape != (v.shape[1], v.shape[0]):
        return False
    if origin == "upper":
        ext = (ext[0], ext[1], ext[3], ext[2])
    for k, (lo, hi) in enumerate(((ext[0], ext[1]), (ext[2], ext[3]))):
        n = v.shape[k]
        c = lo + (np.arange(n) + 0.5) * (hi - lo) / n
        want = np.log10(nodes[k]) if log[k] else nodes[k]
        if not close(c, want, 1e-4):
            return False
        # positions are exponents where the label says so
        if ("log" in (r["xlabel"], r["ylabel"])[k].lower()) != bool(log[k]):
            return False
    return close(a.T, v)


def shows_line(r, x, y):
    return any(close(a, x) and close(b, y) for a, b in r["lines"])


def figure_shows(m_info, r, collapse):
    """Whether the figure is the one of the map (list of possible parts for maps with uncertainty)."""
    kind, parts = m_info["kind"], m_info["parts"]
    if kind == "map":
        p = parts[0]
        if p["kind"] == "point":
            return len(r["lines"]) == 1 and shows_line(r, p["x"], p["y"])
        names, nodes, log, v = expected(p, collapse)
        if v.ndim == 1:
            return shows_bars(r, nodes[0], log[0], v) and names[0] in r["xlabel"]
        return v.ndim == 2 and shows_image(r, nodes, log, v) and names[0] in r["xlabel"] and names[1] in r["ylabel"]
    if parts[0]["kind"] == "point":
        return len(r["lines"]) == 3 and all(shows_line(r, p["x"], p["y"]) for p in parts)
    exp = [expected(p, collapse) for p in parts]
    names, nodes, log, v = exp[0]
    if v.ndim == 1:
        return len(r["lines"]) == 3 and all(shows_line(r, nodes[0], e[3]) for e in exp) and names[0] in r["xlabel"]
    return False


def figures_of(info, collapse):
    """Number of figures of a map."""
    p = info["parts"][0]
    if p["kind"] == "point":
        return 1
    nd = expected(p, collapse)[3].ndim
    if nd in (0, 3):
        return 0
    return 3 if nd == 2 and info["kind"] == "sigma" else 1


def match(m, figs, maps, collapses, **where):
    """Every map has its figures, every figure belongs to one map."""
    reads = [read(f) for f, _ in figs]
    left = list(range(len(reads)))
    for info in maps:
        col = collapses.get(info["name"])
        want = figures_of(info, col)
        if info["kind"] == "sigma" and want == 3:
            for p, label in zip(info["parts"], ("median", "lower", "upper")):
                names, nodes, log, v = expected(p, col)
                hit = [i for i in left if shows_image(reads[i], nodes, log, v)]
                m.check(len(hit) == 1, "one figure of the part of the map", map=info["name"], part=label, n=len(hit), **where)
                m.check(any(label in t for t in reads[hit[0]]["labels"]), "the part is named", labels=reads[hit[0]]["labels"])
                left.remove(hit[0])
            continue
        hit = [i for i in left if figure_shows(info, reads[i], col)]
        m.check(len(hit) == want, "figures of the map", map=info["name"], n=len(hit), want=want, file=info.get("file"), collapse=col, **where)
        for i in hit:
            m.check(any(n in t for n in info["names"] for t in reads[i]["labels"]), "figure is labelled by the map", labels=reads[i]["labels"], names=info["names"])
            left.remove(i)
        m.seen("figure", (info["kind"], info["parts"][0]["kind"], tuple(info["parts"][0].get("log", ())), repr(col) if col else None))
    m.check(not left, "no other figure", others=[reads[i]["labels"] for i in left], **where)
    m.count("figures", len(reads))


# ------------------------------------------------------------------ contexts


def new_map(rng, kind, like=None, k=None):
    """(config value, parts) of a random map; like: a map with uncertainty whose files are used but one."""
    if like is not None:
        value, parts = list(like[0]), list(like[1])
        k = int(rng.integers(0, 3)) if k is None else k
        if parts[k]["kind"] == "point":
            value[k], parts[k] = make_point(rng, x=parts[k]["x"])
        else:
            value[k], parts[k] = make_regbin(rng, len(parts[k]["shape"]), parts[k]["log"], like=parts[k])
        return value, parts
    if kind == "sigma_point":
        parts = [make_point(rng) for _ in range(3)]
    elif kind == "sigma_1d" or kind == "sigma_2d":
        n = int(kind[6])
        log = [bool(rng.integers(2)) for _ in range(n)]
        first = make_regbin(rng, n, log)
        parts = [first] + [make_regbin(rng, n, log, like=first[1]) for _ in range(2)]
    elif kind in ("point", "log_point"):
        parts = [make_point(rng, kind == "log_point")]
    else:
        n = int(kind[0])
        log = {"lin": [False] * n, "log": [True] * n, "mix": [bool(i % 2) for i in range(n)]}[kind[2:]]
        parts = [make_regbin(rng, n, log)]
    files = [p[0] for p in parts]
    return (files if kind.startswith("sigma") else files[0]), [p[1] for p in parts]


KINDS = ["point", "log_point", "1_lin", "1_log", "2_lin", "2_log", "2_mix", "3_lin", "3_mix", "sigma_point", "sigma_1d", "sigma_2d"]
METHOD = {"point": "LERP", "log_point": "IDW"}


def context(rng, kinds, n_llh=2, own=0.5, unused=0.3, shared_file=0.0, fixed=False, given=None):
    """A context whose plugins take maps of the kinds; returns it with the maps each likelihood uses.

    given: the maps of the kinds, one dictionary of likelihood to (value, parts) each.
    """
    apt.clear_cache()
    configs, used, waste = {}, {}, []
    takes = {"ToyEnergy": [], "ToyObs1": [], "ToyNotNeeded": []}
    llhs = [f"l{i}" for i in range(n_llh)]
    first_point, before = None, {}
    for i, kind in enumerate(kinds):
        name = f"map{i}_{kind}"
        cls = toys.SigmaMap if kind.startswith("sigma") else toys.Map
        # models with uncertainty often differ by one of their files only
        value, parts = new_map(rng, kind, like=before.get(kind) if rng.random() < shared_file else None)
        if kind in ("sigma_point", "sigma_1d"):
            before[kind] = (value, parts)
        where = "ToyNotNeeded" if rng.random() < unused else str(rng.choice(["ToyEnergy", "ToyObs1"]))
        if kind == "point" and shared_file and first_point is not None and rng.random() < shared_file:
            value, parts = first_point
        elif kind == "point" and where != "ToyNotNeeded" and first_point is None:
            first_point = (value, parts)
        takes[where].append(cls(name=name, default=value))
        per = {l: (value, parts) for l in llhs}
        if given is not None:
            per = given[i]
            configs[name] = {l: per[l][0] for l in llhs}
        elif rng.random() < own:
            for l in llhs:
                if rng.random() < 0.7:
                    per[l] = new_map(rng, kind, like=before.get(kind) if rng.random() < shared_file else None)
            configs[name] = {l: per[l][0] for l in llhs}
        if where == "ToyNotNeeded":
            waste.append(name)
            continue
        for l in llhs:
            used.setdefault(repr(per[l][0]), dict(name=name, names=set(), kind="sigma" if kind.startswith("sigma") else "map",
                                                   parts=per[l][1], file=per[l][0]))["names"].add(name)
    plugins = toys.band_plugins(jit=False)
    bodies = {p.__name__: p for p in plugins}
    from jax import numpy as jnp

    out = []
    for p in plugins:
        if takes.get(p.__name__):
            p = toys.plugin(p.__name__, p.depends_on, p.provides, p.simulate.__globals__["_body"], p.parameters, configs=takes[p.__name__])
        out.append(p)
    if takes["ToyNotNeeded"]:
        out.append(toys.plugin("ToyNotNeeded", ["cs1"], ["nothing"], lambda self, key, parameters, cs1: (key, jnp.ones_like(cs1)), configs=takes["ToyNotNeeded"]))
    assert bodies
    toys.component_cls("ToyBand", out)
    ins = toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l0", configs=configs)
    base = ins["likelihoods"]["l0"]
    extra_par = {}
    for c in sum(takes.values(), []):
        if isinstance(c, toys.SigmaMap):
            extra_par[c.name + "_sigma"] = toys.par_norm(0.0, 1.0)
    ins["par_config"] = toys.dump_json({**toys.band_par_config(), **extra_par}, name="par.json")
    if fixed:
        toys.fixed_cls("ToyFixedC", add_eps=True)
        tpl = toys.write_band_data(rng, 200)
        base["components"] = {"er": "ToyBand", "fix": {"component_cls": "ToyFixedC", "file_name": tpl}}
        base["copy_parameters"] = {"er_rate": "rate", "fix_rate": "rate"}
    ins["likelihoods"] = {}
    for i, l in enumerate(llhs):
        b = dict(base)
        if i % 2 == 1 and fixed:
            b["components"], b["copy_parameters"] = {"er": "ToyBand"}, {"er_rate": "rate"}
        ins["likelihoods"][l] = b
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = Context(ins)
    return c, list(used.values()), waste


def plot(c, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return plot_maps(c, **kw)


@case(repeat=(2, 12))
def every_map_once(m):
    """Figures of contexts with one to three likelihoods."""
    rng = m.rng()
    for j in range(m.pick(4, 8)):
        kinds = [str(k) for k in rng.choice(KINDS, int(rng.integers(3, 9)))]
        if j % 2:
            kinds += [str(rng.choice(["sigma_point", "sigma_1d"]))] * 2
        n_llh = int(rng.integers(1, 4))
        c, maps, waste = context(rng, kinds, n_llh, shared_file=0.5, fixed=bool(rng.integers(2)))
        figs = plot(c)
        match(m, figs, maps, {}, kinds=kinds, n_llh=n_llh)
        for f, _ in figs:
            labels = " ".join(read(f)["labels"])
            m.check(not any(w in labels for w in waste if not any(w in i["names"] for i in maps)), "maps of unused plugins are not shown", labels=labels)
        m.seen("context", (n_llh, tuple(sorted(set(kinds)))))
        plt.close("all")
    m.sample(figures=len(figs), maps=len(maps))


@case(repeat=(1, 3))
def parts_shared(m):
    """Maps with uncertainty that share one or two of their files, in one likelihood or in several."""
    rng = m.rng()
    for kind in ("sigma_point", "sigma_1d"):
        for same in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
            for n_llh in (1, 2):
                a = new_map(rng, kind)
                b = (list(a[0]), list(a[1]))
                for k in range(3):
                    if k not in same:
                        value, parts = new_map(rng, kind, like=a, k=k)
                        b[0][k], b[1][k] = value[k], parts[k]
                order = [a, b] if rng.random() < 0.5 else [b, a]
                if n_llh == 1:
                    kinds, given = [kind] * 2, [{"l0": x} for x in order]
                else:
                    kinds, given = [kind], [{f"l{i}": x for i, x in enumerate(order)}]
                if rng.random() < 0.5:
                    # a map without uncertainty of one of the files
                    k = int(rng.integers(3))
                    kinds.append("point" if kind == "sigma_point" else "1_lin")
                    given.append({f"l{i}": (b[0][k], [b[1][k]]) for i in range(n_llh)})
                c, maps, _ = context(rng, kinds, n_llh, unused=0.0, given=given)
                m.check(len(maps) == len(kinds) + n_llh - 1, "maps of the context", n=len(maps), kinds=kinds)
                match(m, plot(c), maps, {}, kinds=kinds, n_llh=n_llh, same=same)
                m.seen("shared parts", (kind, same, n_llh, len(kinds)))
                plt.close("all")


def random_collapse(rng, info):
    """A collapse of some axes with ranges between nodes."""
    p = info["parts"][0]
    if p["kind"] != "regbin":
        return {"x": None} if rng.random() < 0.5 else None
    n = len(p["names"])
    axes = [a for a in p["names"] if rng.random() < 0.6]
    if rng.random() < 0.2:
        axes.append("not_an_axis")
    rng.shuffle(axes)
    col = {}
    for a in axes:
        if a not in p["names"] or rng.random() < 0.35:
            col[str(a)] = None
            continue
        d = p["names"].index(a)
        nd = nodes_of(p["lo"][d], p["hi"][d], p["shape"][d], p["log"][d])
        mid = np.concatenate([[nd[0] - abs(nd[0]) * 0.1 - 0.1], (nd[1:] + nd[:-1]) / 2, [nd[-1] + abs(nd[-1]) * 0.1 + 0.1]])
        i, k = sorted(rng.choice(len(mid), 2, replace=False))
        col[str(a)] = (float(mid[i]), float(mid[k]))
        if rng.random() < 0.1:
            col[str(a)] = (float(nd[-1] + 1e4), float(nd[-1] + 2e4))  # no node at all
    assert n
    return col


@case(repeat=(3, 20))
def collapsed(m):
    """Averages of exactly the requested nodes, over the requested axes."""
    rng = m.rng()
    for j in range(m.pick(4, 8)):
        kinds = [str(k) for k in rng.choice(["1_lin", "1_log", "2_lin", "2_log", "2_mix", "3_lin", "3_mix", "3_log", "sigma_1d", "sigma_2d", "point"], 5)]
        c, maps, _ = context(rng, kinds, int(rng.integers(1, 3)), own=0.2, unused=0.0)
        for k in range(3):
            collapses = {}
            for info in maps:
                if info["name"] in collapses:
                    continue
                col = random_collapse(rng, info)
                if col is not None and rng.random() < 0.85:
                    collapses[info["name"]] = col
            # ranges were made for one file of the name; other files of it have other nodes
            plots = {n: v for n, v in collapses.items()}
            ok = True
            for info in maps:
                col = plots.get(info["name"])
                if col and info["parts"][0]["kind"] == "regbin":
                    p = info["parts"][0]
                    for a, r in col.items():
                        if r is not None and a in p["names"]:
                            d = p["names"].index(a)
                            nd = nodes_of(p["lo"][d], p["hi"][d], p["shape"][d], p["log"][d])
                            ok &= bool(np.min(np.abs(np.array(r)[:, None] - nd)) > 1e-4 * (1 + np.max(np.abs(nd))))
            if not ok:
                continue
            figs = plot(c, collapse=plots)
            match(m, figs, maps, plots, kinds=kinds)
            plt.close("all")
            m.count("collapses", len(plots))


@case(repeat=(1, 3))
def ranges_at_nodes(m):
    """Ranges that begin and end at nodes include them."""
    rng = m.rng()
    for j in range(m.pick(4, 12)):
        n = [int(k) for k in rng.integers(3, 7, 2)]
        lo = [float(k) for k in rng.integers(-8, 8, 2)]
        info = dict(kind="regbin", lo=lo, hi=[a + k - 1 for a, k in zip(lo, n)], shape=n, log=[False, False], names=AXES[:2], v=rng.uniform(0.1, 5, n))
        path = toys.regbin_map(info["lo"], info["hi"], info["v"], names=AXES[:2])
        apt.clear_cache()
        p = toys.band_plugins(jit=False)
        p[0] = toys.plugin("ToyEnergy", p[0].depends_on, p[0].provides, p[0].simulate.__globals__["_body"], configs=[toys.Map(name="node_map", default=path)])
        toys.component_cls("ToyBand", p)
        c = Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l0"))
        for d in range(2):
            i, k = sorted(int(v) for v in rng.choice(n[d], 2, replace=False))
            for span in ((i, k), (i, i), (k, n[d] + 3)):
                col = {AXES[d]: tuple(lo[d] + v for v in span)}
                figs = plot(c, collapse={"node_map": col})
                match(m, figs, [dict(name="node_map", names={"node_map"}, kind="map", parts=[info], file=path)], {"node_map": col})
                plt.close("all")
                m.seen("range", (span[0] == span[1], d, j))


@case(repeat=(1, 2))
def one_file_two_names(m):
    """A file taken under several names is shown once, and collapsed under each of them."""
    rng = m.rng()
    for j in range(m.pick(2, 4)):
        path, info = make_regbin(rng, 2)
        for asked in ("name_a", "name_b", "other_c", None):
            apt.clear_cache()
            p = toys.band_plugins(jit=False)
            p[0] = toys.plugin("ToyEnergy", p[0].depends_on, p[0].provides, p[0].simulate.__globals__["_body"],
                               configs=[toys.Map(name=n, default=path) for n in ("name_a", "name_b")])
            p[1] = toys.plugin(p[1].__name__, p[1].depends_on, p[1].provides, p[1].simulate.__globals__["_body"], p[1].parameters,
                               configs=[toys.Map(name="other_c", default=path)])
            toys.component_cls("ToyBand", p)
            c = Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l0"))
            axis = info["names"][int(rng.integers(2))]
            col = {asked: {axis: None}} if asked else {}
            figs = plot(c, collapse=col)
            names = {"name_a", "name_b", "other_c"}
            match(m, figs, [dict(name=asked or "name_a", names=names, kind="map", parts=[info], file=path)], col, asked=asked)
            plt.close("all")
            m.seen("two names", (asked, axis))


@case(repeat=(1, 4))
def model_values(m):
    """Curves and bars are what the simulation gets from its maps at the nodes."""
    rng = m.rng()
    kinds = ["point", "log_point", "1_lin", "1_log", "2_lin"]
    c, maps, _ = context(rng, kinds, 1, own=1.0, unused=0.0)
    for f, _ in plot(c):
        r = read(f)
        info = [i for i in maps if any(n in t for n in i["names"] for t in r["labels"])][0]
        mp = toys.Map(name=info["name"] + "_again", default=info["file"], method="LERP")
        mp.build()
        if r["lines"]:
            x, y = r["lines"][0]
            got = np.asarray(mp.apply(x.astype(np.float32)), float)
        elif r["bars"] is not None:
            x, y = (r["bars"][:, 0] + r["bars"][:, 1]) / 2, r["bars"][:, 2]
            got = np.asarray(mp.apply(x.astype(np.float32)), float)
        else:
            a, ext, _, _ = r["image"]
            n1, n0 = a.shape
            g = np.meshgrid(ext[0] + (np.arange(n0) + 0.5) * (ext[1] - ext[0]) / n0, ext[2] + (np.arange(n1) + 0.5) * (ext[3] - ext[2]) / n1)
            got, y = np.asarray(mp.apply(np.stack([v.ravel() for v in g]).T.astype(np.float32)), float), a.ravel()
        m.close(got, y, "the figure is the map", rtol=5e-3, atol=5e-3, map=info["name"])
        m.seen("model", info["name"])
    plt.close("all")
    # a pdf is shown as it is used: a cumulative distribution
    apt.clear_cache()
    x = np.linspace(1, 9, 12)
    path = toys.point_map(x, rng.uniform(0.2, 1, 12), coord="pdf")
    p = toys.band_plugins(jit=False)
    p[0] = toys.plugin("ToyEnergy", p[0].depends_on, p[0].provides, p[0].simulate.__globals__["_body"], configs=[toys.Map(name="pdf_map", default=path, method="LERP")])
    toys.component_cls("ToyBand", p)
    c = Context(toys.toy_instruct(rng, {"er": "ToyBand"}, par_config=toys.band_par_config(), llh_name="l0"))
    figs = plot(c)
    m.check(len(figs) == 1, "one figure")
    xs, ys = read(figs[0][0])["lines"][0]
    mp = toys.Map(name="pdf_again", default=path, method="LERP")
    mp.build()
    m.close(np.asarray(mp.apply(xs.astype(np.float32)), float), ys, "cumulative distribution", rtol=1e-4, atol=1e-4)
    m.check((xs >= 0) & (xs <= 1 + 1e-6) & (np.diff(xs, prepend=-1) > 0), "cumulative axis", xs=xs)
    plt.close("all")


@case(repeat=(1, 4))
def saved(m):
    """Every figure is saved in every format."""
    rng = m.rng()
    for j in range(m.pick(2, 4)):
        kinds = ["point", "point", "2_lin", "sigma_2d", "sigma_point", "1_log"]
        c, maps, _ = context(rng, kinds, 2, own=0.5, unused=0.2)
        d = os.path.join(toys.scratch(), "figures", "of", "maps")
        fmt = ["png"] if j % 2 == 0 else ["png", "svg"]
        figs = plot(c, save=True, save_path=d, fmt=fmt[0] if len(fmt) == 1 else fmt)
        files = sorted(os.listdir(d))
        m.check(len(files) == len(figs) * len(fmt), "one file per figure and format", files=files, figures=len(figs))
        m.check(all(os.path.getsize(os.path.join(d, f)) > 500 for f in files), "files are not empty")
        match(m, figs, maps, {})
        m.seen("saved", (len(files), len(fmt)))
        plt.close("all")


@case(repeat=(1, 1))
def shipped(m):
    """The shipped contexts: every file of the simulation once."""
    from lib import shipped as sh

    for name in ("ContextRn220", "ContextRn220Ar37"):
        apt.clear_cache()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = getattr(apt, name)()
        figs = plot(c, collapse={k: {"z": None} for k in ("s1_lce", "s1_correction")})
        labels = [" ".join(read(f)["labels"]) for f, _ in figs]
        # files of the maps of the ER components, as configured
        want = 0
        seen = set()
        from appletree.share import _cached_configs
        from appletree.utils import get_file_path

        for ln, llh in c.likelihoods.items():
            for comp in llh.components.values():
                if type(comp).__name__ == "AC":
                    continue
                for p in comp.instances:
                    inst = apt.share._cached_functions[ln][p]
                    for k in type(inst).takes_config:
                        cfg = getattr(inst, k)
                        if isinstance(cfg, toys.SigmaMap):
                            v = _cached_configs[k]
                            v = v[ln] if isinstance(v, dict) else v
                            v = tuple(get_file_path(x) for x in (v[:3] if isinstance(v, list) else [v] * 3))
                        elif isinstance(cfg, toys.Map):
                            v = _cached_configs[k]
                            v = get_file_path(v[ln] if isinstance(v, dict) else v)
                        else:
                            continue
                        if v not in seen:
                            seen.add(v)
                            want += 1
        m.check(len(figs) == want, "number of maps", context=name, got=len(figs), want=want, labels=labels)
        m.seen("shipped", name)
        plt.close("all")
    assert sh
