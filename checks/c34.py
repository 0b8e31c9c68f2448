"""C34: summaries, graphs and drawn histograms show the model as it is."""

import ast
import contextlib
import io
import os
import re
import time

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.patches import Rectangle

import appletree as apt
from appletree import Context, Likelihood
from lib import shipped, toys
from lib.vh import case
from checks.c01 import _graph, _make
from checks.c33 import closure

PROPERTY = "C34"
RULE = (
    "random plugin graphs (diamonds, several outputs, replaced producers) drawn by a recording graph and by graphviz, random contexts (simulated, fixed "
    "and literature components) summarized short and long, random irregular histograms drawn as counts and densities; distinct by (kind of view, "
    "composition)"
)
TECHNIQUE = "runtime monitoring: recorded nodes, edges, printed lines and drawn patches against an independent description of the model"


class Recorder:
    """What is drawn."""

    def __init__(self):
        self.nodes, self.edges, self.labels = [], [], {}

    def node(self, name, label=None, **kwargs):
        self.nodes.append(name)
        self.labels.setdefault(name, []).append(label)

    def edge(self, tail, head, **kwargs):
        self.edges.append((tail, head))


def random_component(rng, tag, n):
    specs = _graph(rng, n, tag, with_par=False)
    classes = [_make(s) for s in specs]
    c = toys.component_cls("Drawn", classes, add=False)(name="drawn", llh_name=tag + "llh")
    owned = sorted({o for s in specs for o in s["outs"]})
    req = [str(d) for d in rng.permutation(owned)[: int(rng.integers(1, min(4, len(owned)) + 1))]]
    return c, specs, req


def data_closure(specs, names):
    owner = {o: s for s in specs for o in s["outs"]}
    nodes, edges, todo = set(), set(), list(names)
    while todo:
        d = todo.pop()
        if d in nodes:
            continue
        nodes.add(d)
        if d == "batch_size":
            continue
        for dep in owner[d]["deps"]:
            edges.add((d, dep))
            todo.append(dep)
    return nodes, edges


@case(repeat=(1, 4))
def graphs(m):
    """Nodes and edges of the data and of the plugins."""
    rng = m.rng()
    for j in range(m.pick(150, 500)):
        apt.clear_cache()
        c, specs, req = random_component(rng, f"Gr{j}x", int(rng.integers(1, 11)))
        owner = {o: s for s in specs for o in s["outs"]}
        asked = list(req)
        g = Recorder()
        out = apt.add_deps_to_graph_tree(c, g, req)
        m.check(req == asked, "the request is changed")
        m.check(out[0] is g, "the graph is returned")
        nodes, edges = data_closure(specs, req)
        m.check(set(g.nodes) == nodes, "data drawn", got=sorted(set(g.nodes)), want=sorted(nodes), requested=req, specs=specs)
        m.check(set(g.edges) == edges, "dependencies drawn", got=sorted(set(g.edges) ^ edges), requested=req, specs=specs)
        need = closure(specs, req)
        pedges = {(s["name"], owner[d]["name"]) for s in specs if s["name"] in need for d in s["deps"] if d != "batch_size"}
        for with_names in (False, True):
            g = Recorder()
            out = apt.add_plugins_to_graph_tree(c, g, req, with_data_names=with_names) if with_names else apt.add_plugins_to_graph_tree(c, g, req)
            m.check(out[0] is g, "the graph is returned")
            m.check(set(g.nodes) == need, "plugins drawn", got=sorted(set(g.nodes)), want=sorted(need), requested=req, specs=specs)
            m.check(set(g.edges) == pedges, "dependencies of plugins drawn", got=sorted(set(g.edges) ^ pedges), requested=req, specs=specs)
            m.check(len(g.nodes) == len(set(g.nodes)), "a plugin is drawn twice", got=g.nodes)
            for s in specs:
                if s["name"] not in need:
                    continue
                for label in g.labels[s["name"]]:
                    m.check(s["name"] in label, "label of a plugin", got=label)
                    words = set(re.findall(r"\w+", label)) - {s["name"]}
                    want = set(s["deps"]) | set(s["outs"]) if with_names else set()
                    m.check(words == want, "data names in the label of a plugin", got=words, want=want, plugin=s["name"], with_names=with_names)
        m.count("graphs")
        m.count("nodes", len(nodes) + len(need))
        m.seen("graph", (len(nodes), len(edges), len(need)))
        # a name which is not there
        m.raises((KeyError, ValueError), lambda: apt.add_deps_to_graph_tree(c, Recorder(), ["nothing_here"]), "a graph of unknown data")
    m.sample(requested=req, nodes=sorted(nodes), edges=sorted(edges))


@case(repeat=(1, 2))
def graphviz_file(m):
    """Through graphviz, or a stand-in which writes a file where it is missing."""
    rng = m.rng()
    d = toys.scratch()

    class Fake:
        def __init__(self, lines):
            self.lines = lines
            self.calls = []

        def render(self, save_as, view=True):
            self.calls.append((save_as, view))
            with open(save_as, "w") as f:
                f.write("digraph {}")
            with open(f"{save_as}.svg", "w") as f:
                f.write("".join(self.lines))

    for k in range(4):
        n = int(rng.integers(6, 30))
        lines = [f"line {i} {'x' * int(rng.integers(0, 5))}\n" for i in range(n)]
        path = os.path.join(d, f"tree{k}")
        fake = Fake(lines)
        svg = apt.tree_to_svg(fake, save_as=path, view=False)
        m.check(svg == "".join("    " + q for q in lines[5:]), "text of the graph", got=svg[:200])
        m.check(fake.calls == [(path, False)], "the graph is rendered once", got=fake.calls)
        m.check(sorted(f for f in os.listdir(d) if f.startswith(f"tree{k}")) == [f"tree{k}.svg"], "files left", got=os.listdir(d))
        m.seen("rendered", k)
    for text in ("a\nb\n  c", "one line", "a\n\nb"):
        got = apt.add_spaces(text)
        m.check([q for q in got.split("\n")] == ["    " + q for q in text.split("\n")], "four spaces in front of every line", got=got, text=text)
        m.seen("spaces", text)
    m.check(apt.add_spaces(["a\n", "b\n"]) == "    a\n    b\n", "four spaces in front of every given line")


def printed(f):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f()
    return s.getvalue()


def fields(block):
    """key: value lines of a block."""
    return [(a, b.strip()) for a, b in re.findall(r"^\s*(\w+): ?(.*)$", block, re.M)]


@case(repeat=(2, 8))
def summaries(m):
    """Printed summaries of random contexts."""
    from checks.c32 import World, instruction, NB, values

    rng = m.rng()
    w = World(rng)
    for composition in [("bin",), ("bin", "bin"), ("lit", "bin"), ("bin", "lit", "bin")]:
        apt.clear_cache()
        ins, ref, par, final = instruction(w, composition)
        tree = Context({**ins, "par_config": toys.dump_json(par, name="par.json")})
        vals = values(w, final)
        post = tree.log_posterior(vals, batch_size=NB)
        for short in (True, False):
            text = printed(lambda: tree.print_context_summary(short=short)) if not short or rng.integers(2) else printed(tree.print_context_summary)
            blocks = re.split(r"^LIKELIHOOD (\w+)$", text, flags=re.M)
            m.check(blocks[1::2] == list(ref), "likelihoods of the summary", got=blocks[1::2], want=list(ref))
            for name, block in zip(blocks[1::2], blocks[2::2]):
                rf, llh = ref[name], tree[name]
                parts = re.split(r"^\s*COMPONENT (\d+): (\w+)$", block, flags=re.M)
                head = dict(fields(parts[0]))
                comps = list(zip(parts[1::3], parts[2::3], parts[3::3]))
                m.check([c for _, c, _ in comps] == list(rf["comps"]) and [int(i) for i, _, _ in comps] == list(range(len(comps))), "components of the summary",
                        got=[c[:2] for c in comps], want=list(rf["comps"]))
                if "lit" in rf:
                    m.check(head["variable_type"] == "twohalfnorm" and ast.literal_eval(head["variable"]) == ["l_energy", "l_yield"], "variable of the summary", got=head)
                    for k, v in rf["lit"].items():
                        nums = [float(q) for q in re.findall(r"[-+.\deE]+", head[k])]
                        m.close(nums, v, "measurement of the summary", rtol=1e-6, key=k)
                else:
                    m.check(head["bins_type"] == rf["kind"], "binning of the summary", got=head)
                    m.check(ast.literal_eval(head["bins_on"]) == ["gx", "gy"][: rf["dim"]], "observables of the summary", got=head)
                    m.check(head["file_name"] == rf["file"], "data of the summary", got=head["file_name"], want=rf["file"])
                    m.check(float(head["data_rate"]) == float(rf["data"].sum()), "number of data of the summary", got=head["data_rate"], want=rf["data"].sum())
                    m.check(("bins" in head) == (not short), "bins of the summary", short=short)
                for _, c, block_c in comps:
                    f = dict(fields(block_c))
                    kind, _, _, file, p = rf["comps"][c]
                    m.check(f["type"] == ("fixed" if kind == "fixed" else "simulation"), "type of a component", got=f["type"])
                    m.check(f["rate_par"] == c + "_rate", "rate of a component", got=f["rate_par"])
                    want = {c + "_rate"} | ({p} if p else set()) | ({"en", "yi", "ef"} if kind == "lit" else set())
                    m.check(ast.literal_eval(f["pars"]) == want, "parameters of a component", got=f["pars"], want=want)
                    if kind == "fixed":
                        m.check(f["file_name"] == file, "file of a component", got=f["file_name"], want=file)
                        m.check(short or f["from_file"] == file, "file of a component", got=f)
                    else:
                        m.check(("worksheet" in f) == (not short), "workflow of a component", short=short)
                        if not short:
                            sheet = ast.literal_eval(f["worksheet"])
                            m.check(len(sheet) == (2 if kind == "sim" and rf["dim"] == 1 else 3), "workflow of a component", got=sheet)
                    m.seen("component", (kind, short))
            m.seen("summary", (composition, short))
            m.count("summaries")
        m.check(tree.log_posterior(vals, batch_size=NB)[1] == post[1], "a summary changes the context")
        if "lit" not in composition:
            m.check(tree.log_posterior(vals, batch_size=NB) == post, "a summary changes the context")
    m.sample(summary=text[:600])


@case(repeat=(1, 3))
def counted(m):
    """The number of data of a summary is the one of the bins, whether or not they cover the selected region."""
    rng = m.rng()
    for j in range(m.pick(12, 40)):
        n = int(rng.integers(20, 400))
        data = {"cs1": rng.uniform(0, 30, n).round(3), "cs2": rng.uniform(0, 900, n).round(2)}
        path = toys.csv(data)
        dim = 1 + j % 2
        kind = ("meshgrid", "irreg")[int(rng.integers(2))] if dim == 2 else "irreg"
        ex = np.sort(rng.choice(np.arange(2, 28), int(rng.integers(2, 6)), replace=False)) + 0.0005
        ey = np.sort(rng.choice(np.arange(60, 860, 20), int(rng.integers(2, 5)), replace=False)) + 0.005
        wide = bool(rng.integers(2))
        xc = [0.0, 30.0] if wide else [float(ex[0]), float(ex[-1])]
        yc = [0.0, 900.0] if wide else [float(ey[0]), float(ey[-1])]
        cfg = dict(data_file_name=path, bins_type=kind)
        inside = (data["cs1"] > ex[0]) & (data["cs1"] < ex[-1])
        if dim == 1:
            cfg.update(bins_on="cs1", bins=[ex.tolist()], clip=xc)
        else:
            cfg.update(bins_on=["cs1", "cs2"], x_clip=xc, y_clip=yc, bins=[ex.tolist(), ey.tolist() if kind == "meshgrid" else [ey.tolist()] * (len(ex) - 1)])
            inside &= (data["cs2"] > ey[0]) & (data["cs2"] < ey[-1])
        llh = Likelihood(name=f"n{j}", **cfg)
        head = dict(fields(printed(lambda: llh.print_likelihood_summary(short=bool(rng.integers(2))))))
        m.check(float(head["data_rate"]) == float(inside.sum()), "number of data of the summary", got=head["data_rate"], want=int(inside.sum()), kind=kind, dim=dim, wide=wide, n=n)
        m.seen("counted", (kind, dim, wide))


@case(repeat=(1, 2))
def shipped_graphs(m):
    """Graphs of the shipped components are the workflow they run."""
    for cname in ["ERBand", "NR"] if m.quick else ["ERBand", "NR", "ERPeak", "ERBandNestV2", "ERPeakNestV2"]:
        c = shipped.build(cname, ["cs1", "cs2"], llh_name="g" + cname, compile=False)
        g = Recorder()
        apt.add_plugins_to_graph_tree(c, g)
        ran = {w[0] for w in c.worksheet}
        m.check(set(g.nodes) == ran, "plugins of a shipped component", got=set(g.nodes) ^ ran)
        provider = {d: w[0] for w in c.worksheet for d in w[1]}
        want = {(w[0], provider[d]) for w in c.worksheet for d in w[2] if d != "batch_size"}
        m.check(set(g.edges) == want, "dependencies of a shipped component", got=set(g.edges) ^ want)
        g = Recorder()
        apt.add_deps_to_graph_tree(c, g)
        back = {p for d in g.nodes if d != "batch_size" for p in [provider[d]]}
        m.check(back == ran, "data of a shipped component", got=back ^ ran)
        m.check({"cs1", "cs2", "eff", "batch_size"} <= set(g.nodes), "data of a shipped component")
        want = {(d, dep) for d in set(g.nodes) - {"batch_size"} for dep in [w[2] for w in c.worksheet if w[0] == provider[d]][0]}
        m.check(set(g.edges) == want, "dependencies of the data of a shipped component", got=set(g.edges) ^ want)
        m.seen("shipped", cname)


@case(repeat=(1, 6))
def histograms(m):
    """Patches, colours and limits of irregular histograms."""
    rng = m.rng()
    cmap = matplotlib.colormaps["RdBu_r"]
    for j in range(m.pick(40, 120)):
        nx, ny = int(rng.integers(1, 7)), int(rng.integers(1, 6))
        bx = np.cumsum(rng.uniform(0.2, 5, nx + 1)) + rng.uniform(-10, 10)
        by = np.cumsum(rng.uniform(0.2, 5, (nx, ny + 1)), axis=1) + rng.uniform(-10, 10, (nx, 1))
        h = rng.uniform(0, 50, (nx, ny)) if j % 3 else rng.poisson(3, (nx, ny)).astype(float)
        density = [None, False, True][int(rng.integers(3))]
        kw = {} if density is None else dict(density=density)
        area = np.diff(bx)[:, None] * np.diff(by, axis=1)
        shown = h / area if density else h
        lo, hi = shown.min(), shown.max()
        which = int(rng.integers(4))
        if which & 1:
            lo = kw["vmin"] = float(lo - rng.uniform(0, 5))
        if which & 2:
            hi = kw["vmax"] = float(hi + rng.uniform(0.1, 5))
        plt.close("all")
        args = (bx, by, h) if j % 2 else (bx.tolist(), by.tolist(), h.tolist())
        ax = apt.plot_irreg_histogram_2d(*args, **kw)
        recs = [p for p in ax.patches if isinstance(p, Rectangle)]
        m.check(len(recs) == nx * ny, "a bin is not drawn once", got=len(recs), want=nx * ny)
        left = {}
        for p in recs:
            left[(round(float(p.get_x()), 6), round(float(p.get_y()), 6))] = p
        m.check(len(left) == nx * ny, "bins are drawn on top of each other")
        for a in range(nx):
            for b in range(ny):
                p = left.get((round(float(bx[a]), 6), round(float(by[a, b]), 6)))
                m.check(p is not None, "a bin is not drawn at its place", bin=(a, b))
                m.check(abs(p.get_width() - (bx[a + 1] - bx[a])) < 1e-6 and abs(p.get_height() - (by[a, b + 1] - by[a, b])) < 1e-6, "size of a bin",
                        got=(p.get_width(), p.get_height()))
                if hi > lo:
                    want = cmap((shown[a, b] - lo) / (hi - lo))
                    m.close(p.get_facecolor(), want, "colour of a bin", rtol=0, atol=0.02, density=density, bin=(a, b), value=shown[a, b])
        m.close(ax.get_xlim(), (bx.min(), bx.max()), "horizontal limits")
        m.close(ax.get_ylim(), (by.min(), by.max()), "vertical limits")
        bars = [q for q in ax.figure.axes if q is not ax]
        m.check(len(bars) == 1, "one colour bar", got=len(bars))
        if hi > lo:
            m.close(bars[0].get_ylim(), (lo, hi), "range of the colour bar", rtol=1e-6)
        m.check(("bin size" in bars[0].get_ylabel()) == bool(density), "label of the colour bar", got=bars[0].get_ylabel())
        m.count("bins drawn", nx * ny)
        m.seen("histogram", (nx, ny, density, which))
    plt.close("all")
    # the histogram of a likelihood
    from appletree.likelihood import Likelihood

    x, y = rng.uniform(0, 8, 500), rng.uniform(0, 7, 500)
    llh = Likelihood(name="drawn", data_file_name=toys.csv({"gx": x, "gy": y}), bins_type="equiprob", bins_on=["gx", "gy"], bins=[4, 3], x_clip=[0, 8], y_clip=[0, 7])
    ax = apt.plot_irreg_histogram_2d(*llh._bins, llh.data_hist)
    m.check(len([p for p in ax.patches if isinstance(p, Rectangle)]) == 12, "histogram of a likelihood")


@case(repeat=(1, 2))
def timed(m):
    """Timed functions return what they return and print their name and time."""
    for how in ("plain", "empty", "indent"):
        def work(a, b=2, *args, **kwargs):
            """Docs."""
            time.sleep(0.02)
            if a is None:
                raise KeyError("from inside")
            return a, b, args, kwargs

        f = apt.utils.timeit(work) if how == "plain" else apt.utils.timeit("" if how == "empty" else "  >>")(work)
        for call in (lambda g: g(1), lambda g: g(1, 5, 7, z=3), lambda g: g(a=4, b=6)):
            want = call(work)
            got = []
            text = printed(lambda: got.append(call(f)))
            m.check(got[0] == want, "a timed function returns something else", got=got[0], want=want)
            lines = [q for q in text.split("\n") if q.strip()]
            m.check(len(lines) == 2 and all("<work>" in q for q in lines), "a timed function prints its name", got=lines)
            m.check(how != "indent" or all(q.startswith("  >>") for q in lines), "indentation of a timed function", got=lines)
            t = float(re.findall(r"([-+.\deE]+) msec", lines[1])[0])
            m.check(19.0 <= t < 5e3, "time of a timed function", got=t)
        m.raises(KeyError, lambda: f(None), "an error of a timed function")
        m.seen("timed", how)
    m.check(apt.utils.get_platform() == "cpu", "platform", got=apt.utils.get_platform())
