"""C22: files resolve in the documented order."""

import hashlib
import itertools
import json
import os

import numpy as np
import pandas as pd

import appletree as apt
from appletree import Context
from appletree.config import Map, SigmaMap
from appletree.share import _cached_configs, set_global_config
from appletree.utils import calculate_sha256, get_file_path, load_data, load_json
from lib import toys
from lib.vh import case

PROPERTY = "C22"
RULE = (
    "all combinations of presence in the working directory, under the base directory and in the package, names with folders, absolute names, "
    "base directories (absent, absolute, relative, changing), file sizes and suffixes; distinct by (presence, base, name)"
)
TECHNIQUE = "runtime monitoring: the content that is loaded tells where it comes from"
PACKAGE = os.path.join(os.path.dirname(os.path.abspath(apt.__file__)))
FOLDERS = ("maps", "data", "parameters", "instructs")


def packaged():
    out = {}
    for f in FOLDERS:
        for n in sorted(os.listdir(os.path.join(PACKAGE, f))):
            p = os.path.join(PACKAGE, f, n)
            if os.path.isfile(p) and not n.endswith(".py"):
                out.setdefault(n, p)
    return out


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path


def set_base(base):
    if base is None:
        _cached_configs.pop("url_base", None)
    else:
        _cached_configs["url_base"] = base


@case(repeat=(1, 4))
def order(m):
    """All combinations of where the file is."""
    rng = m.rng()
    pack = packaged()
    names = [n for n in pack if n.endswith(".json")]
    old = os.getcwd()
    try:
        for combo in itertools.product((False, True), repeat=4):
            here, there, shipped, sub = combo
            for kind in ("absolute", "none", "relative", "missing"):
                cwd, base = toys.scratch(), toys.scratch()
                os.chdir(cwd)
                name = str(rng.choice(names)) if shipped else f"vf_{int(rng.integers(10**9))}.json"
                if sub:
                    if shipped:
                        continue
                    name = "some/folder/" + name
                if here:
                    put(os.path.join(cwd, name), '"here"')
                if there:
                    put(os.path.join(base, name), '"there"')
                if kind == "relative":
                    # a relative base directory is none
                    os.makedirs(os.path.join(cwd, "rel"), exist_ok=True)
                    put(os.path.join(cwd, "rel", name), '"relative"')
                set_base({"absolute": base, "none": None, "relative": "rel", "missing": base + "/no_such_folder"}[kind])
                want = None
                if here:
                    want = os.path.join(cwd, name)
                elif there and kind == "absolute":
                    want = os.path.join(base, name)
                elif shipped:
                    want = pack[name]
                if want is None:
                    m.raises((RuntimeError, FileNotFoundError), lambda: get_file_path(name), "a file which is nowhere", name=name, base=kind)
                    m.raises((RuntimeError, FileNotFoundError), lambda: load_json(name), "a file which is nowhere", name=name, base=kind)
                else:
                    got = get_file_path(name)
                    m.check(os.path.realpath(got) == os.path.realpath(want), "resolved path", name=name, base=kind, got=got, want=want,
                            present=dict(here=here, base=there, package=shipped))
                    with open(want) as f:
                        m.check(load_json(name) == json.load(f), "content of the resolved file", name=name)
                # the path itself
                if there:
                    full = os.path.join(base, name)
                    m.check(os.path.realpath(get_file_path(full)) == os.path.realpath(full), "an existing path", path=full)
                full = os.path.join(base, "not_" + os.path.basename(name))
                m.raises((RuntimeError, FileNotFoundError), lambda: get_file_path(full), "an absolute path that does not exist", path=full)
                m.seen("order", (combo, kind))
    finally:
        os.chdir(old)
    # the base directory may change
    bases = [toys.scratch() for _ in range(3)]
    name = names[0]
    for i, b in enumerate(bases[:2]):
        put(os.path.join(b, name), json.dumps(f"base {i}"))
        put(os.path.join(b, "own.json"), json.dumps(f"own {i}"))
    for i in (0, 1, 2, 1, 0, None, 2):
        if i is None:
            apt.clear_cache()
        elif i % 2:
            set_global_config({"url_base": bases[i]})
        else:
            set_base(bases[i])
        got = load_json(name)
        if i in (0, 1):
            m.check(got == f"base {i}" and load_json("own.json") == f"own {i}", "content under the current base directory", got=got, base=i)
        else:
            with open(pack[name]) as f:
                m.check(got == json.load(f), "packaged content", base=i)
            m.raises((RuntimeError, FileNotFoundError), lambda: load_json("own.json"), "a file of an earlier base directory", base=i)
    m.sample(names=names[:3], combinations=64)


@case
def auxiliary(m):
    """The installed auxiliary files come after the package and only by their exact names."""
    import types

    from appletree import utils

    rng = m.rng()
    folder = toys.scratch()
    have = ["aux_map_a.json", "deep_aux_map_b.json", "sub/aux_c.json"] + [sorted(n for n in packaged() if n.endswith(".json"))[0]]
    for i, n in enumerate(have):
        put(os.path.join(folder, n), json.dumps(f"aux {i}"))
    saved = {k: getattr(utils, k, None) for k in ("NT_AUX_INSTALLED", "ntauxfiles")}
    had = {k: hasattr(utils, k) for k in saved}
    utils.ntauxfiles = types.SimpleNamespace(list_private_files=lambda: list(have), get_abspath=lambda n: os.path.join(folder, n))
    utils.NT_AUX_INSTALLED = True
    try:
        for base in (None, toys.scratch()):
            set_base(base)
            for i, n in enumerate(have[:3]):
                m.check(load_json(n) == f"aux {i}", "content of an auxiliary file", name=n)
                m.check(os.path.realpath(get_file_path(n)) == os.path.realpath(os.path.join(folder, n)), "path of an auxiliary file", name=n)
                for wrong in (n[1:], n[3:], "x" + n, n[:-1], n + "x", n.upper(), os.path.basename(n)):
                    if wrong not in have:
                        m.raises((RuntimeError, FileNotFoundError), lambda: get_file_path(wrong), "a file which is nowhere", name=wrong, auxiliary=have)
            with open(packaged()[have[3]]) as f:
                m.check(load_json(have[3]) == json.load(f), "the package comes before the auxiliary files", name=have[3])
            if base:
                put(os.path.join(base, have[0]), '"base"')
                m.check(load_json(have[0]) == "base", "the base directory comes before the auxiliary files")
            m.seen("auxiliary", base is None)
    finally:
        for k, v in saved.items():
            setattr(utils, k, v) if had[k] else delattr(utils, k)
    assert rng


@case
def package(m):
    """Every packaged file is found by its name."""
    pack = packaged()
    cwd = os.getcwd()
    try:
        os.chdir(toys.scratch())
        for base in (None, toys.scratch()):
            set_base(base)
            for name, path in pack.items():
                got = get_file_path(name)
                m.check(os.path.realpath(got) == os.path.realpath(path), "packaged file", name=name, got=got, want=path)
                with open(path, "rb") as f:
                    m.check(calculate_sha256(got) == hashlib.sha256(f.read()).hexdigest(), "checksum", name=name)
                if name.endswith(".json"):
                    with open(path) as f:
                        m.check(load_json(name) == json.load(f), "packaged json", name=name)
                elif name.endswith(".csv"):
                    m.same(load_data(name).to_numpy(), np.genfromtxt(path, delimiter=",", skip_header=1).reshape(len(load_data(name)), -1)
                           if False else pd.read_csv(path).to_numpy(), "packaged csv", name=name)
                m.seen("package", name)
    finally:
        os.chdir(cwd)
    for bad in ("no_such_file.json", "maps/", "_s1_correction", "_s1_correction.csv"):
        if os.path.exists(os.path.join(PACKAGE, "maps", bad)):
            continue
        m.raises((RuntimeError, FileNotFoundError), lambda: get_file_path(bad), "no such packaged file", name=bad)


@case(repeat=(1, 4))
def checksums(m):
    """Checksums of the whole content."""
    rng = m.rng()
    sizes = [0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1_000_003, 1 << 20, (1 << 20) + 1, 3_000_017] + m.pick([], [(1 << 24) + 5, 67_108_865]) + [int(rng.integers(1, 300000)) for _ in range(m.pick(5, 20))]
    seen = {}
    for n in sizes:
        data = rng.bytes(n)
        for variant in range(3):
            d = bytearray(data)
            if variant and n:
                i = {1: n - 1, 2: int(rng.integers(n))}[variant]
                d[i] ^= 1 + variant
            p = toys.scratch("file.bin")
            with open(p, "wb") as f:
                f.write(bytes(d))
            got = calculate_sha256(p)
            m.check(got == hashlib.sha256(bytes(d)).hexdigest(), "checksum", size=n, variant=variant)
            m.check(seen.setdefault(got, bytes(d)) == bytes(d), "two contents with the same checksum")
            m.seen("checksum", (n, variant))
    for text in ("a\r\nb\r\n", "a\nb\n", "a\x1ab", "\ufeffa"):
        p = toys.scratch("file.txt")
        with open(p, "wb") as f:
            f.write(text.encode())
        m.check(calculate_sha256(p) == hashlib.sha256(text.encode()).hexdigest(), "checksum of text", text=text)
    m.raises(OSError, lambda: calculate_sha256(toys.scratch("nothing")), "checksum of nothing")


@case(repeat=(1, 4))
def suffixes(m):
    """Data files load by their suffix."""
    rng = m.rng()
    for where in ("path", "base", "cwd"):
        for name in ("data.csv", "more.dots.in.csv", "csv.pkl", "pkl.csv", "d.pkl", "some.pkl"):
            cols = [f"c{i}" for i in range(int(rng.integers(1, 5)))]
            df = pd.DataFrame({c: np.round(rng.uniform(-5, 5, 7), 4) for c in cols})
            d = toys.scratch()
            path = os.path.join(d, name)
            df.to_csv(path, index=False) if name.endswith(".csv") else df.to_pickle(path)
            cwd = os.getcwd()
            try:
                if where == "base":
                    set_base(d)
                elif where == "cwd":
                    os.chdir(d)
                got = load_data(path if where == "path" else name)
            finally:
                os.chdir(cwd)
                set_base(None)
            m.check(list(got.columns) == cols, "columns of a data file", name=name)
            m.close(got.to_numpy(), df.to_numpy(), "values of a data file", rtol=1e-12, name=name)
            m.seen("data", (where, name))
    for name in ("data.txt", "data.json", "data.h5", "data.CSV", "data", "data.csv.gz", "data.npy", "datacsv", "data.pkl2", "csv", "data.csv.bak"):
        path = toys.scratch(name)
        pd.DataFrame({"a": [1.0, 2.0]}).to_csv(path if not path.endswith(".gz") else path, index=False)
        if name == "csv" :
            continue
        m.raises(ValueError, lambda: load_data(path), "unknown suffix", name=name)
        m.seen("refused", name)
    m.raises((RuntimeError, FileNotFoundError), lambda: load_data("no_such_data.csv"), "a data file which is nowhere")


@case(repeat=(1, 3))
def contexts(m):
    """The base directory of a context applies to all files it loads."""
    from jax import numpy as jnp

    rng = m.rng()
    x = [-100.0, 100.0]
    for shadow in (False, True):  # files named like packaged ones
        apt.clear_cache()
        base = toys.scratch()
        n = lambda own, pack: pack if shadow else own  # noqa
        values = {k: float(np.round(rng.uniform(1, 9), 3)) for k in ("map", "one", "two", "med", "low", "up")}
        names = dict(map=n("m.json", "_elife.json"), one=n("sub/one.json", "_s1_bias.json"), two=n("two.json", "_s2_bias.json"),
                     med=n("med.json", "_s1_smearing.json"), low=n("low.json", "_s2_smearing.json"), up=n("up.json", "_posrec_reso.json"),
                     data=n("my.csv", "data_Rn220.csv"), fixed=n("f.pkl", "AC_Rn220.pkl"), par=n("par.json", "er.json"))
        for k, v in values.items():
            p = os.path.join(base, names[k])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            toys.point_map(x, [v, v], path=p)
        data = np.round(rng.uniform(0, 8, (50, 1)), 3)
        toys.csv({"gx": data[:, 0]}, path=os.path.join(base, names["data"]))
        fixed = np.round(rng.uniform(0, 8, 30), 3)
        pd.DataFrame({"gx": fixed}).to_pickle(os.path.join(base, names["fixed"]))
        par = {"rate": toys.par_uniform(0.5, 4.0), "bm_sigma": toys.par_norm(0, 1, -2, 2)}
        with open(os.path.join(base, names["par"]), "w") as f:
            json.dump(par, f)

        def fx(self, key, parameters, batch_size):
            return key, jnp.ones(batch_size)

        def fe(self, key, parameters, gx):
            return key, self.bm_map.apply(gx) * 1e6 + self.bm_per.apply(gx) * 1e3 + self.bm.apply(gx, parameters)

        cls = toys.component_cls("BaseComp", [
            toys.plugin("BaseX", ["batch_size"], ["gx"], fx),
            toys.plugin("BaseE", ["gx"], ["eff"], fe, ("bm_sigma",), (
                Map(name="bm_map", default=names["map"], method="LERP", help=""), Map(name="bm_per", default="", method="LERP", help=""),
                SigmaMap(name="bm", default="", method="LERP", help="")))], "on_sim", False)
        fix = toys.fixed_cls("BaseFixed", "on_pdf", False)
        llh = lambda c: dict(components={c: cls.__name__, c + "f": dict(component_cls=fix.__name__, file_name=names["fixed"])},  # noqa
                             copy_parameters={c + "_rate": "rate", c + "f_rate": "rate"}, data_file_name=names["data"],
                             bins_type="irreg", bins_on="gx", bins=[[0, 2, 8]], clip=[0, 8])
        ins = {"url_base": base, "par_config": names["par"],
               "configs": {"bm_per": {"a": names["one"], "b": names["two"]}, "bm": [names["med"], names["low"], names["up"]]},
               "likelihoods": {"a": llh("ca"), "b": llh("cb")}}
        if shadow:
            ins["configs"]["bm_map"] = names["map"]
        how = ins
        if rng.random() < 0.5:  # an instruction file
            how = toys.dump_json(ins, name="instruct.json")
        cwd = os.getcwd()
        try:
            os.chdir(toys.scratch())
            tree = Context(how)
            m.check({k: v for k, v in tree.par_config.items() if k == "bm_sigma"} == {"bm_sigma": par["bm_sigma"]}, "parameter file of the base directory")
            m.check(tree.par_config["ca_rate"] == par["rate"], "parameter file of the base directory")
            for name, own in (("a", "one"), ("b", "two")):
                m.check(float(np.sum(tree[name].data_hist)) == 50, "data of the base directory", got=np.asarray(tree[name].data_hist))
                m.close(np.sort(np.asarray(tree[name].data).ravel()), np.sort(data.ravel()), "data of the base directory")
                for s, third in ((0.0, "med"), (1.0, "up")):
                    _, out = tree[name]["c" + name].simulate(m.key(), 4, {"bm_sigma": s})
                    want = values["map"] * 1e6 + values[own] * 1e3 + values[third]
                    m.close(np.asarray(out[-1]), np.full(4, want), "maps of the base directory", rtol=3e-7, atol=0, likelihood=name)
                h = np.asarray(tree[name][f"c{name}f"].simulate_hist({f"c{name}f_rate": 30.0}))
                m.close(h, [np.sum(fixed < 2), np.sum(fixed >= 2)], "fixed component of the base directory", rtol=1e-5)
            m.check(tree["a"].lineage["sha256"] == hashlib.sha256(open(os.path.join(base, names["data"]), "rb").read()).hexdigest(), "checksum of the data")
            # without the base directory the files are not found, or are the packaged ones
            apt.clear_cache()
            other = {k: v for k, v in ins.items() if k != "url_base"}
            m.raises(Exception, lambda: Context(other), "files of a base directory without it")
        finally:
            os.chdir(cwd)
        m.seen("context", (shadow, how is ins))
    # packaged files are still found
    apt.clear_cache()
    set_base(toys.scratch())
    m.check(load_json("er.json") == json.load(open(os.path.join(PACKAGE, "parameters", "er.json"))), "packaged file with a base directory")
    m.sample(names=names)
