"""C19: a fit is recorded completely and can be resumed, also after a crash."""

import copy
import json
import os
import shutil
import subprocess
import sys

import emcee
import h5py
import numpy as np

import appletree as apt
from appletree import Context
from lib import toys
from lib.vh import case
from checks.c17 import context, define

PROPERTY = "C19"
LEVEL = "fault_enumeration"
RULE = (
    "fits of 1-3 likelihoods with file and memory backends, a fault (kill, exception, interrupt, undefined posterior) at every evaluation of "
    "small fits and of their continuations, sequences of fit, rebuild, rename and continue; distinct by (fault, evaluation, phase)"
)
TECHNIQUE = "runtime monitoring with enumerated fault injection: log of all posterior evaluations against the backend file"


class Fault(Exception):
    pass


class Watch:
    """Log the evaluations of the posterior; fail at the given one (counted from here)."""

    def __init__(self, tree, at=None, how=None):
        self.log, self.at, self.how, self.n = [], at, how, 0
        self.tree, self.old = tree, type(tree).log_posterior.__get__(tree)
        tree.log_posterior = self

    def __call__(self, parameters, *args, **kwargs):
        if self.n == self.at:
            self.n += 1
            if self.how == "nan":
                return np.nan, 0.0
            raise self.how("injected")
        self.n += 1
        par = dict(parameters)
        out = self.old(parameters, *args, **kwargs)
        self.log.append((par, out, kwargs))
        return out

    def remove(self):
        self.tree.__dict__.pop("log_posterior", None)


def read(path):
    """What is recorded in the file."""
    with h5py.File(path, "r") as f:
        g = f["mcmc"]
        n = int(g.attrs["iteration"])
        out = dict(n=n, chain=g["chain"][:n], logp=g["log_prob"][:n], prior=g["blobs"][:n] if "blobs" in g else None, accepted=g["accepted"][:])
        out["attrs"] = {k: (v if isinstance(v, (str, int, float)) else np.array(v)) for k, v in g.attrs.items()}
    return out


def recorded(tree):
    b = tree.sampler.backend
    return dict(n=int(b.iteration), chain=np.array(b.get_chain()), logp=np.array(b.get_log_prob()),
                prior=None if b.get_blobs() is None else np.array(b.get_blobs()))


def audit(m, tree, rec, log, names, first=0):
    """Every recorded sample was evaluated with its recorded posterior and prior, or is the one before."""
    evaluated = {}
    for par, out, _ in log:
        evaluated.setdefault(tuple(float(par[k]) for k in names), []).append(out)
    for it in range(first, rec["n"]):
        for w in range(rec["chain"].shape[1]):
            pos = tuple(float(v) for v in rec["chain"][it, w])
            lp, prior = float(rec["logp"][it, w]), float(np.ravel(rec["prior"][it, w])[0])
            if pos in evaluated:
                ok = any(o[0] == lp and np.float32(o[1]) == np.float32(prior) for o in evaluated[pos])
                m.check(ok, "recorded posterior or prior is not the evaluated one", iteration=it, walker=w, recorded=(lp, prior), evaluated=evaluated[pos])
            else:
                m.check(it > 0 and pos == tuple(float(v) for v in rec["chain"][it - 1, w]) and lp == float(rec["logp"][it - 1, w]),
                        "recorded sample was never evaluated", iteration=it, walker=w, sample=pos)
    m.count("recorded samples", (rec["n"] - first) * rec["chain"].shape[1])


def reevaluate(m, tree, rec, rng, n=12):
    names = tree.par_manager.parameter_fit
    for _ in range(n):
        it, w = int(rng.integers(rec["n"])), int(rng.integers(rec["chain"].shape[1]))
        post, prior = tree.log_posterior(dict(zip(names, rec["chain"][it, w])), batch_size=8)
        lp = float(rec["logp"][it, w])
        m.check(post == lp or abs(post - lp) <= 1e-6 * abs(lp), "posterior of the recorded parameters", recorded=lp, again=post)
        p = float(np.ravel(rec["prior"][it, w])[0])
        m.check(abs(prior - p) <= 1e-5 * abs(p) + 1e-6, "prior of the recorded parameters", recorded=p, again=prior)


def same_prefix(m, before, after, msg):
    n = before["n"]
    m.check(after["n"] >= n, msg + ": iterations are lost", before=n, after=after["n"])
    for k in ("chain", "logp", "prior"):
        if before[k] is not None and n:
            m.same(after[k][:n], before[k], msg + ": recorded " + k + " changed")


def metadata(m, tree, path, batch):
    r = read(path)
    a = r["attrs"]
    for k in ("metadata", "par_config", "post_parameters", "parameter_fit", "instruct", "config", "batch_size", "nwalkers"):
        m.check(k in a, "metadata is missing", name=k)
    m.check([str(v) for v in a["parameter_fit"]] == list(tree.par_manager.parameter_fit), "recorded order of the parameters", got=a["parameter_fit"])
    m.check(json.loads(a["instruct"]) == json.loads(json.dumps(tree.instruct)), "recorded instruction")
    m.check(json.loads(a["par_config"]) == json.loads(json.dumps(tree.par_config)), "recorded settings of the parameters")
    m.check(json.loads(a["config"]) == json.loads(json.dumps(tree.config)), "recorded configuration", got=a["config"], want=tree.config)
    if "_cached_configs" in a:
        have = json.loads(a["_cached_configs"])
        m.check({k: have.get(k) for k in tree.config} == {k: json.loads(json.dumps(apt.share._cached_configs))[k] for k in tree.config}, "recorded global configuration")
    m.check(int(a["batch_size"]) == batch, "recorded batch size", got=a["batch_size"], want=batch)
    meta = json.loads(a["metadata"])
    m.check(meta.get("version") == apt.__version__, "recorded version", got=meta)
    best = json.loads(a["post_parameters"])
    flat = r["chain"].reshape(-1, r["chain"].shape[-1])
    i = int(np.argmax(r["logp"].ravel()))
    for k, v in zip(tree.par_manager.parameter_fit, flat[i]):
        m.check(best[k] == v, "recorded best fit", parameter=k, got=best[k], want=v)
    m.check(set(best) == set(tree.par_config), "names of the recorded best fit", got=set(best))


def same_context(m, a, b):
    m.check(sorted(a.likelihoods) == sorted(b.likelihoods), "likelihoods of the rebuilt context")
    m.check(a.par_config == b.par_config, "parameters of the rebuilt context")
    m.check(list(a.par_manager.parameter_fit) == list(b.par_manager.parameter_fit), "fitted parameters of the rebuilt context")
    m.check(set(a.needed_parameters) == set(b.needed_parameters), "needed parameters of the rebuilt context")
    m.check(a.lineage_hash == b.lineage_hash, "lineage of the rebuilt context")
    for k in a.likelihoods:
        m.check(sorted(a[k].components) == sorted(b[k].components), "components of the rebuilt context")
        if hasattr(a[k], "data_hist"):
            m.same(np.asarray(a[k].data_hist), np.asarray(b[k].data_hist), "data of the rebuilt context")


KINDS = [("det", "lit"), ("det", "det"), ("lit", "det"), ("rand", "det")]


def walkers(tree):
    return 2 * len(tree.par_manager.parameter_fit) + 2


def rebuild(m, tree, path, kinds):
    """In an empty process, as far as the caches go."""
    apt.clear_cache()
    define(kinds)
    return Context.from_backend(path)


@case(repeat=(1, 3))
def life(m):
    """Fit, rebuild, continue, rebuild, rename, continue."""
    rng = m.rng()
    for kinds in [KINDS[int(rng.integers(2))], KINDS[3]] if m.quick else KINDS:
        apt.clear_cache()
        np.random.seed(int(rng.integers(2**31)))
        path = toys.scratch("fit.h5")
        tree = context(rng, kinds, backend=path)
        nw = walkers(tree)
        names = tree.par_manager.parameter_fit
        w = Watch(tree)
        n_it = int(rng.integers(1, 6))
        tree.fitting(nwalkers=nw, iteration=n_it, batch_size=12)
        rec = read(path)
        m.check(rec["n"] == n_it and rec["chain"].shape == (n_it, nw, len(names)), "recorded iterations", got=rec["chain"].shape, want=(n_it, nw, len(names)))
        m.check(len(w.log) >= nw, "monitor saw no evaluation", evaluations=len(w.log))
        m.check(all(k.get("batch_size") == 12 for _, _, k in w.log), "batch size of the evaluations", got=[k for _, _, k in w.log[:2]])
        # the initial state follows the initial guesses
        for par, out, _ in w.log[:nw]:
            m.check(np.isfinite(out[1]), "initial state outside of the priors", state=par)
        audit(m, tree, rec, w.log, names)
        metadata(m, tree, path, 12)
        w.remove()
        if "rand" not in kinds:
            reevaluate(m, tree, rec, rng)
        m.same(np.asarray(tree.sampler.get_chain()), rec["chain"], "chain of the sampler and of the file")
        # the same process continues
        w = Watch(tree)
        tree.continue_fitting(iteration=2, batch_size=8)
        rec2 = read(path)
        m.check(rec2["n"] == n_it + 2, "continued iterations", got=rec2["n"], want=n_it + 2)
        same_prefix(m, rec, rec2, "continue")
        audit(m, tree, rec2, w.log, names, first=n_it)
        metadata(m, tree, path, 8)
        w.remove()
        m.check(np.all(rec2["accepted"] >= rec["accepted"]), "accepted steps decrease")
        # rebuilt from the file
        old = tree
        path_b = toys.scratch("renamed.h5")
        shutil.copy(path, path_b)
        original = open(path, "rb").read()
        for target, keep in ((path, None), (path_b, path)):
            before = read(target)
            tree = rebuild(m, old, target, kinds)
            same_context(m, old, tree)
            m.same(np.asarray(tree.sampler.get_chain()), before["chain"], "chain of the rebuilt context")
            m.same(np.asarray(tree.sampler.get_log_prob()), before["logp"], "posterior of the rebuilt context")
            m.check(read(target)["n"] == before["n"], "rebuilding changes the file")
            best = tree.get_post_parameters()
            m.check(all(best[k] == v for k, v in json.loads(before["attrs"]["post_parameters"]).items()), "best fit of the rebuilt context")
            if "rand" not in kinds:
                reevaluate(m, tree, before, rng, 5)
            for k in range(2):
                saved = open(path, "rb").read()
                before = read(target)
                w = Watch(tree)
                tree.continue_fitting(iteration=k + 1, batch_size=8)
                after = read(target)
                m.check(after["n"] == before["n"] + k + 1, "continued iterations", got=after["n"], want=before["n"] + k + 1)
                same_prefix(m, before, after, "continue the rebuilt context")
                audit(m, tree, after, w.log, names, first=before["n"])
                w.remove()
                if keep:
                    m.check(open(keep, "rb").read() == saved, "continuing writes into another file")
                metadata(m, tree, target, 8)
            m.seen("rebuilt", (kinds, target == path))
        assert original
        m.sample(kinds=kinds, iterations=rec2["n"], walkers=nw, evaluations=len(w.log))


class Blocked:
    """A posterior which never accepts anything but the recorded states."""

    def __init__(self, tree):
        self.calls = []
        tree.log_posterior = self

    def __call__(self, parameters, **kwargs):
        self.calls.append(dict(parameters))
        return -np.inf, 0.0


@case(repeat=(1, 3))
def last_state(m):
    """Continuing starts at the last recorded state of every walker."""
    rng = m.rng()
    kinds = KINDS[int(rng.integers(3))]
    np.random.seed(int(rng.integers(2**31)))
    path = toys.scratch("fit.h5")
    tree = context(rng, kinds, backend=path)
    tree.fitting(nwalkers=walkers(tree), iteration=4, batch_size=8)
    rec = read(path)
    for again in range(2):
        if again:
            tree = rebuild(m, tree, path, kinds)
        before = read(path)
        b = Blocked(tree)
        tree.continue_fitting(iteration=2, batch_size=8)
        after = read(path)
        same_prefix(m, before, after, "continue")
        m.check(len(b.calls) > 0, "monitor saw no evaluation")
        for it in (1, 2):
            m.same(after["chain"][before["n"] + it - 1], before["chain"][-1], "a rejected continuation stays at the last state", iteration=it)
            m.same(after["logp"][before["n"] + it - 1], before["logp"][-1], "posterior of the last state", iteration=it)
        tree.__dict__.pop("log_posterior")
        m.seen("last", again)
    # the chain of another context, into its own file and in memory, whatever its length
    for new in [(toys.scratch("other.h5"), None)[int(v)] for v in rng.permutation(2)] + m.pick([], [None, None]):
        length = read(path)["n"]
        for _ in range(8):  # until the last state is not the one before
            tree.continue_fitting(iteration=1, batch_size=8)
            now = read(path)["chain"]
            if len(now) % 2 == (length + 1) % 2 and not np.array_equal(now[-1], now[-2]):
                break
        m.seen("length", len(now) % 2)
        apt.clear_cache()
        other = context(rng, kinds, backend=new)
        before = read(path)
        content = open(path, "rb").read()
        b = Blocked(other)
        other.log_posterior = lambda p, **k: (b.calls.append(dict(p)), (-1.0 if len(b.calls) <= before["chain"].shape[1] else -np.inf, 0.0))[1]
        other.continue_fitting(context=tree, iteration=2, batch_size=8)
        m.check(open(path, "rb").read() == content, "continuing from another context changes its file")
        got = recorded(other)
        m.check(got["n"] == 2, "iterations of the new context", got=got["n"])
        names = other.par_manager.parameter_fit
        nw = before["chain"].shape[1]
        m.same([np.array([c[k] for k in names]) for c in b.calls[:nw]], list(before["chain"][-1]), "starts from the last state of the other context")
        for it in range(2):
            m.same(got["chain"][it], before["chain"][-1], "starts from the last state of the other context")
        m.seen("other", new is None)
    m.sample(last=rec["chain"][-1])


@case(repeat=(1, 2))
def initial(m):
    """The initial state of every walker is its own draw of the initial guesses."""
    from scipy import stats

    rng = m.rng()
    np.random.seed(int(rng.integers(2**31)))
    for nw in (16, 150, 400):
        apt.clear_cache()
        tree = context(rng, ("det",))
        w = Watch(tree)
        w.old = lambda p, **k: (-1.0, -1.0)
        tree.fitting(nwalkers=nw, iteration=1, batch_size=8)
        first = [par for par, _, _ in w.log[:nw]]
        m.check(len(first) == nw, "monitor saw no initial state", got=len(first))
        for k in tree.par_manager.parameter_fit:
            s = tree.par_config[k]
            m.check(all(s["allowed_range"][0] <= p[k] <= s["allowed_range"][1] for p in first), "a walker starts outside", parameter=k)
            x = np.array([p[k] for p in first])
            x_in = x[(x > s["allowed_range"][0]) & (x < s["allowed_range"][1])]
            m.check(len(set(x_in)) == len(x_in), "walkers start at the same place", parameter=k, distinct=len(set(x)), walkers=nw)
            inner = abs(stats.norm.cdf(np.array(s["allowed_range"]), s["init_mean"], s["init_std"]) - [0, 1]).max() < 1e-12
            m.count("initial states", nw)
            if inner:
                m.pvalue(stats.kstest(x, "norm", (s["init_mean"], s["init_std"])).pvalue, "initial states do not follow the initial guess", parameter=k)
        m.seen("initial", nw)


@case(repeat=(1, 2))
def memory(m):
    """Without a file."""
    rng = m.rng()
    kinds = KINDS[int(rng.integers(3))]
    np.random.seed(int(rng.integers(2**31)))
    tree = context(rng, kinds)
    names = tree.par_manager.parameter_fit
    nw = walkers(tree)
    w = Watch(tree)
    tree.fitting(nwalkers=nw, iteration=3, batch_size=8)
    rec = recorded(tree)
    m.check(rec["n"] == 3 and rec["chain"].shape == (3, nw, len(names)), "iterations in memory", got=rec["chain"].shape)
    audit(m, tree, rec, w.log, names)
    for n in (1, 3):
        before = recorded(tree)
        tree.continue_fitting(iteration=n, batch_size=8)
        after = recorded(tree)
        m.check(after["n"] == before["n"] + n, "continued iterations in memory", got=after["n"], want=before["n"] + n)
        same_prefix(m, before, after, "continue in memory")
        audit(m, tree, after, w.log, names)
        m.seen("memory", n)
    # a failure keeps what was recorded
    before = recorded(tree)
    w.n, w.at, w.how = 0, nw + 1, Fault
    m.raises(Fault, lambda: tree.continue_fitting(iteration=3, batch_size=8), "failing posterior")
    w.at = None
    after = recorded(tree)
    m.check(after["n"] == before["n"] + 1, "completed iterations in memory", got=after["n"], want=before["n"] + 1)
    same_prefix(m, before, after, "failure in memory")
    tree.continue_fitting(iteration=4, batch_size=8)
    again = recorded(tree)
    m.check(again["n"] == after["n"] + 4, "continued after a failure", got=again["n"])
    same_prefix(m, after, again, "continue after a failure")
    # a new fit starts from scratch
    tree.fitting(nwalkers=nw, iteration=2, batch_size=8)
    m.check(recorded(tree)["n"] == 2, "a new fit", got=recorded(tree)["n"])


@case(repeat=(1, 3))
def faults(m):
    """The posterior fails at each evaluation of a fit and of its continuation."""
    rng = m.rng()
    kinds = KINDS[int(rng.integers(3))]
    path = toys.scratch("fit.h5")
    tree = context(rng, kinds, backend=path)
    names = tree.par_manager.parameter_fit
    nw = walkers(tree)
    seed = int(rng.integers(2**31))
    hows = [RuntimeError, KeyboardInterrupt, "nan"]
    total = nw * 3  # initial states and two iterations
    for k in range(total + 1):
        how = hows[(k + m.iteration) % 3]
        exc = ValueError if how == "nan" else how
        # the first fit
        np.random.seed(seed)
        w = Watch(tree, k, how)
        call = lambda: tree.fitting(nwalkers=nw, iteration=2, batch_size=8)  # noqa
        if k < total:
            m.raises(exc, call, "failing posterior", evaluation=k)
        else:
            call()
        n = max(0, (k - nw) // nw)
        rec = read(path)
        m.check(rec["n"] == n, "completed iterations of a failed fit", evaluation=k, got=rec["n"], want=n)
        audit(m, tree, rec, w.log, names)
        m.check(emcee.backends.HDFBackend(path, read_only=True).iteration == n, "file of a failed fit is readable")
        w.remove()
        m.seen("fit", (k, str(how)))
        if n == 0:
            continue
        # it continues
        w = Watch(tree)
        if k % 2:
            tree.continue_fitting(iteration=2, batch_size=8)
        else:
            tree.pre_fitting(nwalkers=nw, batch_size=8)  # what a new process does
            tree.continue_fitting(iteration=2, batch_size=8)
        rec2 = read(path)
        m.check(rec2["n"] == n + 2, "continued after a failure", got=rec2["n"], want=n + 2)
        same_prefix(m, rec, rec2, "continue after a failure")
        audit(m, tree, rec2, w.log, names, first=n)
        metadata(m, tree, path, 8)
        w.remove()
    # the continuation fails, in the same and in a rebuilt context
    base = toys.scratch("base.h5")
    shutil.copy(path, base)
    start = read(base)
    for k in range(2 * nw + 1):
        how = hows[(k + m.iteration) % 3]
        exc = ValueError if how == "nan" else how
        shutil.copy(base, path)
        if k % 6 == 0:
            tree = rebuild(m, tree, path, kinds)
        w = Watch(tree, k, how)
        call = lambda: tree.continue_fitting(iteration=2, batch_size=8)  # noqa
        if k < 2 * nw:
            m.raises(exc, call, "failing posterior", evaluation=k)
        else:
            call()
        rec = read(path)
        m.check(rec["n"] == start["n"] + k // nw, "completed iterations of a failed continuation", evaluation=k, got=rec["n"], want=start["n"] + k // nw)
        same_prefix(m, start, rec, "failed continuation")
        audit(m, tree, rec, w.log, names, first=start["n"])
        w.remove()
        # and is continued once more
        tree.continue_fitting(iteration=1, batch_size=8)
        rec2 = read(path)
        m.check(rec2["n"] == rec["n"] + 1, "continued after a failed continuation", got=rec2["n"])
        same_prefix(m, rec, rec2, "continue after a failed continuation")
        m.seen("continue", (k, str(how)))
    m.sample(walkers=nw, fit_faults=total, continue_faults=2 * nw)


WORKER = """
import json, os, signal, sys
repo, verif, what = sys.argv[1:4]
sys.path[:0] = [repo, verif]
spec = json.load(open(what))
import numpy as np
np.random.seed(spec["seed"])
import appletree as apt
from checks.c17 import define
define([tuple(k) if isinstance(k, list) else k for k in spec["kinds"]])
if spec["phase"] == "fit":
    tree = apt.Context(spec["instruct"])
else:
    tree = apt.Context.from_backend(spec["path"])
old = tree.log_posterior
log = open(spec["log"], "w")
n = [0]
def log_posterior(parameters, **kwargs):
    if n[0] == spec["at"]:
        if spec["how"] == "exit":
            os._exit(7)
        os.kill(os.getpid(), signal.SIGKILL)
    n[0] += 1
    out = old(parameters, **kwargs)
    log.write(json.dumps([{k: float(v) for k, v in parameters.items()}, [float(v) for v in out]]) + chr(10))
    log.flush()
    return out
tree.log_posterior = log_posterior
if spec["phase"] == "fit":
    tree.fitting(nwalkers=spec["nw"], iteration=3, batch_size=8)
else:
    tree.continue_fitting(iteration=3, batch_size=8)
"""


@case(repeat=(1, 3))
def kills(m):
    """The process dies in the middle of an evaluation."""
    rng = m.rng()
    kinds = KINDS[int(rng.integers(3))]
    base = toys.scratch("base.h5")
    tree = context(rng, kinds, backend=base)
    nw = walkers(tree)
    names = list(tree.par_manager.parameter_fit)
    tree.fitting(nwalkers=nw, iteration=2, batch_size=8)
    start = read(base)
    jobs = []
    n_jobs = m.pick(6, 24)
    ks = rng.permutation(np.arange(nw, 4 * nw))[: n_jobs // 2], rng.permutation(np.arange(0, 3 * nw))[: n_jobs // 2]
    for phase, points in zip(("fit", "continue"), ks):
        for k in points:
            d = toys.scratch()
            path = os.path.join(d, "fit.h5")
            ins = copy.deepcopy(tree.instruct)
            ins["backend_h5"] = path
            if phase == "continue":
                shutil.copy(base, path)
            spec = dict(kinds=kinds, phase=phase, instruct=ins, path=path, log=os.path.join(d, "log"), at=int(k), nw=nw, seed=int(rng.integers(2**31)),
                        how="exit" if k % 2 else "kill")
            toys.dump_json(spec, os.path.join(d, "spec.json"))
            jobs.append((spec, [sys.executable, "-B", "-c", WORKER, os.environ.get("VERIF_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                os.path.join(d, "spec.json")], d))
    running, waiting, done = [], list(jobs), []
    while running or waiting:
        while waiting and len(running) < 6:
            spec, cmd, d = waiting.pop(0)
            env = {**os.environ, "VERIF_SCRATCH": d}
            running.append((spec, subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        spec, p = running.pop(0)
        err = p.communicate(timeout=300)[1]
        m.check(p.returncode in (7, -9), "the worker did not reach the evaluation it has to die at", returncode=p.returncode, stderr=err.decode()[-800:], at=spec["at"])
        done.append(spec)
    for i, spec in enumerate(done):
        rec = read(spec["path"])
        log = [(par, out, {}) for par, out in (json.loads(line) for line in open(spec["log"]))]
        m.check(len(log) == spec["at"], "monitor lost evaluations", got=len(log), want=spec["at"])
        if spec["phase"] == "fit":
            n = (spec["at"] - nw) // nw
            first = 0
        else:
            n = start["n"] + spec["at"] // nw
            first = start["n"]
            same_prefix(m, start, rec, "killed continuation")
        m.check(rec["n"] == n, "completed iterations before the kill", got=rec["n"], want=n, phase=spec["phase"], at=spec["at"])
        if n:
            audit(m, tree, rec, log, names, first=first)
        m.seen("kill", (spec["phase"], spec["at"], spec["how"]))
        if n and (i % 2 == 0 or not m.quick):
            apt.clear_cache()
            define(kinds)
            if spec["phase"] == "fit":
                t = Context(spec["instruct"])
                t.pre_fitting(nwalkers=nw, batch_size=8)
            else:
                t = Context.from_backend(spec["path"])
            m.same(np.asarray(t.sampler.get_chain()), rec["chain"], "chain after the kill")
            w = Watch(t)
            t.continue_fitting(iteration=2, batch_size=8)
            rec2 = read(spec["path"])
            m.check(rec2["n"] == n + 2, "continued after the kill", got=rec2["n"], want=n + 2)
            same_prefix(m, rec, rec2, "continue after the kill")
            audit(m, t, rec2, w.log, names, first=n)
            metadata(m, t, spec["path"], 8)
            w.remove()
    m.count("killed processes", len(done))
    m.sample(kinds=kinds, killed_at=[(s["phase"], s["at"]) for s in done])
