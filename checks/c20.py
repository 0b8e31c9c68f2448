"""C20: best-fit and posterior summaries describe the current chain."""

import json
import os

import emcee
import h5py
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from scipy import stats

import appletree as apt
from appletree import Context, Plotter
from appletree.randgen import TwoHalfNorm
from appletree.utils import errors_to_two_half_norm_sigmas
from lib import toys
from lib.vh import case
from checks.c14 import EX, table

PROPERTY = "C20"
RULE = (
    "random recorded chains (1-6 parameters, one to some hundred iterations, minus infinite and undefined posteriors, the best sample anywhere), "
    "burn-in and thinning, sequences of fits and continuations; distinct by (summary, situation)"
)
TECHNIQUE = "runtime monitoring: returned parameters, files and drawn artists against the recorded chain"


def settings(rng, n, first=0):
    """n fitted parameters of all prior types, some fixed ones, in random order."""
    kinds = [
        lambda: toys.par_norm(1.0, 2.0), lambda: toys.par_uniform(-8.0, 9.0), lambda: toys.par_free(0.0, 1.0),
        lambda: toys.par_thn(0.5, 2.0, 1.5),
    ]
    out = {}
    for i, j in enumerate(rng.permutation(n)):
        out[f"{'zkbmta'[j]}{i}"] = kinds[(i + first) % 4]()
    for i in range(int(rng.integers(0, 3))):
        out[f"{'qAz'[i]}_fixed"] = toys.par_fixed(float(np.round(rng.uniform(-3, 3), 3)))
    out["nought_fixed"] = toys.par_fixed(0.0)
    items = list(out.items())
    return dict(items[i] for i in rng.permutation(len(items)))


def write_chain(path, par, chain, logp, prior):
    """A recorded fit."""
    names = sorted(k for k, s in par.items() if s["prior_type"] != "fixed")
    n, nw, nd = chain.shape
    b = emcee.backends.HDFBackend(path)
    b.reset(nw, nd)
    b.grow(n, np.zeros(nw, dtype=np.float32))
    with h5py.File(path, "r+") as f:
        g = f["mcmc"]
        g["chain"][:], g["log_prob"][:], g["blobs"][:] = chain, logp, prior
        g.attrs["iteration"] = n
        g.attrs["parameter_fit"] = names
        g.attrs["par_config"] = json.dumps(par)
        g.attrs["batch_size"] = 8
    return names


def random_chain(rng, n, nw, nd, bad=0.0, nan=False):
    """Walkers that sometimes stay; distinct values everywhere else."""
    chain = np.zeros((n, nw, nd))
    chain[0] = rng.normal(0, 2, (nw, nd))
    for i in range(1, n):
        move = rng.random(nw) < 0.6
        step = rng.normal(0, 1, (nw, nd))
        single = rng.random(nw) < 0.4  # only one of the parameters moves
        step[single] *= np.eye(nd)[rng.integers(0, nd, nw)][single]
        chain[i] = np.where(move[:, None], chain[i - 1] + step, chain[i - 1])
    logp = -0.5 * (chain**2).sum(axis=2) + rng.normal(0, 1e-3, (n, nw)) - rng.uniform(0, 50)
    if bad:
        hit = rng.random((n, nw)) < bad
        logp[hit] = -np.inf
        if nan:
            some = hit & (rng.random((n, nw)) < 0.5)
            logp[some] = np.nan
            logp[hit & (rng.random((n, nw)) < 0.2)] = np.inf
    return chain, logp, np.float32(rng.normal(-3, 1, (n, nw)))


def tree_of(rng, par, path=None):
    """A context which is fitted with these parameters."""
    free = [k for k in par]

    def needs(self, key, parameters, gx):
        return key, gx * 0 + sum(parameters[k] for k in free)

    cx = (EX[:-1] + EX[1:]) / 2
    from jax import numpy as jnp

    cls = toys.component_cls("SumComp", [
        toys.plugin("SumX", ["batch_size"], ["gx"], lambda self, key, parameters, batch_size: (key, jnp.tile(jnp.asarray(cx), batch_size // 4))),
        toys.plugin("SumE", ["gx"], ["eff"], needs, tuple(free))], "on_sim", False)
    full = {**par, "src": toys.par_fixed(1.25)}
    ins = {"configs": {}, "par_config": toys.dump_json(full, name="par.json"), "likelihoods": {"llh": dict(
        components={"c": cls.__name__}, copy_parameters={"c_rate": "src"}, data_file_name=toys.csv({"gx": rng.uniform(0, 8, 30)}),
        bins_type="irreg", bins_on="gx", bins=[EX.tolist()], clip=[0, 8])}}
    if path:
        ins["backend_h5"] = path
    return Context(ins)


def fixed_of(tree):
    return {k: s["prior_args"]["val"] for k, s in tree.par_config.items() if s["prior_type"] == "fixed"}


def summaries(m, tree, chain, logp, rng, what, picks=20):
    """All summaries of a context against its recorded chain."""
    names = sorted(k for k, s in tree.par_config.items() if s["prior_type"] != "fixed")
    fixed = fixed_of(tree)
    flat, fl = chain.reshape(-1, chain.shape[-1]), logp.ravel()

    def same(got, row, msg):
        m.check(set(got) == set(names) | set(fixed), msg + ": names", got=set(got) ^ (set(names) | set(fixed)))
        for k, v in zip(names, row):
            m.check(float(got[k]) == float(v), msg, parameter=k, got=got[k], want=v, what=what)
        for k, v in fixed.items():
            m.check(float(got[k]) == v, msg + ": fixed parameter", parameter=k, got=got[k], want=v, what=what)

    best = flat[int(np.argmax(fl))]
    same(tree.get_post_parameters(), best, "best fit")
    same(tree.get_post_parameters(which="mpe"), best, "best fit")
    same(tree.get_post_parameters("median"), np.median(flat, axis=0), "median")
    rows = {tuple(r): i for i, r in enumerate(flat)}
    hits = []
    for _ in range(picks):
        got = tree.get_post_parameters("random")
        row = tuple(float(got[k]) for k in names)
        m.check(row in rows, "random pick is not recorded", got=got, what=what)
        same(got, row, "random pick")
        hits.append(rows[row])
    if len(rows) > 10:
        m.check(len(set(hits)) > 1, "random picks never change", what=what)
    m.raises(ValueError, lambda: tree.get_post_parameters("mean"), "unknown summary")
    path = toys.scratch("best.json")
    tree.dump_post_parameters(path)
    with open(path) as f:
        same(json.load(f), best, "dumped best fit")
    m.same(np.asarray(tree.get_all_post_parameters()), chain, "all posterior samples")
    n = len(chain)
    d, t = int(rng.integers(0, n)), int(rng.integers(1, 4))
    want = chain[d + t - 1::t]
    m.same(np.asarray(tree.get_all_post_parameters(discard=d, thin=t)), want, "burn-in and thinning of the samples", discard=d, thin=t)
    m.same(np.asarray(tree.get_all_post_parameters(discard=d, thin=t, flat=True)), want.reshape(-1, want.shape[-1]), "flat samples")
    # what was returned is a copy
    got = tree.get_post_parameters()
    got[names[0]] = 1e9
    for k in fixed:
        got[k] = 1e9
    same(tree.get_post_parameters(), best, "best fit after changing the returned one")
    m.seen("summary", what)


@case(repeat=(1, 4))
def recorded(m):
    """Random recorded chains, opened by a context."""
    rng = m.rng()
    for nd in (1, 2, 3, 5):
        apt.clear_cache()
        par = settings(rng, nd, first=int(rng.integers(4)))
        path = toys.scratch("fit.h5")
        tree = tree_of(rng, par, path)
        nd = len(tree.par_manager.parameter_fit)
        for i in range(m.pick(6, 12)):
            n, nw = int(rng.integers(1, 15)), 2 * nd + 2 * int(rng.integers(0, 4))
            chain, logp, prior = random_chain(rng, n, nw, nd, bad=[0, 0.2, 0.7][i % 3])
            if not np.any(np.isfinite(logp)):
                continue
            where = ["any", "first", "last"][int(rng.integers(3))]
            if where != "any":  # the best one in a corner of the chain
                w = int(rng.integers(nw)) if where == "last" else 0
                logp[0 if where == "first" else -1, w] = np.nanmax(logp[np.isfinite(logp)]) + 1.0
            if i == 4:  # equal but for rounding
                logp = np.full_like(logp, -1000.0) + rng.random(logp.shape) * 1e-9
            if i == 5:  # large posteriors
                logp = np.abs(logp) * 1e5
                logp[~np.isfinite(logp)] = -np.inf
            if os.path.exists(path):
                os.remove(path)
            write_chain(path, tree.par_config, chain, logp, prior)
            tree.pre_fitting(nwalkers=nw, batch_size=8)
            # other values are set meanwhile
            np.random.seed(int(rng.integers(2**31)))
            tree.par_manager.sample_init()
            summaries(m, tree, chain, logp, rng, (nd, where, i % 3))
        m.sample(parameters=list(par), chain=chain.shape)


@case(repeat=(1, 2))
def random_is_uniform(m):
    """Every recorded sample can be picked."""
    rng = m.rng()
    path = toys.scratch("fit.h5")
    tree = tree_of(rng, {"a": toys.par_norm(0, 1), "b": toys.par_norm(0, 1)}, path)
    chain = rng.normal(0, 1, (3, 6, 2))
    write_chain(path, tree.par_config, chain, rng.normal(0, 30, (3, 6)), np.zeros((3, 6), np.float32))
    tree.pre_fitting(nwalkers=6, batch_size=8)
    flat = {tuple(r): i for i, r in enumerate(chain.reshape(-1, 2))}
    got = np.bincount([flat[float(p["a"]), float(p["b"])] for p in (tree.get_post_parameters("random") for _ in range(3600))], minlength=18)
    m.pvalue(stats.chisquare(got).pvalue, "random picks are not from all of the samples", counts=got)


@case(repeat=(1, 4))
def histories(m):
    """Fits, continuations, rebuilt contexts: always the current chain."""
    rng = m.rng()
    par = settings(rng, 3)
    for backend in (None, toys.scratch("fit.h5")):
        apt.clear_cache()
        tree = tree_of(rng, par, backend)
        names = tree.par_manager.parameter_fit
        centre = [0.0]
        tree.log_posterior = lambda p, **k: (-0.5 * sum((v - centre[0]) ** 2 for v in p.values()), -1.5)
        m.raises(Exception, lambda: tree.get_post_parameters(), "summary without fit")
        for step in range(m.pick(6, 10)):
            centre[0] = float(rng.uniform(-5, 5))
            nw = 2 * len(names) + 2
            if step == 0 or rng.random() < 0.4:
                tree.fitting(nwalkers=nw, iteration=int(rng.integers(1, 6)), batch_size=8)
                what = "fit"
            else:
                tree.continue_fitting(iteration=int(rng.integers(1, 6)), batch_size=8)
                what = "continue"
            chain, logp = np.array(tree.sampler.get_chain()), np.array(tree.sampler.get_log_prob())
            if backend:
                with h5py.File(backend, "r") as f:
                    n = f["mcmc"].attrs["iteration"]
                    m.same(chain, f["mcmc"]["chain"][:n], "chain of the sampler and the file")
                    best = json.loads(f["mcmc"].attrs["post_parameters"])
                m.check({k: float(v) for k, v in tree.get_post_parameters().items()} == best, "recorded best fit", got=best)
            summaries(m, tree, chain, logp, rng, (what, backend is None), picks=5)
            if step % 2:
                tree.par_manager.sample_prior()
                summaries(m, tree, chain, logp, rng, (what, "again"), picks=2)


def lines(ax):
    return [(np.asarray(x.get_xdata(), float), np.asarray(x.get_ydata(), float), x) for x in ax.get_lines()]


def prior_pdf(s, x):
    a = s["prior_args"]
    if s["prior_type"] == "norm":
        return stats.norm.pdf(x, a["mean"], a["std"])
    if s["prior_type"] == "uniform":
        return np.full_like(x, 1 / (a["upper"] - a["lower"]))
    sp, sn = errors_to_two_half_norm_sigmas((a["sigma_pos"], a["sigma_neg"]))
    return np.exp(TwoHalfNorm.logpdf(x, a["mu"], sp, sn))


def judge_plotter(m, p, par, names, chain, logp, prior, discard, thin):
    """chain etc. after burn-in and thinning."""
    good = np.all(np.isfinite(logp), axis=1)
    c, lp, pr = chain[good], logp[good], prior[good]
    m.same(p.chain, c, "iterations of the plots", discard=discard, thin=thin)
    m.same(p.posterior, lp, "posteriors of the plots")
    m.same(p.prior, pr, "priors of the plots")
    keep = np.isfinite(logp.ravel())
    flat, fl, fp = chain.reshape(-1, chain.shape[-1])[keep], logp.ravel()[keep], prior.ravel()[keep]
    m.same(p.flat_chain, flat, "samples of the plots", discard=discard, thin=thin)
    m.same(p.flat_posterior, fl, "posteriors of the samples")
    m.same(p.flat_prior, fp, "priors of the samples")
    m.check([str(v) for v in p.param_names] == names, "names of the parameters", got=p.param_names)
    best = flat[int(np.argmax(fl))]
    m.check({k: float(v) for k, v in p.param_mpe.items()} == dict(zip(names, map(float, best))), "best fit of the plots", got=p.param_mpe, want=best)
    m.count("plotters")
    return c, lp, pr, flat, fl, fp, best


@case(repeat=(1, 4))
def plotter_data(m):
    """Selection of the samples."""
    rng = m.rng()
    for i in range(m.pick(20, 60)):
        nd = int(rng.integers(1, 5))
        par = {k: v for k, v in settings(rng, nd, first=i).items()}
        n, nw = int(rng.integers(4, 40)), 2 * nd + 2
        chain, logp, prior = random_chain(rng, n, nw, nd, bad=[0, 0.02, 0.1][i % 3], nan=i % 2 == 0)
        path = toys.scratch("fit.h5")
        names = write_chain(path, par, chain, logp, prior)
        discard, thin = (0, 1) if i % 4 == 0 else (int(rng.integers(0, n // 2)), int(rng.integers(1, 4)))
        s = slice(discard + thin - 1, n, thin)
        if not np.any(np.isfinite(logp[s])):
            continue
        p = Plotter(path, discard=discard, thin=thin) if i % 4 else Plotter(path)
        judge_plotter(m, p, par, names, chain[s], logp[s], prior[s], discard, thin)
        m.seen("selection", (nd, discard > 0, thin, i % 3, i % 2))


def tau_ref(chain, c=5.0):
    """Integrated autocorrelation time (n walkers, n iterations)."""
    n = chain.shape[1]
    f = np.zeros(n)
    for y in chain:
        d = y - y.mean()
        acf = np.correlate(d, d, "full")[n - 1:]
        f += acf / acf[0]
    f /= len(chain)
    taus = 2 * np.cumsum(f) - 1
    for i in range(n):
        if not i < c * taus[i]:
            return taus[i]
    return taus[-1]


@case(repeat=(1, 3))
def drawn(m):
    """What the plots show."""
    rng = m.rng()
    for i in range(m.pick(3, 6)):
        nd = [1, 2, 4, 3, 5, 2][i]
        par = {k: v for k, v in settings(rng, nd, first=3 - i).items()}
        n, nw = 260, 2 * nd + 2
        chain, logp, prior = random_chain(rng, n, nw, nd)
        if i % 2:  # samples to be dropped, at the beginning and the end
            logp[:3, 0] = -np.inf
            logp[-1, 1] = np.nan if i == 1 else -np.inf
        path = toys.scratch("fit.h5")
        names = write_chain(path, par, chain, logp, prior)
        discard, thin = [(0, 1), (11, 2), (20, 1)][i % 3]
        s = slice(discard + thin - 1, n, thin)
        p = Plotter(path, discard=discard, thin=thin)
        c, lp, pr, flat, fl, fp, best = judge_plotter(m, p, par, names, chain[s], logp[s], prior[s], discard, thin)
        it = np.arange(len(c)) * thin + discard
        # burn-in
        fig, axes = p.plot_burn_in()
        m.check(len(axes) == nd + 2, "axes of the burn-in plot", got=len(axes))
        for k, ax in enumerate(axes):
            name = (names + ["log posterior", "log prior"])[k]
            m.check(ax.get_ylabel() == name, "label of the burn-in plot", got=ax.get_ylabel(), want=name)
            data = c[:, :, k] if k < nd else (lp, pr)[k - nd]
            got = lines(ax)
            m.check(len(got) == nw, "walkers of the burn-in plot", got=len(got), want=nw)
            for j, (x, y, _) in enumerate(got):
                m.close(x, it, "iterations of the burn-in plot", rtol=0, atol=0)
                m.close(y, data[:, j], "values of the burn-in plot", rtol=1e-12, atol=0, parameter=name)
        # marginal
        fig, axes = p.plot_marginal_posterior()
        m.check(len(axes) == nd, "axes of the marginal plot")
        for k, ax in enumerate(axes):
            m.check(ax.get_xlabel() == names[k], "label of the marginal plot", got=ax.get_xlabel(), want=names[k])
            h, e = np.histogram(flat[:, k], bins=50, density=True)
            xy = np.concatenate([q.get_xy() for q in ax.patches])
            m.close(np.array([xy[:, 0].min(), xy[:, 0].max()]), [flat[:, k].min(), flat[:, k].max()], "range of the marginal", rtol=1e-9, parameter=names[k])
            m.close(xy[:, 1].max(), h.max(), "height of the marginal", rtol=1e-6, parameter=names[k])
            for e0, e1, hv in zip(e[:-1], e[1:], h):
                inside = xy[(xy[:, 0] > e0 - 1e-12) & (xy[:, 0] < e1 + 1e-12), 1]
                m.check(np.any(np.abs(inside - hv) <= 1e-9 * (1 + hv)), "marginal posterior", parameter=names[k], want=hv, got=inside)
            got = lines(ax)
            if par[names[k]]["prior_type"] == "free":
                m.check(not got, "prior of a free parameter is drawn")
            else:
                m.check(len(got) == 1, "prior curve", got=len(got))
                m.close(got[0][1], prior_pdf(par[names[k]], got[0][0]), "prior curve", rtol=1e-6, parameter=names[k], prior=par[names[k]])
        # corner
        fig, axes = p.plot_corner()
        axes = np.asarray(axes)
        m.check(axes.shape == (nd + 2, nd + 2), "axes of the corner plot", got=axes.shape)
        samples = np.column_stack([flat, fl, fp])
        for k in range(nd + 2):
            red = [x for x in axes[k, k].get_lines() if matplotlib.colors.same_color(x.get_color(), "r")]
            if k < nd:
                m.check(len(red) == 1, "best fit in the corner plot", got=len(red))
                m.close(np.asarray(red[0].get_xdata(), float), [best[k]] * 2, "best fit in the corner plot", rtol=1e-12, parameter=names[k])
                blue = [x for x in axes[k, k].get_lines() if matplotlib.colors.same_color(x.get_color(), "b") and len(x.get_xdata()) == 101]
                if par[names[k]]["prior_type"] != "free":
                    m.check(len(blue) == 1, "prior in the corner plot", got=len(blue))
                    m.close(np.asarray(blue[0].get_ydata()), prior_pdf(par[names[k]], np.asarray(blue[0].get_xdata())), "prior in the corner plot", rtol=1e-6)
            label = (names + ["log posterior", "log prior"])[k]
            m.check(axes[-1, k].get_xlabel() == label, "label of the corner plot", got=axes[-1, k].get_xlabel(), want=label)
            q = [float(x.get_xdata()[0]) for x in axes[k, k].get_lines() if x not in red and len(x.get_xdata()) == 2]
            want = np.quantile(samples[:, k], stats.norm.cdf([-1, 0, 1]))
            m.close(np.sort(q), np.sort(want), "quantiles in the corner plot", rtol=1e-6, atol=1e-9, parameter=label)
        corr = np.corrcoef(samples, rowvar=False)
        cmap = matplotlib.cm.ScalarMappable(norm=matplotlib.colors.Normalize(-1, 1), cmap=matplotlib.cm.coolwarm)
        for y in range(nd + 2):
            for x in range(y):
                m.close(np.asarray(axes[y, x].get_facecolor())[:3], np.asarray(cmap.to_rgba(corr[y, x]))[:3], "colour of the correlation", rtol=0, atol=0.02)
        # autocorrelation
        fig, axes = p.plot_autocorr()
        m.check(len(axes) == nd, "axes of the autocorrelation plot", got=len(axes))
        for k, ax in enumerate(axes):
            m.check(names[k] in ax.get_ylabel(), "label of the autocorrelation plot", got=ax.get_ylabel())
            x, y, _ = lines(ax)[0]
            for xx, yy in list(zip(x, y))[:: 3 if m.quick else 1] + [(x[-1], y[-1])]:
                nn = int(round(xx / thin))
                m.check(abs(nn * thin - xx) < 1e-9 and nn <= len(c), "iterations of the autocorrelation plot", got=xx)
                m.close(yy, tau_ref(c[:nn, :, k].T), "autocorrelation time", rtol=1e-6, parameter=names[k], iterations=nn)
            m.check(int(round(x[-1] / thin)) == len(c), "the autocorrelation of the whole chain", got=x[-1], want=len(c) * thin)
        # acceptance
        moved = np.any(c[1:] != c[:-1], axis=2)
        win = int(rng.integers(5, 60))
        fig, axes = p.plot_acceptance_fraction(window_length=win)
        ls = lines(axes[0])
        m.close(ls[0][1], np.cumsum(moved.mean(axis=1)) / np.arange(1, len(c)), "acceptance fraction", rtol=1e-9)
        m.close(ls[0][0], np.arange(1, len(c)) * thin + discard, "iterations of the acceptance fraction")
        want = [moved[j - win:j].mean() for j in range(win, len(c))]
        m.close(ls[1][1], want, "moving acceptance fraction", rtol=1e-9)
        m.close(ls[1][0], np.arange(win, len(c)) * thin + discard, "iterations of the moving acceptance fraction")
        m.check(len(lines(axes[1])[0][1]) == nw, "walkers of the acceptance plot")
        m.seen("drawn", (nd, discard, thin, i % 2))
        plt.close("all")
        if i == 0:
            out = toys.scratch()
            p.make_all_plots(save=True, save_path=out, fmt="png")
            files = sorted(os.listdir(out))
            m.check(files == sorted(f"{k}.png" for k in ("burn_in", "marginal_posterior", "corner", "autocorr", "acceptance_fraction")), "saved plots", got=files)
            plt.close("all")
        m.sample(parameters=names, burn_in=discard, thin=thin, best=best)


assert table and Context
