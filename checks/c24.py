"""C24: simulated quanta are conserved and physical."""

import json
import os
import subprocess
import sys

import numpy as np
from scipy import stats

import appletree as apt
from appletree.share import set_global_config
from lib import shipped, toys
from lib.vh import case, REPO, VERIF, Inconclusive

PROPERTY = "C24"
RULE = (
    "all outputs of every shipped component and of the full NR chain with nominal, random and extreme parameters and maps; means of the "
    "detected quanta and areas of single plugins and of the whole chain; x64 and hybrid sampling; distinct by (component, parameters, maps)"
)
TECHNIQUE = "runtime monitoring: invariants of every simulated event and z-tests of the means"

COMPONENTS = ["ERBand", "ERPeak", "NR", "ERBandNestV2", "ERPeakNestV2", "VerifNRNest"]
CHAIN = {
    "ERBand": ["num_quanta", "num_ion", "recomb_mean", "recomb_std", "recomb"],
    "NR": ["light_yield", "charge_yield"],
    "ERBandNestV2": ["Ni", "Nex", "Nq", "recombProb", "elecFrac", "alf", "Variance", "omega", "fano_nq", "light_yield",
                     "charge_yield", "_Nph", "_Ne", "nex_ni_ratio"],
    "VerifNRNest": ["Ni", "Nex", "Nq", "recombProb", "elecFrac", "alf", "Variance", "omega", "light_yield", "charge_yield",
                    "_Nph", "_Ne", "nex_ni_ratio", "_Ni", "_Nex"],
}
CHAIN["ERPeak"] = CHAIN["ERBand"]
CHAIN["ERPeakNestV2"] = CHAIN["ERBandNestV2"]
COMMON = [
    "energy", "x", "y", "z", "field", "num_photon", "num_electron", "s1_lce", "s2_lce", "num_s1_phd", "num_s1_pe",
    "drift_survive_prob", "num_electron_drifted", "num_s2_pe", "rec_x", "rec_y", "rec_z", "rec_r", "s1_area", "s2_area",
    "s1_correction", "s2_correction", "cs1", "cs2", "acc_s2_threshold", "acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2",
]
COUNTS = [
    "num_quanta", "num_ion", "Ni", "Nex", "Nq", "num_photon", "num_electron", "num_s1_phd", "num_s1_pe",
    "num_electron_drifted", "num_s2_pe",
]
PROBS = [
    "recomb_mean", "recomb", "recombProb", "elecFrac", "alf", "drift_survive_prob", "acc_s2_threshold", "acc_s1_recon_eff",
    "cut_acc_s1", "cut_acc_s2", "eff",
]
NONNEG = ["energy", "light_yield", "charge_yield", "_Nph", "_Ne", "Variance", "omega", "fano_nq", "recomb_std", "_Ni"]


def build(cname, llh_name="shipped_llh", name="shipped"):
    names = CHAIN[cname] + COMMON
    if cname == "VerifNRNest":
        cls = shipped.nr_nest_cls(add=False)
        c = cls(name=name, llh_name=llh_name)
        c.rate_name = "r"
        c.deduce(data_names=names)
        c.compile()
    else:
        c = shipped.build(cname, names, llh_name=llh_name, name=name)
    return c, names + ["eff"]


def observe(c, names, key, n, par):
    _, out = c.simulate(key, n, par)
    return dict(zip(names, map(np.asarray, out)))


def invariants(d, eps):
    """(holds, what) of every event."""

    def whole(x):
        x = np.asarray(x, float)
        return np.isfinite(x) & (x >= 0) & (x == np.round(x))

    for k, v in d.items():
        yield np.isfinite(np.asarray(v, float)), f"{k} is finite"
    for k in COUNTS:
        if k in d:
            yield whole(d[k]), f"{k} is a count"
    for k in PROBS:
        if k in d:
            ok = (d[k] >= -eps) & (d[k] <= 1 + eps)
            if k == "alf" and "_Nex" in d:
                ok |= d["_Nex"] < 0  # outside of the validity of the NR model
            yield ok, f"{k} is within 0 and 1"
    for k in NONNEG:
        if k in d:
            yield d[k] >= 0, f"{k} is not negative"
    i = {k: np.asarray(d[k], float) for k in COUNTS if k in d}
    ne, nph = i["num_electron"], i["num_photon"]
    if "num_quanta" in i:
        yield nph + ne == i["num_quanta"], "photons and electrons are all quanta"
        yield i["num_ion"] <= i["num_quanta"], "ions are quanta"
        yield ne <= i["num_ion"], "electrons come from ions"
        yield nph <= i["num_quanta"], "photons are quanta"
    if "Nq" in i:
        yield nph + ne == i["Nq"], "photons and electrons are all quanta"
        yield i["Ni"] + i["Nex"] == i["Nq"], "ions and excitons are all quanta"
        yield i["Ni"] <= i["Nq"], "ions are quanta"
        yield ne <= i["Ni"], "electrons come from ions"
        yield nph <= i["Nq"], "photons are quanta"
        yield nph >= i["Nex"], "excitons emit photons"
    yield i["num_s1_phd"] <= nph, "detected photons are produced"
    yield i["num_s1_pe"] >= i["num_s1_phd"], "every detected photon gives at least one photoelectron"
    yield i["num_s1_pe"] <= 2 * i["num_s1_phd"], "a detected photon gives at most two photoelectrons"
    yield i["num_electron_drifted"] <= ne, "drifting electrons are produced"
    yield (i["num_s2_pe"] == 0) | (i["num_electron_drifted"] > 0), "an S2 comes from electrons"


def judge(m, d, eps=1e-6, **where):
    for ok, what in invariants(d, eps):
        ok = np.asarray(ok)
        m.evaluations += ok.size - 1 if ok.size else 0
        if not ok.all():
            j = int(np.argmin(ok))
            m.fail(what, event={k: v[j] for k, v in d.items()}, **where)
        m.check(True, what)
    m.count("events", len(d["cs1"]))


def par_sets(rng, cname, n, skip=()):
    """Nominal, typical and extreme parameters."""
    base = "NR" if cname == "VerifNRNest" else cname
    if cname == "VerifNRNest":
        cfg = {**shipped.par_config("NR"), **shipped.par_config("MonoEnergiesYields")}
        nominal = shipped.merged_parameters(liquid_xe_density=2.8619, field=80.0)
        nominal.update(s1_eff_3f_sigma=0.0, s1_cut_acc_sigma=0.0, s2_cut_acc_sigma=0.0)
    else:
        cfg = shipped.par_config(base)
        nominal = shipped.parameters(base)
    nominal = {k: float(v) for k, v in nominal.items()}
    for k in ("field", "nr_rate", "s1_eff_3f_sigma", "s1_cut_acc_sigma", "s2_cut_acc_sigma"):
        nominal.setdefault(k, 0.0)
    yield "nominal", nominal
    for i in range(n):
        par = dict(nominal)
        spread = 3.0 if i % 2 == 0 else 1.0
        for k, v in cfg.items():
            if v["prior_type"] == "fixed" or k in skip:
                continue
            lo, hi = v["allowed_range"]
            par[k] = float(np.clip(rng.normal(v["init_mean"], spread * v["init_std"]), lo, hi))
        kind = "typical"
        if i % 2 == 0:
            kind = "extreme"
            par["g1"] = float(rng.choice([0.01, 0.3, 0.9, 1.0]))
            par["g2"] = float(rng.choice([0.5, 10.0, 31.0, 60.0]))
            par["p_dpe"] = float(rng.choice([0.0, 0.2, 1.0]))
            par["gas_gain"] = float(rng.choice([5.0, 31.0, 100.0]))
            par["elife_sigma"] = float(rng.choice([-0.4, 0.4]))
            par["s2_threshold"] = float(rng.choice([0.0, 300.0]))
            for k in ("s1_eff_3f_sigma", "s1_cut_acc_sigma", "s2_cut_acc_sigma"):
                par[k] = float(rng.uniform(-5, 5))
            if "rf0" in par and i % 4 == 0:
                # recombination that is strong and fluctuates wildly
                par["py0"], par["py1"], par["rf0"] = float(rng.uniform(0.1, 0.5)), 50.0, float(rng.uniform(0.2, 1.5))
        # the shapes of the recombination have to keep their meaning
        if "py4" in par:
            par["py0"], par["py1"], par["py4"] = max(par["py0"], 0.02), max(par["py1"], 10.0), max(par["py4"], 0.1)
            par["rf0"], par["rf1"] = par["rf0"], max(par["rf1"], 0.05)
        if "eta" in par and cname == "VerifNRNest":
            par["alpha"], par["beta"] = max(par["alpha"], 10.0), min(max(par["beta"], 1.0), 1.2)
            par["eta"], par["iota"] = max(par["eta"], 0.5), max(par["iota"], 0.5)
            par["zeta"], par["theta"] = max(par["zeta"], 0.05), max(par["theta"], 0.05)
            par["epsilon"] = max(par["epsilon"], 5.0)
            par["field"] = float(rng.choice([23.0, 80.0, 200.0]))
        yield kind, par


def rough_maps(rng, cname):
    """Maps with large variations, where probabilities would leave 0 and 1 without care."""
    grid = rng.uniform(0.05, 9.0, (4, 4, 4))
    flat = rng.uniform(0.05, 4.0, (5, 5))
    x = np.linspace(0, 1, 6)
    d = {
        "s1_lce": toys.regbin_map([-70, -70, -140], [70, 70, 0], grid),
        "s1_correction": toys.regbin_map([-70, -70, -140], [70, 70, 0], rng.uniform(0.3, 3, (3, 3, 3))),
        "s2_lce": toys.regbin_map([-70, -70], [70, 70], rng.uniform(0.05, 2.0, (4, 4))),
        "s2_correction": toys.regbin_map([-70, -70], [70, 70], rng.uniform(0.3, 3, (4, 4))),
        "gas_gain_relative": toys.regbin_map([-70, -70], [70, 70], flat),
        "elife": toys.point_map(x, np.sort(rng.uniform(300, 9000, 6)), coord="cdf"),
        "posrec_reso": toys.point_map([0, 10, 1000], [8.0, 3.0, 0.2]),
        "s1_bias_3f": toys.point_map([0, 10, 100], [-0.2, 0.1, 0.05]),
        "s1_smear_3f": toys.point_map([0, 10, 100], [0.2, 0.1, 0.05]),
        "s2_bias": toys.point_map([0, 1000, 50000], [0.1, -0.1, 0.02]),
        "s2_smear": toys.point_map([0, 1000, 50000], [0.2, 0.1, 0.02]),
        "s1_cut_acc": [toys.point_map([0, 30, 100], v) for v in ([0.2, 0.9, 0.8], [-0.5, 0.5, 0.6], [0.8, 1.3, 0.9])],
        "s2_cut_acc": [toys.point_map([0, 300, 5000], v) for v in ([0.2, 0.9, 0.8], [-0.5, 0.5, 0.6], [0.8, 1.3, 0.9])]
        + ["s2_cut_acc_sigma"],
        "efield_position_dependence": 1,
        "efield_map": toys.regbin_map([0, -148.65], [66.4, 0], rng.uniform(5, 200, (5, 5)), names=["r", "z"]),
    }
    if cname in ("ERBand", "ERBandNestV2"):
        d["lower_energy"], d["upper_energy"] = (0.01, 60.0)
    if cname in ("ERPeak", "ERPeakNestV2"):
        d["mono_energy"] = float(rng.choice([0.05, 0.3, 41.5, 200.0]))
    return d


def drive(m, cname, rough, n_par, n):
    rng = m.rng(cname, rough)
    apt.clear_cache()
    if rough:
        set_global_config(rough_maps(rng, cname))
    c, names = build(cname)
    for i, (kind, par) in enumerate(par_sets(rng, cname, n_par)):
        d = observe(c, names, m.key(cname, rough, i), n, par)
        judge(m, d, component=cname, parameters=par, rough=rough)
        m.seen("invariants", (cname, rough, kind, i))
    m.sample(component=cname, rough=rough, electrons=float(np.mean(d["num_electron"])), photons=float(np.mean(d["num_photon"])))


@case(repeat=(1, 1))
def shipped_components(m):
    """Nominal maps, nominal to extreme parameters."""
    for cname in COMPONENTS if not m.quick else ["ERPeak", "NR", "ERBandNestV2"]:
        drive(m, cname, False, m.pick(5, 30), m.pick(4000, 10000))


@case(repeat=(1, 2))
def rough_components(m):
    """Maps and configuration that drive probabilities to their boundaries."""
    names = COMPONENTS if not m.quick else ["ERBand", "ERPeakNestV2", "VerifNRNest"]
    for cname in names:
        drive(m, cname, True, m.pick(5, 20), m.pick(4000, 10000))


# ------------------------------------------------------------------ single plugins


def instance(name, **maps):
    apt.clear_cache()
    if maps:
        set_global_config(maps)
    return getattr(apt.plugins, name)("shipped_llh")


def z_mean(m, x, mean, var, what, **data):
    x = np.asarray(x, float)
    se = np.sqrt(max(var, 1e-12) / len(x))
    p = 2 * stats.norm.sf(abs(x.mean() - mean) / se)
    m.pvalue(p, what, got=float(x.mean()), want=float(mean), se=float(se), **data)


@case(repeat=(2, 4))
def detection(m):
    """Means of the detected quanta of single plugins at given inputs."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    ones = np.ones(N, np.float32)
    I = lambda v: np.full(N, v, np.int32)  # noqa
    pd, s1pe = instance("PhotonDetection"), instance("S1PE")
    drifted = instance("ElectronDrifted")
    for j in range(m.pick(5, 12)):
        g1, p, lce = float(rng.uniform(0.02, 0.6)), float(rng.uniform(0, 0.5)), float(rng.uniform(0.2, 1.8))
        if j == 0:
            g1, p, lce = 0.9, 0.1, 3.0  # saturated
        nph = int(rng.choice([1, 5, 60, 900]))
        par = {"g1": g1, "p_dpe": p}
        out = shipped.run_plugin(pd, m.key("pd", j), par, dict(num_photon=I(nph), s1_lce=ones * np.float32(lce)))[1]["num_s1_phd"]
        q = min(max(g1 * lce / (1 + p), 0.0), 1.0)
        m.check((out >= 0) & (out <= nph), "detected photons are produced")
        z_mean(m, out, nph * q, nph * q * (1 - q), "mean of detected photons", g1=g1, p_dpe=p, lce=lce, n=nph)
        pe = shipped.run_plugin(s1pe, m.key("pe", j), par, dict(num_s1_phd=I(nph)))[1]["num_s1_pe"]
        z_mean(m, pe, nph * (1 + p), nph * p * (1 - p), "mean of photoelectrons", p_dpe=p, n=nph)
        m.check((pe >= nph) & (pe <= 2 * nph), "one or two photoelectrons")
        s = float(rng.uniform(0.02, 1.0))
        ne = int(rng.choice([1, 5, 60, 900]))
        dr = shipped.run_plugin(drifted, m.key("dr", j), {}, dict(num_electron=I(ne), drift_survive_prob=ones * np.float32(s)))[1]["num_electron_drifted"]
        z_mean(m, dr, ne * s, ne * s * (1 - s), "mean of drifting electrons", s=s, n=ne)
        m.check((dr >= 0) & (dr <= ne), "drifting electrons are produced")
        m.seen("detection", (j, nph, ne))


@case(repeat=(2, 4))
def s2_photoelectrons(m):
    """Mean and spread of S2 photoelectrons, where the extraction is complete and where it is not."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    ones = np.ones(N, np.float32)
    for j in range(m.pick(3, 8)):
        rel = float(rng.uniform(0.6, 1.5))
        inst = instance("S2PE", gas_gain_relative=toys.regbin_map([-70, -70], [70, 70], np.full((3, 3), rel)))
        gain, p, lce = float(rng.uniform(15, 60)), float(rng.uniform(0, 0.5)), float(rng.uniform(0.4, 1.5))
        g2 = gain * rel * float(rng.choice([0.2, 0.6, 0.95, 1.4]))
        ne = int(rng.choice([1, 8, 100]))
        out = shipped.run_plugin(
            inst, m.key("s2", j), {"g2": g2, "gas_gain": gain, "p_dpe": p},
            dict(num_electron_drifted=np.full(N, ne, np.int32), s2_lce=ones * np.float32(lce), x=ones * 5, y=ones * -7),
        )[1]["num_s2_pe"]
        ext = min(g2 / (gain * rel), 1.0)
        phd = gain * rel * lce / (1 + p)
        # N_phd ~ Poisson(k phd), k ~ Binomial(ne, ext); PE = phd + Binomial(phd, p)
        k_var = ne * ext * (1 - ext)
        mean_phd, var_phd = ne * ext * phd, ne * ext * phd + phd**2 * k_var
        mean = mean_phd * (1 + p)
        var = (1 + p) ** 2 * var_phd + p * (1 - p) * mean_phd
        z_mean(m, out, mean, var, "mean of S2 photoelectrons", g2=g2, gain=gain, rel=rel, lce=lce, p_dpe=p, ne=ne)
        ratio = np.var(np.asarray(out, float)) / var
        m.check(abs(ratio - 1) < 0.2 if ne > 1 else abs(ratio - 1) < 0.3, "spread of S2 photoelectrons", ratio=ratio, ne=ne)
        m.check((out >= 0) & (out == np.round(out)), "photoelectrons are counts")
        m.seen("s2", (j, ne, ext == 1.0))


@case(repeat=(2, 4))
def drift(m):
    """Survival of drifting electrons follows depth, velocity and lifetime."""
    rng = m.rng()
    n = 3000
    for j in range(m.pick(3, 8)):
        life = float(rng.uniform(200, 20000))
        inst = instance("DriftLoss", elife=toys.point_map([0.0, 1.0], [life, life], coord="cdf"))
        v, s = float(rng.uniform(0.03, 0.2)), float(rng.uniform(-0.5, 0.5))
        z = rng.uniform(-150, 0, n)
        out = shipped.run_plugin(inst, m.key(j), {"drift_velocity": v, "elife_sigma": s}, dict(z=z.astype(np.float32)))[1]["drift_survive_prob"]
        m.close(out, np.exp(-np.abs(z) / v / (life * (1 + s))), "survival of electrons", rtol=3e-5, atol=1e-7)
        m.seen("drift", j)
        # distribution of lifetimes: the survival of a depth is drawn from the map
        lo, hi = life, life * 3
        inst = instance("DriftLoss", elife=toys.point_map([0.0, 1.0], [lo, hi], coord="cdf"))
        zz = np.full(20000, -100.0, np.float32)
        out = np.asarray(shipped.run_plugin(inst, m.key("d", j), {"drift_velocity": v, "elife_sigma": s}, dict(z=zz))[1]["drift_survive_prob"], float)
        tau = -100.0 / v / np.log(np.clip(out, 1e-300, 1 - 1e-12)) / (1 + s)
        if out.min() > 1e-3 and out.max() < 0.9999:
            u = np.clip((tau - lo) / (hi - lo), 0, 1)
            m.check((tau > lo * 0.98) & (tau < hi * 1.02), "lifetime is within the map", lo=lo, hi=hi, got=[tau.min(), tau.max()])
            d = stats.kstest(u, "uniform")
            m.check(d.statistic < 0.05, "lifetimes follow the map", statistic=d.statistic)
            m.seen("lifetimes", j)


@case(repeat=(2, 4))
def reconstruction(m):
    """Areas and positions: bias, smearing and resolution of the maps, and corrections that divide them."""
    rng = m.rng()
    N = m.pick(20000, 100000)
    for j in range(m.pick(2, 6)):
        b, w = float(rng.uniform(-0.3, 0.3)), float(rng.uniform(0.02, 0.3))
        for plug, bias, smear, i, o in (("S1", "s1_bias_3f", "s1_smear_3f", "num_s1_pe", "s1_area"), ("S2", "s2_bias", "s2_smear", "num_s2_pe", "s2_area")):
            # the maps depend on the number of photoelectrons
            inst = instance(plug, **{bias: toys.point_map([0.0, 100.0], [0.0, b]), smear: toys.point_map([0.0, 100.0], [0.0, w])})
            k = int(rng.integers(5, 100))
            x = np.full(N, k, np.int32 if plug == "S1" else np.float32)
            a = np.asarray(shipped.run_plugin(inst, m.key(plug, j), {}, {i: x})[1][o], float)
            bb, ww = b * k / 100, w * k / 100
            z_mean(m, a, k * (1 + bb), (k * ww) ** 2, "mean area of " + plug, k=k, bias=bb, smear=ww)
            m.check(abs(np.std(a) / (k * ww) - 1) < 0.08, "spread of the area of " + plug, k=k, got=float(np.std(a)), want=k * ww)
            x = rng.integers(0, 90, 500).astype(x.dtype)
            inst = instance(plug, **{bias: toys.point_map([0.0, 100.0], [0.0, b]), smear: toys.const_map(0.0)})
            a = shipped.run_plugin(inst, m.key(plug, j, "e"), {}, {i: x})[1][o]
            m.close(a, x * (1 + b * x / 100.0), "area without smearing of " + plug, rtol=1e-4, atol=1e-4)
            m.seen("area", (plug, j))
        reso = float(rng.uniform(0.2, 5))
        inst = instance("PositionRecon", posrec_reso=toys.point_map([0.0, 200.0], [0.0, reso]))
        k = int(rng.integers(20, 200))
        xyz = [rng.uniform(-60, 60, N).astype(np.float32) for _ in range(2)] + [rng.uniform(-130, -10, N).astype(np.float32)]
        o = shipped.run_plugin(inst, m.key("pos", j), {}, dict(x=xyz[0], y=xyz[1], z=xyz[2], num_electron_drifted=np.full(N, k, np.int32)))[1]
        dx, dy = np.asarray(o["rec_x"], float) - xyz[0], np.asarray(o["rec_y"], float) - xyz[1]
        rr = reso * k / 200
        for dd, nm in ((dx, "x"), (dy, "y")):
            z_mean(m, dd, 0.0, rr**2 / 2, "reconstructed position is unbiased in " + nm)
            m.check(abs(np.std(dd) / (rr / np.sqrt(2)) - 1) < 0.08, "resolution in " + nm, got=float(np.std(dd)), want=rr / np.sqrt(2))
        m.check(abs(np.corrcoef(dx, dy)[0, 1]) < 0.06, "errors in x and y are independent", got=float(np.corrcoef(dx, dy)[0, 1]))
        m.close(o["rec_z"], xyz[2], "depth is known")
        m.close(o["rec_r"], np.hypot(o["rec_x"].astype(float), o["rec_y"].astype(float)), "radius", rtol=1e-5, atol=1e-4)
        # corrections
        s1a, c1 = rng.uniform(1, 200, 300), rng.uniform(0.2, 3, 300)
        s2a, c2, pr = rng.uniform(1, 2e4, 300), rng.uniform(0.2, 3, 300), rng.uniform(0.05, 1, 300)
        f = lambda v: v.astype(np.float32)  # noqa
        m.close(shipped.run_plugin(instance("cS1"), m.key(), {}, dict(s1_area=f(s1a), s1_correction=f(c1)))[1]["cs1"], s1a / c1, "cs1", rtol=1e-5)
        m.close(
            shipped.run_plugin(instance("cS2"), m.key(), {}, dict(s2_area=f(s2a), s2_correction=f(c2), drift_survive_prob=f(pr)))[1]["cs2"],
            s2a / c2 / pr, "cs2", rtol=1e-5,
        )
        m.seen("position", j)


@case(repeat=(2, 4))
def maps_of_position(m):
    """Light collection, field and corrections are the maps at the true and the reconstructed position."""
    rng = m.rng()
    n = 400

    def linear2(name, **kw):
        # nodes of bilinear data; queries on the nodes are exact for every method
        v = rng.uniform(0.3, 2.0, (4, 5))
        lo, hi = [-60.0, -50.0], [60.0, 50.0]
        return toys.regbin_map(lo, hi, v, **kw), v, lo, hi

    def nodes(lo, hi, shape):
        i = [rng.integers(0, s, n) for s in shape]
        return i, [l + (h - l) * (k + 0.5) / s for l, h, k, s in zip(lo, hi, i, shape)]

    for plug, cfg, ins, out, dim in (
        ("S1LCE", "s1_lce", ("x", "y", "z"), "s1_lce", 3), ("S1Correction", "s1_correction", ("rec_x", "rec_y", "rec_z"), "s1_correction", 3),
        ("S2LCE", "s2_lce", ("x", "y"), "s2_lce", 2), ("S2Correction", "s2_correction", ("rec_x", "rec_y"), "s2_correction", 2),
        ("EField", "efield_map", ("x", "y", "z"), "field", 2),
    ):
        shape = (4, 5, 3)[:dim]
        v = rng.uniform(0.3, 2.0, shape)
        lo, hi = [-60.0, -50.0, -140.0][:dim], [60.0, 50.0, -10.0][:dim]
        if plug == "EField":
            lo, hi = [0.0, -140.0], [60.0, -10.0]
        # nodes are evenly spaced from the lower to the upper edge
        idx = [rng.integers(0, s, n) for s in shape]
        pos = [np.linspace(l, h, s)[k] for l, h, k, s in zip(lo, hi, idx, shape)]
        extra = {"efield_position_dependence": 1} if plug == "EField" else {}
        inst = instance(plug, **{cfg: toys.regbin_map(lo, hi, v, names=["r", "z"] if plug == "EField" else None)}, **extra)
        if plug == "EField":
            th = rng.uniform(0, 2 * np.pi, n)
            pos = [pos[0] * np.cos(th), pos[0] * np.sin(th), pos[1]]
        got = shipped.run_plugin(inst, m.key(plug), {"field": 77.0}, {k: p.astype(np.float32) for k, p in zip(ins, pos)})[1][out]
        m.close(got, v[tuple(idx)], plug + " is the map at the position", rtol=2e-3, atol=2e-3)
        m.seen("map", plug)
    inst = instance("EField")
    x = rng.uniform(-50, 50, 50).astype(np.float32)
    got = shipped.run_plugin(inst, m.key("e"), {"field": 77.0}, dict(x=x, y=x, z=x - 60))[1]["field"]
    m.close(got, np.full(50, 77.0), "uniform field is the parameter", rtol=1e-6)


@case(repeat=(1, 2))
def perfect_corrections(m):
    """With perfect corrections, corrected signals have the mean of the gains whatever the maps are."""
    rng = m.rng()
    for cname in ("ERBand", "NR") if m.quick else ("ERBand", "NR", "ERPeakNestV2"):
        apt.clear_cache()
        lce1, lce2 = rng.uniform(0.4, 1.6, (4, 4, 3)), rng.uniform(0.6, 1.3, (4, 3))
        f1 = toys.regbin_map([-70, -70, -140], [70, 70, 0], lce1)
        f2 = toys.regbin_map([-70, -70], [70, 70], lce2)
        cfg = {
            "s1_lce": f1, "s1_correction": f1, "s2_lce": f2, "s2_correction": f2,
            "gas_gain_relative": toys.regbin_map([-70, -70], [70, 70], rng.uniform(0.8, 1.2, (3, 3))),
            "elife": toys.point_map([0.0, 1.0], [2000.0, 6000.0], coord="cdf"),
            "posrec_reso": toys.const_map(0.0),
            "s1_bias_3f": toys.const_map(0.0), "s1_smear_3f": toys.const_map(0.0),
            "s2_bias": toys.const_map(0.0), "s2_smear": toys.const_map(0.0),
        }
        set_global_config(cfg)
        c, names = build(cname)
        for j in range(m.pick(2, 6)):
            par = shipped.parameters(cname)
            par.update(g1=float(rng.uniform(0.08, 0.25)), g2=float(rng.uniform(8, 20)), p_dpe=float(rng.uniform(0, 0.4)),
                       elife_sigma=float(rng.uniform(-0.3, 0.3)), field=100.0)
            d = observe(c, names, m.key(cname, j), m.pick(40000, 100000), par)
            f = {k: np.asarray(v, float) for k, v in d.items()}
            for cs, n, g in (("cs1", f["num_photon"], par["g1"]), ("cs2", f["num_electron"], par["g2"])):
                # residuals of independent events around their own mean
                r = f[cs] - g * n
                p = 2 * stats.norm.sf(abs(r.mean()) / (r.std() / np.sqrt(len(r))))
                m.pvalue(p, f"mean of {cs} is the gain times the quanta", component=cname, got=float(f[cs].sum() / n.sum()), gain=g)
                m.check(abs(f[cs].sum() / (g * n.sum()) - 1) < 0.02, f"{cs} over quanta is the gain", component=cname,
                        got=float(f[cs].sum() / n.sum()), gain=g)
                # in slices of depth and radius, too
                for name, x in (("depth", f["z"]), ("radius", np.hypot(f["x"], f["y"])), ("x", f["x"])):
                    for lo, hi in zip(*[np.quantile(x, q) for q in ([0, 0.3, 0.7], [0.3, 0.7, 1.0])]):
                        k = (x >= lo) & (x <= hi)
                        p = 2 * stats.norm.sf(abs(r[k].mean()) / (r[k].std() / np.sqrt(k.sum())))
                        m.pvalue(p, f"mean of {cs} in a slice of {name}", component=cname)
            judge(m, d, component=cname)
            m.seen("perfect", (cname, j))


@case(repeat=(1, 3))
def yields_poisson(m):
    """NR quanta have the mean of the yields times the energy."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    for plug, y, o in (("NumberPhoton", "light_yield", "num_photon"), ("NumberElectron", "charge_yield", "num_electron")):
        inst = instance(plug)
        for j in range(m.pick(3, 8)):
            e, v = float(rng.uniform(0.3, 60)), float(rng.uniform(0, 12))
            if j % 3 == 0:
                # a few quanta, with a mean that is not an integer
                v = (int(rng.integers(0, 3)) + float(rng.uniform(0.25, 0.45))) / e
            x = shipped.run_plugin(inst, m.key(plug, j), {}, {"energy": np.full(N, e, np.float32), y: np.full(N, v, np.float32)})[1][o]
            z_mean(m, x, e * v, e * v, "mean of " + o, energy=e, yields=v)
            m.check((x >= 0) & (x == np.round(np.asarray(x, float))), o + " is a count")
            m.seen("yields", (plug, j))


# ------------------------------------------------------------------ other modes of the sampler


WORKER = """
import sys, json
sys.path[:0] = [sys.argv[1], sys.argv[2]]
from checks import c24
from lib import vh
m = vh.Monitor("C24", int(sys.argv[3]), sys.argv[4])
m.case_name = "worker"
out = {"violation": None}
try:
    for cname in sys.argv[6].split(","):
        for rough in (True,) if m.quick else (False, True):
            c24.drive(m, cname, rough, int(sys.argv[7]), 3000)
except vh.Violation as e:
    out["violation"] = [e.msg, vh.jsonable(e.data)]
out.update(evaluations=m.evaluations, counters=m.counters, distinct=sorted(map(repr, m.distinct)))
json.dump(out, open(sys.argv[5], "w"))
"""


def worker(m, mode, env, comps, n_par):
    path = toys.scratch("out.json")
    e = {**os.environ, **env}
    r = subprocess.run([sys.executable, "-B", "-c", WORKER, REPO, VERIF, str(m.seed), m.tier, path, ",".join(comps), str(n_par)],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode or not os.path.exists(path):
        m.fail("simulation failed in mode " + mode, output=r.stdout[-3000:])
    out = json.load(open(path))
    m.evaluations += out["evaluations"]
    for k, v in out["counters"].items():
        m.count(k, v)
    for k in out["distinct"]:
        m.seen(mode, k)
    if out["violation"]:
        m.fail(f"{out['violation'][0]} (mode {mode})", **{"mode": mode, "data": out["violation"][1]})


@case(repeat=(1, 1))
def hybrid(m):
    """The approximate sampler keeps the invariants."""
    worker(m, "hybrid", {"APPLETREE_USE_HYBRID": "1"}, ["NR"] if m.quick else COMPONENTS, m.pick(3, 10))


@case(tiers=("thorough",), repeat=(1, 1))
def double(m):
    """Double precision keeps the invariants."""
    worker(m, "x64", {"JAX_ENABLE_X64": "1"}, COMPONENTS, m.pick(3, 10))


assert Inconclusive
