"""C25: energy, position and yield models follow their definition."""

import numpy as np
from scipy import stats

import appletree as apt
from appletree.share import set_global_config
from checks import c24
from lib import physics, shipped, stat, toys
from lib.vh import case

PROPERTY = "C25"
RULE = (
    "configured ranges, energies, spectra and sets of energies; formulas over energies from 0.05 to 300 keV, fields from 1 to 2000 V/cm and "
    "parameters around and far from the nominal ones, for single plugins and for the chains of the components; distinct by (plugin, setting)"
)
TECHNIQUE = "runtime monitoring: formulas in double precision and statistical tests of sampled models"
instance = c24.instance
z_mean = c24.z_mean
F = lambda v: np.asarray(v, np.float32)  # noqa


def run(inst, key, par, **data):
    return shipped.run_plugin(inst, key, par, data)[1]


def ks_uniform(m, x, lo, hi, what):
    x = np.asarray(x, float)
    eps = 1e-5 * max(abs(lo), abs(hi), 1e-3)
    m.check((x >= lo - eps) & (x <= hi + eps), what + ": range", lo=lo, hi=hi, got=[x.min(), x.max()])
    m.pvalue(stat.ks(x, stats.uniform(lo, hi - lo).cdf), what + ": uniform", lo=lo, hi=hi)


@case(repeat=(2, 10))
def energies(m):
    """Energies are distributed as configured, globally or for one likelihood."""
    rng = m.rng()
    N = m.pick(20000, 100000)
    for j in range(m.pick(3, 6)):
        lo = float(rng.uniform(0, 10))
        hi = lo + float(rng.uniform(0.5, 80))
        per = bool(rng.integers(2))
        w = (lambda v: {"shipped_llh": v, "other": -5.0}) if per else (lambda v: v)
        x = run(instance("UniformEnergySpectra", lower_energy=w(lo), upper_energy=w(hi)), m.key("u", j), {}, batch_size=N)["energy"]
        ks_uniform(m, x, lo, hi, "uniform energies")
        x = run(instance("UniformEnergiesSpectra", clip_lower_energy=w(lo), clip_upper_energy=w(hi)), m.key("v", j), {}, batch_size=N)["energy"]
        ks_uniform(m, x, lo, hi, "uniform energies of the yields")
        x = run(instance("MonoEnergySpectra", mono_energy=w(hi)), m.key("m", j), {}, batch_size=N)["energy"]
        m.close(x, np.full(N, hi), "single energy", rtol=1e-6)
        m.seen("energies", (j, per))
    # defaults
    x = run(instance("UniformEnergySpectra"), m.key("d"), {}, batch_size=N)["energy"]
    ks_uniform(m, x, 0.01, 20.0, "default uniform energies")
    x = run(instance("MonoEnergySpectra"), m.key("d"), {}, batch_size=N)["energy"]
    m.close(x, np.full(N, 2.82), "default single energy", rtol=1e-6)
    # energies of another draw differ, those of the same key do not
    inst = instance("UniformEnergySpectra")
    a, b, c = (run(inst, m.key(k), {}, batch_size=1000)["energy"] for k in (1, 1, 2))
    m.same(a, b, "same key, same energies")
    m.check(np.mean(a == c) < 0.1, "other key, other energies")


@case(repeat=(2, 8))
def spectrum(m):
    """Energies follow the spectrum file (a cumulative distribution)."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    from appletree.utils import get_file_path, load_json

    d = load_json(get_file_path("_nr_spectrum.json"))
    tables = [("default", np.array(d["coordinate_system"]), np.array(d["map"]), None)]
    for j in range(m.pick(2, 5)):
        k = int(rng.integers(3, 30))
        cdf = np.concatenate([[0.0], np.sort(rng.uniform(0, 1, k)), [1.0]])
        e = np.sort(rng.uniform(0.5, 60, k + 2))
        tables.append((f"file{j}", cdf, e, toys.point_map(cdf, e, coord="cdf")))
    for name, cdf, e, path in tables:
        inst = instance("FixedEnergySpectra", **({} if path is None else {"energy_spectrum": path}))
        x = np.asarray(run(inst, m.key(name), {}, batch_size=N)["energy"], float)
        m.check((x >= e[0] * (1 - 1e-5)) & (x <= e[-1] * (1 + 1e-5)), "energies within the spectrum", name=name)
        m.pvalue(stat.ks(x, lambda v: np.interp(v, e, cdf)), "energies follow the spectrum", name=name)
        m.seen("spectrum", name)


@case(repeat=(2, 8))
def sets(m):
    """Sets of measured energies: each one has its own asymmetric distribution."""
    rng = m.rng()
    N = m.pick(20000, 60000)
    for j in range(m.pick(2, 4)):
        k = int(rng.integers(1, 6))
        mu = np.sort(rng.uniform(0.8, 30, k))
        sp, sn = rng.uniform(0.02, 0.3, k) * mu, rng.uniform(0.02, 0.3, k) * mu
        if j == 0:
            mu[0], sn[0] = 0.3, 0.6  # reaches below zero energy
        cfg = [["mu", "sigma_pos", "sigma_neg"], [mu.tolist(), sp.tolist(), sn.tolist()]]
        if rng.random() < 0.5:
            cfg = [["sigma_neg", "mu", "sigma_pos"], [sn.tolist(), mu.tolist(), sp.tolist()]]
        inst = instance("MonoEnergiesSpectra", energy_twohalfnorm=cfg)
        d = run(inst, m.key(j), {}, batch_size=N)
        x = np.asarray(d["energy"], float)
        m.check(x.shape == (N, k), "one column per energy", shape=x.shape, k=k)
        m.check(np.isfinite(x) & (x >= 0), "energies are not negative")
        m.close(d["energy_center"], np.broadcast_to(mu, (N, k)), "central energies", rtol=1e-6)
        for i in range(k):
            pos = x[:, i][x[:, i] > 0]
            p0 = float(physics.two_half_norm_cdf(0.0, mu[i], sp[i], sn[i]))
            cdf = lambda v: (physics.two_half_norm_cdf(v, mu[i], sp[i], sn[i]) - p0) / (1 - p0)  # noqa
            m.pvalue(stat.ks(pos, cdf), "distribution of the energy", mu=mu[i], sp=sp[i], sn=sn[i])
            m.pvalue(stats.binomtest(int((x[:, i] <= 0).sum()), N, p0).pvalue, "energies clipped at zero", p0=p0)
        if k > 1:
            c = np.corrcoef(x.T)
            m.check(np.abs(c - np.eye(k)) < 6.5 / np.sqrt(N), "energies of a set are independent", corr=c)
        lo, hi = float(rng.uniform(0.5, 5)), float(rng.uniform(6, 25))
        inst = instance("MonoEnergiesClipEff", clip_lower_energy=lo, clip_upper_energy=hi)
        e = run(inst, m.key(j), {}, energy_center=F(np.broadcast_to(mu, (50, k))))["eff"]
        m.close(e, np.broadcast_to(((mu >= lo) & (mu <= hi)).astype(float), (50, k)), "only energies in the range count")
        m.seen("set", (j, k))
    # the smallest and the largest energy considered are considered
    inst = instance("MonoEnergiesClipEff", clip_lower_energy=1.5, clip_upper_energy=4.25)
    e = run(inst, m.key(), {}, energy_center=F([[1.5, 1.4999, 4.25, 4.2501, 3.0]]))["eff"]
    m.close(e, np.array([[1.0, 0.0, 1.0, 0.0, 1.0]]), "energies at the bounds of the range")
    inst = instance("BandEnergiesClipEff")
    m.close(run(inst, m.key(), {}, energy=F(rng.uniform(0, 5, 40)))["eff"], np.ones(40), "all energies of a band count")


@case(repeat=(2, 10))
def positions(m):
    """Positions are uniform in the configured cylinder."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    for j in range(m.pick(2, 5)):
        if j == 0:
            zlo, zhi, rmax = -133.97, -13.35, 60.0
            inst = instance("PositionSpectra")
        else:
            zlo = float(rng.uniform(-140, -80))
            zhi, rmax = float(rng.uniform(-70, -1)), float(rng.uniform(5, 66))
            inst = instance("PositionSpectra", z_min=zlo, z_max=zhi, r_max=rmax)
        d = {k: np.asarray(v, float) for k, v in run(inst, m.key(j), {}, batch_size=N).items()}
        x, y, z = d["x"], d["y"], d["z"]
        r2, th = x**2 + y**2, np.arctan2(y, x)
        ks_uniform(m, z, zlo, zhi, "depth")
        ks_uniform(m, r2, 0.0, rmax**2, "squared radius")
        ks_uniform(m, th, -np.pi, np.pi, "angle")
        u = [(z - zlo) / (zhi - zlo), r2 / rmax**2, (th + np.pi) / (2 * np.pi)]
        # independence of the three coordinates
        for a in range(3):
            for b in range(a):
                h = np.histogram2d(u[a], u[b], bins=5, range=[[0, 1], [0, 1]])[0]
                m.pvalue(stats.chi2_contingency(h).pvalue, "coordinates are independent", pair=(a, b))
        for c, nm in ((x, "x"), (y, "y")):
            m.pvalue(stat.moments(c, 0.0, rmax**2 / 4, kurt_excess=2.0)[0], "centered " + nm)
        m.seen("cylinder", j)


# ------------------------------------------------------------------ formulas


def jitter(rng, par, names, rel=0.3):
    out = dict(par)
    for k in names:
        out[k] = float(par[k] * (1 + rng.uniform(-rel, rel)))
    return out


def axes(rng, n):
    e = np.exp(rng.uniform(np.log(0.05), np.log(300), n))
    f = np.exp(rng.uniform(np.log(1.0), np.log(2000.0), n))
    return F(e), F(f), np.asarray(F(e), float), np.asarray(F(f), float)


@case(repeat=(3, 12))
def er_formulas(m):
    """Modified Thomas-Imel model and its fluctuation."""
    rng = m.rng()
    base = {k: float(v) for k, v in shipped.parameters("ERBand").items()}
    p = jitter(rng, base, ["w", "nex_ni_ratio", "py0", "py1", "py2", "py3", "py4", "rf0", "rf1"], 0.4)
    n = 1500
    e, f, e64, f64 = axes(rng, n)
    got = run(instance("mTI"), m.key(), p, energy=e, field=f)["recomb_mean"]
    m.close(got, physics.mti(p, e64, f64), "mean recombination", rtol=3e-4, atol=3e-5, parameters=p)
    # hardly any recombination: the series of the model takes over from the logarithm
    q = {**p, "py0": p["py0"] * 1e-2 * float(np.exp(rng.uniform(-1.5, 0.5))), "py1": 1e6, "py2": 0.0, "py3": -50.0}
    got = run(instance("mTI"), m.key(), q, energy=e, field=f)["recomb_mean"]
    want = physics.mti(q, e64, f64)
    m.check(np.any((want > 3e-3) & (want < 5e-3)) or m.iteration > 0, "harness: the series is reached")
    m.close(got, want, "mean recombination when it is small", rtol=4e-3, atol=1e-9, parameters=q)
    got = run(instance("RecombFluct"), m.key(), p, energy=e)["recomb_std"]
    m.close(got, physics.recomb_fluct(p, e64), "fluctuation of the recombination", rtol=1e-4, atol=1e-7)
    q = {**p, "rf0": 3.0}
    got = run(instance("RecombFluct"), m.key(), q, energy=e)["recomb_std"]
    m.close(got, physics.recomb_fluct(q, e64), "fluctuation is clipped at one", rtol=1e-4, atol=1e-7)
    q = {**p, "rf0": -0.3}
    got = run(instance("RecombFluct"), m.key(), q, energy=e)["recomb_std"]
    m.close(got, np.zeros(n), "fluctuation is clipped at zero")
    m.seen("er", m.iteration)


def rounded(mean, std):
    """Mean and variance of a normal variable rounded to the next count."""
    k = np.arange(0, int(mean + 12 * std + 5))
    upper = stats.norm.cdf((k + 0.5 - mean) / std)
    p = np.diff(np.concatenate([[0.0], upper]))  # everything below belongs to zero
    mu = float(np.sum(k * p))
    return mu, float(np.sum((k - mu) ** 2 * p))


@case(repeat=(2, 8))
def er_sampling(m):
    """Quanta, ions, recombination and electrons of the ER model."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    base = {k: float(v) for k, v in shipped.parameters("ERBand").items()}
    quanta, ion = instance("Quanta"), instance("IonizationER")
    rec, tr = instance("RecombinationER"), instance("TrueRecombER")
    for j in range(m.pick(4, 8)):
        p = jitter(rng, base, ["w", "fano", "nex_ni_ratio"], 0.3)
        e = float(rng.choice([0.05, 0.5, 3.0, 20.0, 100.0]))
        x = run(quanta, m.key("q", j), p, energy=np.full(N, e, np.float32))["num_quanta"]
        mu, sd = e / p["w"], np.sqrt(e / p["w"] * p["fano"])
        want, var = rounded(mu, sd)
        z_mean(m, x, want, var, "mean of the quanta", energy=e, parameters=p)
        if sd > 0.7:
            m.check(abs(np.var(np.asarray(x, float)) / var - 1) < 0.06, "variance of the quanta", got=float(np.var(x)), want=var)
        # few quanta that fluctuate wildly are still a count
        wild = dict(p, fano=float(rng.uniform(1.5, 4)))
        x = run(quanta, m.key("w", j), wild, energy=np.full(N, p["w"] * rng.uniform(0.5, 3), np.float32))["num_quanta"]
        m.check((np.asarray(x) >= 0) & (np.asarray(x) == np.round(np.asarray(x))), "number of quanta is a count", parameters=wild)
        nq = int(rng.choice([3, 50, 1500]))
        q = 1 / (1 + p["nex_ni_ratio"])
        x = run(ion, m.key("i", j), p, num_quanta=np.full(N, nq, np.int32))["num_ion"]
        z_mean(m, x, nq * q, nq * q * (1 - q), "mean of the ions", n=nq, q=q)
        mean, std = float(rng.uniform(0, 0.9)), float(rng.uniform(0.005, 0.3))
        x = run(tr, m.key("t", j), {}, recomb_mean=np.full(N, mean, np.float32), recomb_std=np.full(N, std, np.float32))["recomb"]
        # values beyond the physical range are clipped to its boundary
        x = np.asarray(x, float)
        ref = stats.norm(mean, std)
        lo, hi = ref.cdf(0), ref.sf(1)
        m.check((x >= 0) & (x <= 1), "recombination is a probability")
        inner = x[(x > 0) & (x < 1)]
        m.pvalue(stat.ks(inner, lambda v: (ref.cdf(v) - lo) / (1 - lo - hi)), "recombination fluctuates around its mean", mean=mean, std=std)
        for edge, p_edge in ((x <= 0, lo), (x >= 1, hi)):
            m.pvalue(stats.binomtest(int(edge.sum()), N, float(p_edge)).pvalue, "recombination at its boundary", mean=mean, std=std)
        r = float(rng.uniform(0.02, 0.95))
        ni = int(nq * 0.8) + 1
        d = run(rec, m.key("r", j), {}, num_quanta=np.full(N, nq, np.int32), num_ion=np.full(N, ni, np.int32), recomb=np.full(N, r, np.float32))
        z_mean(m, d["num_electron"], ni * (1 - r), ni * r * (1 - r), "electrons that do not recombine", ions=ni, r=r)
        m.check(d["num_photon"] + d["num_electron"] == nq, "all quanta")
        m.seen("sampling", (j, e, nq))


@case(repeat=(2, 8))
def nr_low(m):
    """Yields of the low energy NR model: the curve of the file scaled by its parameter."""
    rng = m.rng()
    for j in range(m.pick(3, 6)):
        k = int(rng.integers(3, 20))
        e = np.sort(rng.uniform(0.2, 60, k)) + np.arange(k) * 0.01
        for plug, cfg, out, t in (("LightYield", "ly_median", "light_yield", "t_ly"), ("ChargeYield", "qy_median", "charge_yield", "t_qy")):
            y = rng.uniform(0.5, 12, k)
            inst = instance(plug, **{cfg: toys.point_map(e, y)})
            q = rng.uniform(0.1, 70, 300).astype(np.float32)
            for v in (0.0, float(rng.uniform(-0.8, 0.8)), -1.5):
                got = run(inst, m.key(), {t: v, "t_ly": v if t == "t_ly" else 0.77, "t_qy": v if t == "t_qy" else 0.77}, energy=q)[out]
                m.close(got, np.maximum(np.interp(q.astype(float), e, y) * (1 + v), 0), out, rtol=2e-3, atol=1e-4, t=v)
            m.seen("curve", (plug, j))


@case(repeat=(3, 12))
def nr_formulas(m):
    """NESTv2 NR yields and their derived means."""
    rng = m.rng()
    base = shipped.merged_parameters(liquid_xe_density=2.8619)
    p = jitter(rng, base, ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota", "A", "xi", "omega",
                           "liquid_xe_density"], 0.2)
    if m.iteration % 2:
        p["delta"], p["beta"], p["xi"] = -p["delta"], 2 - p["beta"], -p["xi"]
    n = 1500
    e, f, e64, f64 = axes(rng, n)
    nq, qy, ly = physics.nr_yields(p, e64, f64)
    ti = physics.nr_thomas_imel(p, f64)
    m.close(run(instance("TotalQuanta"), m.key(), p, energy=e)["_Nq"], nq, "total quanta", rtol=5e-5)
    m.close(run(instance("ThomasImelBox"), m.key(), p, energy=e, field=f)["ThomasImel"], ti, "Thomas-Imel parameter", rtol=5e-5)
    g_qy = run(instance("QyNR"), m.key(), p, energy=e, ThomasImel=F(ti))["charge_yield"]
    m.close(g_qy, qy, "charge yield", rtol=1e-3, atol=1e-4)
    g_ly = run(instance("LyNR"), m.key(), p, energy=e, _Nq=F(nq), charge_yield=F(qy))["light_yield"]
    m.close(g_ly, ly, "light yield", rtol=1e-3, atol=1e-3)
    ok = ly > 0
    m.check((g_ly + g_qy)[ok] <= (nq / e64)[ok] * (1 + 1e-4), "yields are at most the total quanta")
    # zero energy of clipped energies
    z = run(instance("LyNR"), m.key(), p, energy=F([0.0, 1.0]), _Nq=F([0.0, 9.0]), charge_yield=F([0.0, 5.0]))["light_yield"]
    m.check(np.isfinite(z), "light yield is finite at zero energy", got=z)
    # mean photons and electrons, those below one quantum are not valid
    nph, ne = ly * e64, qy * e64
    d = run(instance("MeanNphNe"), m.key(), p, light_yield=F(ly), charge_yield=F(qy), energy=e)
    valid = nph + ne >= 1
    sure = np.abs(nph + ne - 1) > 1e-3
    m.close(d["_Nph"][sure], np.where(valid, nph, 0)[sure], "mean photons", rtol=1e-4, atol=1e-5)
    m.close(d["_Ne"][sure], np.where(valid, ne, 0)[sure], "mean electrons", rtol=1e-4, atol=1e-5)
    m.close(run(instance("MeanNphNeER"), m.key(), p, light_yield=F(ly), charge_yield=F(qy), energy=e)["_Nph"], nph, "mean photons of ER", rtol=1e-5)
    m.close(run(instance("MeanNphNeER"), m.key(), p, light_yield=F(ly), charge_yield=F(qy), energy=e)["_Ne"], ne, "mean electrons of ER", rtol=1e-5)
    # excitons and ions
    k = (e64 > 0.5) & (ne * ti < 60)
    t32, ph32, ne32 = F(ti[k]), F(nph[k]), F(ne[k])
    ref = physics.nr_means(t32.astype(float), ph32.astype(float), ne32.astype(float))
    d = run(instance("MeanExcitonIon"), m.key(), p, ThomasImel=t32, _Nph=ph32, _Ne=ne32)
    scale = ref["_Ni"] + ph32
    for kk in ("_Nex", "_Ni"):
        m.check(np.abs(d[kk] - ref[kk]) <= 2e-3 * scale + 2e-3, kk, worst=float(np.max(np.abs(d[kk] - ref[kk]) / scale)))
    for kk in ("elecFrac",):
        m.close(d[kk], ref[kk], kk, rtol=1e-4, atol=1e-5)
    big = (ref["_Ni"] > 2) & (ref["alf"] > 0) & (ref["alf"] < 1)
    for kk in ("alf", "recombProb", "nex_ni_ratio"):
        m.check(np.abs(d[kk] - ref[kk])[big] <= 0.01 * (1 + np.abs(ref[kk][big])), kk, worst=float(np.max(np.abs(d[kk] - ref[kk])[big], initial=0)))
    # no quanta at all
    d = run(instance("MeanExcitonIon"), m.key(), p, ThomasImel=F([0.04]), _Nph=F([0.0]), _Ne=F([0.0]))
    m.check([np.isfinite(v).all() for v in d.values()], "finite without quanta", got=d)
    # fluctuation
    frac, r, ni = rng.uniform(0.01, 1, n), rng.uniform(0, 1, n), rng.integers(0, 5000, n)
    w, var = physics.nr_omega(p, frac, r, ni.astype(float))
    d = run(instance("OmegaNR"), m.key(), p, elecFrac=F(frac), recombProb=F(r), Ni=ni.astype(np.int32))
    m.close(d["omega"], w, "recombination fluctuation", rtol=1e-3, atol=1e-7)
    m.close(d["Variance"], var, "variance of the recombination", rtol=2e-3, atol=1e-3)
    m.seen("nr", m.iteration)


@case(repeat=(3, 12))
def er_nest_formulas(m):
    """NESTv2 ER yields, Fano factor and fluctuation."""
    rng = m.rng()
    base = {k: float(v) for k, v in shipped.parameters("ERBandNestV2").items()}
    p = jitter(rng, base, ["m1", "m2", "m3", "m4", "m7", "m8", "m9", "m10", "w", "liquid_xe_density", "A_er", "xi_er", "omega_er",
                           "alpha3_er"], 0.1)
    n = 1500
    e, f, e64, f64 = axes(rng, n)
    ratio = physics.er_ratio(p, e64)
    d = run(instance("ExcitonIonRatioER"), m.key(), p, energy=e)
    m.close(d["nex_ni_ratio"], ratio, "exciton to ion ratio", rtol=1e-4)
    m.close(d["alf"], 1 / (1 + ratio), "fraction of ions", rtol=1e-5)
    qy = physics.er_charge_yield(p, e64, ratio, f64)
    g = run(instance("QyER"), m.key(), p, energy=e, nex_ni_ratio=F(ratio), field=f)["charge_yield"]
    m.close(g, qy, "charge yield", rtol=1e-3, atol=2e-3, parameters=p)
    ly = run(instance("LyER"), m.key(), p, charge_yield=F(qy))["light_yield"]
    m.close(ly, np.maximum(1 / p["w"] - qy, 0), "light yield", rtol=1e-3, atol=1e-4)
    ok = qy < 1 / p["w"]
    m.close((ly + F(qy))[ok], np.full(int(ok.sum()), 1 / p["w"]), "yields add up to the inverse work function", rtol=1e-5)
    m.check(ly >= 0, "light yield is not negative")
    z = run(instance("LyER"), m.key(), p, charge_yield=F([2 / p["w"]]))["light_yield"]
    m.close(z, [0.0], "light yield is clipped at zero")
    # recombination
    nph, ne = rng.uniform(0.1, 500, n), rng.uniform(0.1, 500, n)
    r = rng.uniform(0, 0.3, n)
    d = run(instance("MeanExcitonIonER"), m.key(), p, nex_ni_ratio=F(r), _Nph=F(nph), _Ne=F(ne))
    m.close(d["elecFrac"], ne / (nph + ne), "fraction of electrons", rtol=1e-5)
    m.close(d["recombProb"], np.maximum(1 - (1 + r) * ne / (nph + ne), 0), "mean recombination", rtol=1e-4, atol=2e-6)
    # Fano factor
    for delta in (float(rng.uniform(0.1, 2)), -float(rng.uniform(0.0005, 0.003)), 1.0, -0.0015):
        q = {**p, "delta_f": delta}
        g = run(instance("FanoFactorER"), m.key(), q, _Nph=F(nph), _Ne=F(ne), field=f)["fano_nq"]
        m.close(g, physics.er_fano(q, nph, ne, f64), "Fano factor", rtol=1e-4, atol=1e-6, delta_f=delta)
    # fluctuation
    frac, rp, ni = rng.uniform(0.01, 1, n), rng.uniform(0, 1, n), rng.integers(0, 5000, n)
    w, var = physics.er_omega(p, frac, rp, ni.astype(float), f64)
    d = run(instance("OmegaER"), m.key(), p, elecFrac=F(frac), recombProb=F(rp), Ni=ni.astype(np.int32), _Ne=F(ne), _Nph=F(nph), field=f)
    m.close(d["omega"], w, "recombination fluctuation", rtol=2e-3, atol=1e-6)
    m.close(d["Variance"], var, "variance of the recombination", rtol=5e-3, atol=1e-3)
    m.seen("er nest", m.iteration)


@case(repeat=(2, 8))
def nest_sampling(m):
    """Ions, excitons and electrons of the NESTv2 models around their means."""
    rng = m.rng()
    N = m.pick(40000, 200000)
    full = lambda v: np.full(N, v, np.float32)  # noqa
    inst = {k: instance(k) for k in ("TrueExcitonIonNR", "TruePhotonElectronNR", "TrueExcitonIonER", "TruePhotonElectronER")}
    for j in range(m.pick(3, 8)):
        nph, ne, ratio = float(rng.uniform(30, 800)), float(rng.uniform(30, 400)), float(rng.uniform(0.3, 1.2))
        alf = 1 / (1 + ratio)
        p = {"fano_ni": float(rng.uniform(0.1, 1)), "fano_nex": float(rng.uniform(0.1, 1)), "alpha2": float(rng.choice([2.25, -1.5, 0.0, 6.0]))}
        d = run(inst["TrueExcitonIonNR"], m.key("a", j), p, _Nph=full(nph), _Ne=full(ne), nex_ni_ratio=full(ratio), alf=full(alf))
        tot = nph + ne
        for k, q, fano in (("Ni", alf, p["fano_ni"]), ("Nex", ratio * alf, p["fano_nex"])):
            z_mean(m, d[k], tot * q, fano * tot * q + 1 / 12, "mean of " + k, total=tot, q=q)
            m.check(abs(np.var(np.asarray(d[k], float)) / (fano * tot * q + 1 / 12) - 1) < 0.06, "variance of " + k)
        m.check(d["Ni"] + d["Nex"] == d["Nq"], "all quanta")
        m.check(abs(np.corrcoef(d["Ni"], d["Nex"])[0, 1]) < 0.05, "ions and excitons fluctuate independently in NR")
        # electrons: mean, variance and skewness
        r, ni = float(rng.uniform(0.3, 0.7)), int(rng.integers(300, 2000))
        w = float(rng.uniform(0.01, 0.04))
        var = r * (1 - r) * ni + (w * ni) ** 2
        I = np.full(N, ni, np.int32)  # noqa
        d = run(inst["TruePhotonElectronNR"], m.key("b", j), p, recombProb=full(r), Variance=full(var), Ni=I, Nex=I // 2, Nq=I + I // 2)
        x = np.asarray(d["num_electron"], float)
        z_mean(m, x, (1 - r) * ni, var + 1 / 12, "mean of NR electrons", r=r, ni=ni, alpha2=p["alpha2"])
        m.check(abs(np.var(x) / (var + 1 / 12) - 1) < 0.06, "variance of NR electrons", got=float(np.var(x)), want=var)
        a = p["alpha2"]
        skew = float(stats.skewnorm(a).stats("s"))
        m.check(abs(stats.skew(x) - skew) < 0.12, "skewness of NR electrons", got=float(stats.skew(x)), want=skew)
        m.check(d["num_photon"] == I + I // 2 - d["num_electron"], "all quanta")
        # ER
        fano = float(rng.uniform(0.05, 2))
        d = run(inst["TrueExcitonIonER"], m.key("c", j), {}, _Nph=full(nph), _Ne=full(ne), fano_nq=full(fano), alf=full(alf))
        z_mean(m, d["Nq"], tot, fano * tot + 1 / 12, "mean of ER quanta", total=tot, fano=fano)
        m.check(abs(np.var(np.asarray(d["Nq"], float)) / (fano * tot + 1 / 12) - 1) < 0.06, "variance of ER quanta")
        v = alf * (1 - alf) * tot + alf**2 * (fano * tot + 1 / 12)
        z_mean(m, d["Ni"], tot * alf, v, "mean of ER ions")
        m.check(abs(np.var(np.asarray(d["Ni"], float)) / v - 1) < 0.06, "variance of ER ions")
        m.check(d["Ni"] + d["Nex"] == d["Nq"], "all quanta")
        d = run(inst["TruePhotonElectronER"], m.key("d", j), {}, recombProb=full(r), Variance=full(var), Ni=I, Nq=I + I // 5)
        x = np.asarray(d["num_electron"], float)
        z_mean(m, x, (1 - r) * ni, var + 1 / 12, "mean of ER electrons", r=r, ni=ni)
        m.check(abs(np.var(x) / (var + 1 / 12) - 1) < 0.06, "variance of ER electrons", got=float(np.var(x)), want=var)
        m.check(abs(stats.skew(x)) < 0.12, "ER electrons are symmetric")
        m.check(d["num_photon"] == I + I // 5 - d["num_electron"], "all quanta")
        m.seen("nest sampling", j)


# ------------------------------------------------------------------ chains


@case(repeat=(1, 4))
def chains(m):
    """In the components, every quantity is the formula of the same event."""
    rng = m.rng()
    for cname in ("ERBand", "ERBandNestV2", "VerifNRNest"):
        apt.clear_cache()
        # the field varies with the position
        field = rng.uniform(20, 400, (4, 4))
        cfg = {"efield_position_dependence": 1, "efield_map": toys.regbin_map([0, -148.65], [66.4, 0], field, names=["r", "z"])}
        if cname == "VerifNRNest":
            cfg.update(clip_lower_energy=2.0, clip_upper_energy=60.0)
        else:
            cfg.update(lower_energy=1.0, upper_energy=120.0)
        set_global_config(cfg)
        c, names = c24.build(cname)
        kind, par = next(iter(c24.par_sets(rng, cname, 1)))
        d = c24.observe(c, names, m.key(cname), m.pick(4000, 20000), par)
        f = {k: np.asarray(v, float) for k, v in d.items()}
        e, fl = f["energy"], f["field"]
        m.check(np.ptp(fl) > 50, "field varies", spread=np.ptp(fl))
        z2 = lambda got, mean, var, what: m.pvalue(  # noqa
            2 * stats.norm.sf(abs(np.sum(got - mean) / np.sqrt(np.sum(var)))), what, component=cname,
            got=float(np.sum(got)), want=float(np.sum(mean)))
        if cname == "ERBand":
            m.close(f["recomb_mean"], physics.mti(par, e, fl), "mean recombination of the event", rtol=1e-3, atol=3e-5)
            m.close(f["recomb_std"], physics.recomb_fluct(par, e), "fluctuation of the event", rtol=1e-3, atol=1e-6)
            z2(f["num_quanta"], e / par["w"], e / par["w"] * par["fano"] + 1 / 12, "quanta of the events")
            q = 1 / (1 + par["nex_ni_ratio"])
            z2(f["num_ion"], f["num_quanta"] * q, f["num_quanta"] * q * (1 - q), "ions of the events")
            z2(f["num_electron"], f["num_ion"] * (1 - f["recomb"]), f["num_ion"] * f["recomb"] * (1 - f["recomb"]), "electrons of the events")
            dr = (f["recomb"] - f["recomb_mean"]) / f["recomb_std"]
            inside = (f["recomb_mean"] > 5 * f["recomb_std"]) & (f["recomb_mean"] < 1 - 5 * f["recomb_std"])
            m.pvalue(stat.ks(dr[inside], stats.norm.cdf), "recombination of the events", n=int(inside.sum()))
        elif cname == "ERBandNestV2":
            ratio = physics.er_ratio(par, e)
            qy = physics.er_charge_yield(par, e, ratio, fl)
            m.close(f["charge_yield"], qy, "charge yield of the event", rtol=2e-3, atol=5e-3)
            m.close(f["light_yield"], np.maximum(1 / par["w"] - qy, 0), "light yield of the event", rtol=2e-3, atol=1e-2)
            m.close(f["_Ne"], f["charge_yield"] * e, "mean electrons of the event", rtol=1e-4)
            m.close(f["_Nph"], f["light_yield"] * e, "mean photons of the event", rtol=1e-4, atol=1e-4)
            m.close(f["fano_nq"], physics.er_fano(par, f["_Nph"], f["_Ne"], fl), "Fano factor of the event", rtol=1e-3)
            frac = f["_Ne"] / (f["_Ne"] + f["_Nph"])
            m.close(f["recombProb"], np.maximum(1 - (1 + ratio) * frac, 0), "recombination of the event", rtol=2e-3, atol=1e-4)
            w, v = physics.er_omega(par, frac, f["recombProb"], f["Ni"], fl)
            m.close(f["omega"], w, "fluctuation of the event", rtol=1e-2, atol=1e-5)
            m.close(f["Variance"], v, "variance of the event", rtol=2e-2, atol=1e-2)
            tot = f["_Nph"] + f["_Ne"]
            z2(f["Nq"], tot, f["fano_nq"] * tot + 1 / 12, "quanta of the events")
            z2(f["Ni"], f["Nq"] * f["alf"], f["Nq"] * f["alf"] * (1 - f["alf"]), "ions of the events")
            k = (1 - f["recombProb"]) * f["Ni"] > 6 * np.sqrt(f["Variance"])
            k &= f["recombProb"] * f["Ni"] > 6 * np.sqrt(f["Variance"])
            z2(f["num_electron"][k], ((1 - f["recombProb"]) * f["Ni"])[k], (f["Variance"] + 1 / 12)[k], "electrons of the events")
        else:
            nq, qy, ly = physics.nr_yields(par, e, fl)
            m.close(f["charge_yield"], qy, "charge yield of the event", rtol=2e-3, atol=1e-3)
            m.close(f["light_yield"], ly, "light yield of the event", rtol=3e-3, atol=5e-3)
            ref = physics.nr_means(physics.nr_thomas_imel(par, fl), f["_Nph"], f["_Ne"])
            for kk in ("nex_ni_ratio", "alf", "elecFrac", "recombProb"):
                m.check(np.abs(f[kk] - ref[kk]) < 0.01 * (1 + np.abs(ref[kk])), kk + " of the event", worst=float(np.max(np.abs(f[kk] - ref[kk]))))
            w, v = physics.nr_omega(par, f["elecFrac"], f["recombProb"], f["Ni"])
            m.close(f["omega"], w, "fluctuation of the event", rtol=1e-2, atol=1e-5)
            m.close(f["Variance"], v, "variance of the event", rtol=2e-2, atol=1e-2)
            tot = f["_Nph"] + f["_Ne"]
            k = tot * (1 - f["alf"]) > 30
            z2(f["Ni"][k], (tot * f["alf"])[k], (par["fano_ni"] * tot * f["alf"] + 1 / 12)[k], "ions of the events")
            z2(f["Nex"][k], (tot * (1 - f["alf"]))[k], (par["fano_nex"] * tot * (1 - f["alf"]) + 1 / 12)[k], "excitons of the events")
        m.seen("chain", cname)


@case(repeat=(1, 4))
def yields_components(m):
    """Components that only predict yields."""
    rng = m.rng()
    par0 = shipped.merged_parameters(liquid_xe_density=2.8619, field=80.0, ly_lux_2016_field=80.0)
    par0 = jitter(rng, par0, ["alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta", "iota"], 0.1)
    for cname in ("MonoEnergiesYields", "BandEnergiesYields"):
        apt.clear_cache()
        mu, s = [1.0, 4.0, 9.0], [0.1, 0.3, 0.5]
        set_global_config({"clip_lower_energy": 2.0, "clip_upper_energy": 8.0} if cname[0] == "M" else {"clip_lower_energy": 2.0, "clip_upper_energy": 50.0})
        if cname[0] == "M":
            set_global_config({"energy_twohalfnorm": [["mu", "sigma_pos", "sigma_neg"], [mu, s, s]]})
        c = shipped.build(cname, ["energy", "light_yield", "charge_yield", "eff"], compile=True)
        # sets of energies are simulated once per evaluation
        draws = [c.simulate(m.key(cname, i), 1 if cname[0] == "M" else 3000, par0)[1] for i in range(200 if cname[0] == "M" else 1)]
        e, ly, qy, eff = [np.concatenate([np.asarray(d[i], float) for d in draws]) for i in range(4)]
        m.check(e.shape == ((200, 3) if cname[0] == "M" else (3000,)), "shape of the energies", shape=e.shape)
        nq, wq, wl = physics.nr_yields(par0, e, 80.0)
        m.close(qy, wq, "charge yield", rtol=2e-3, atol=1e-3, component=cname)
        m.close(ly, wl, "light yield", rtol=3e-3, atol=5e-3, component=cname)
        m.check((ly + qy) <= (nq / e) * (1 + 1e-3), "yields are at most the total quanta")
        if cname[0] == "M":
            m.close(eff, np.broadcast_to([0.0, 1.0, 0.0], eff.shape), "energies in the range")
            m.close(e.mean(axis=0), mu, "energies of the set", rtol=0.05)
        else:
            m.close(eff, np.ones_like(e), "all energies count")
            ks_uniform(m, e, 2.0, 50.0, "energies of the band")
        m.seen("yields", cname)
