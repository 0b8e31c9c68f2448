"""Shipped components with valid parameters."""

import json
import os

import appletree as apt
from appletree.utils import get_file_path

FILES = {
    "ERBand": "er.json", "ERPeak": "er.json", "NR": "nr_low.json",
    "ERBandNestV2": "er_nestv2.json", "ERPeakNestV2": "er_nestv2.json",
    "MonoEnergiesYields": "nestv2_yield_only.json", "BandEnergiesYields": "nestv2_yield_only.json",
}


def par_config(cname):
    with open(get_file_path(FILES[cname])) as f:
        return json.load(f)


def parameters(cname, **update):
    """Central values of the shipped parameters."""
    par = {}
    for k, v in par_config(cname).items():
        par[k] = v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"]
    for k in ("field", "ly_lux_2016_field"):
        if k in par:
            par["field"] = par[k]
    par.setdefault("field", 180.0)
    for k in ("s1_eff_3f_sigma", "s1_cut_acc_sigma", "s2_cut_acc_sigma"):
        par.setdefault(k, 0.0)
    par.update(update)
    return par


def build(cname, data_names, llh_name="shipped_llh", name="shipped", func_name="simulate", rate_name="",
          compile=True, force_no_eff=False, **kwargs):
    c = getattr(apt.components, cname)(name=name, llh_name=llh_name, **kwargs)
    c.rate_name = rate_name
    c.deduce(data_names=data_names, func_name=func_name, force_no_eff=force_no_eff)
    if compile:
        c.compile()
    return c


assert os


# ---------------------------------------------------------------- single plugins


def nr_nest_cls(add=True):
    """A full NR component of the NESTv2 plugins (the repository only ships its yields)."""
    from lib import toys

    p = apt.plugins
    names = [
        "UniformEnergiesSpectra", "PositionSpectra", "TotalQuanta", "ThomasImelBox", "QyNR", "LyNR", "MeanNphNe",
        "MeanExcitonIon", "TrueExcitonIonNR", "OmegaNR", "TruePhotonElectronNR",
        "EField", "S1LCE", "S2LCE", "PhotonDetection", "S1PE", "DriftLoss", "ElectronDrifted", "S2PE",
        "PositionRecon", "S1", "S2", "S1Correction", "S2Correction", "cS1", "cS2",
        "S2Threshold", "S1ReconEff", "S1CutAccept", "S2CutAccept", "Eff",
    ]
    return toys.component_cls("VerifNRNest", [getattr(p, n) for n in names], add=add)


def all_plugins():
    """Name -> class of every shipped plugin."""
    base = apt.plugin.Plugin
    return {
        k: v for k, v in sorted(vars(apt.plugins).items())
        if isinstance(v, type) and issubclass(v, base) and v is not base and v.__module__.startswith("appletree.plugins")
    }


def merged_parameters(**update):
    """Central values of every parameter of the shipped files."""
    par = {}
    for f in ("nr_low.json", "er_nestv2.json", "nestv2.json", "er_rn220_ar37.json", "er.json"):
        with open(get_file_path(f)) as fp:
            for k, v in json.load(fp).items():
                par[k] = v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"]
    par.update(update)
    return par


def plugin_inputs(rng, n):
    """Consistent inputs of the shipped plugins by data name."""
    import numpy as np

    e = rng.uniform(0.5, 30.0, n)
    r = 60 * np.sqrt(rng.uniform(0, 1, n))
    th = rng.uniform(0, 2 * np.pi, n)
    nq = rng.integers(30, 2000, n)
    ni = rng.binomial(nq, 0.8)
    ne = rng.binomial(ni, 0.6)
    ned = rng.binomial(ne, 0.8)
    phd = rng.binomial(nq - ne, 0.12)
    pe = phd + rng.binomial(phd, 0.2)
    s2pe = rng.poisson(ned * 30.0)
    f = lambda a: np.asarray(a, np.float32)  # noqa
    i = lambda a: np.asarray(a, np.int32)  # noqa
    x, y, z = r * np.cos(th), r * np.sin(th), rng.uniform(-133, -14, n)
    rx, ry = x + rng.normal(0, 0.5, n), y + rng.normal(0, 0.5, n)
    nph = (nq - ne).astype(float)
    ratio = rng.uniform(0.05, 0.3, n)
    elec = ne / nq
    return dict(
        batch_size=n, energy=f(e), energy_center=f(e), x=f(x), y=f(y), z=f(z),
        rec_x=f(rx), rec_y=f(ry), rec_z=f(z), rec_r=f(np.hypot(rx, ry)),
        field=f(rng.uniform(10, 200, n)), num_quanta=i(nq), num_ion=i(ni), recomb_mean=f(rng.uniform(0.1, 0.7, n)),
        recomb_std=f(rng.uniform(0.01, 0.1, n)), recomb=f(rng.uniform(0, 1, n)), num_photon=i(nq - ne),
        num_electron=i(ne), s1_lce=f(rng.uniform(0.6, 1.4, n)), s2_lce=f(rng.uniform(0.7, 1.2, n)),
        num_s1_phd=i(phd), num_s1_pe=i(pe), drift_survive_prob=f(rng.uniform(0.6, 1, n)),
        num_electron_drifted=i(ned), num_s2_pe=f(s2pe), s1_area=f(pe * 1.02), s2_area=f(s2pe * 1.01),
        s1_correction=f(rng.uniform(0.6, 1.4, n)), s2_correction=f(rng.uniform(0.7, 1.2, n)),
        cs1=f(pe * 1.0), cs2=f(s2pe * 1.0), acc_s2_threshold=i(rng.integers(0, 2, n)).astype(np.float32),
        acc_s1_recon_eff=f(rng.uniform(0, 1, n)), cut_acc_s1=f(rng.uniform(0, 1, n)),
        cut_acc_s2=f(rng.uniform(0, 1, n)), eff=f(rng.uniform(0, 1, n)),
        light_yield=f(nph / e), charge_yield=f(ne / e), _Nq=f(nq), ThomasImel=f(rng.uniform(0.02, 0.06, n)),
        _Nph=f(nph), _Ne=f(ne), _Nex=f(nq - ni), _Ni=f(ni), nex_ni_ratio=f(ratio), alf=f(1 / (1 + ratio)),
        elecFrac=f(elec), recombProb=f(np.clip(1 - (ratio + 1) * elec, 0.01, 1)), Ni=i(ni), Nex=i(nq - ni), Nq=i(nq),
        omega=f(rng.uniform(0.01, 0.1, n)), Variance=f(0.2 * ni + 0.0025 * ni.astype(float) ** 2),
        fano_nq=f(rng.uniform(0.1, 1, n)),
    )


def run_plugin(inst, key, parameters, data):
    """(key, {output name: array}) of one plugin instance."""
    import numpy as np

    key, *out = inst.simulate(key, parameters, *[data[d] for d in inst.depends_on])
    return key, dict(zip(inst.provides, map(np.asarray, out)))
