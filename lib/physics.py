"""Published formulas in double precision.

NR: NEST v2.3.7, ER: NEST v2.4.0 (as parameterized in arXiv:2211.10726), modified Thomas-Imel model of arXiv:1902.11297.
"""

import numpy as np
from scipy import special, stats


def mti(p, energy, field):
    ni = energy / p["w"] / (1 + p["nex_ni_ratio"])
    ti = ni * p["py0"] * np.exp(-energy / p["py1"]) * field ** p["py2"] / 4
    fermi = special.expit((energy - p["py3"]) / p["py4"])
    with np.errstate(all="ignore"):
        r = np.where(ti < 1e-4, ti / 2 - ti**2 / 3 + ti**3 / 4, 1 - np.log1p(ti) / ti)
    return r * fermi


def recomb_fluct(p, energy):
    return np.clip(p["rf0"] * (1 - np.exp(-energy / p["rf1"])), 0, 1)


def nr_thomas_imel(p, field):
    return p["gamma"] * field ** p["delta"] * (p["liquid_xe_density"] / 2.9) ** 0.3


def nr_yields(p, energy, field):
    """(total quanta, charge yield, light yield)"""
    nq = p["alpha"] * energy ** p["beta"]
    ti = nr_thomas_imel(p, field)
    qy = 1 / (ti * np.sqrt(energy + p["epsilon"])) * (1 - 1 / (1 + (energy / p["zeta"]) ** p["eta"]))
    qy = np.maximum(qy, 0)
    ly = (nq / energy - qy) * (1 - 1 / (1 + (energy / p["theta"]) ** p["iota"]))
    ly = np.maximum(ly, 0)
    return nq, qy, ly


def nr_means(ti, nph, ne):
    ni = 4 / ti * np.expm1(ne * ti / 4)
    nex = nph + ne - ni
    ratio = np.where(ni > 0, nex / np.where(ni > 0, ni, 1), 1.0)
    tot = nph + ne
    frac = np.where(tot > 0, ne / np.where(tot > 0, tot, 1), 0.0)
    return dict(_Nex=nex, _Ni=ni, nex_ni_ratio=ratio, alf=1 / (1 + ratio), elecFrac=frac, recombProb=1 - (1 + ratio) * frac)


def nr_omega(p, frac, r, ni):
    w = p["A"] * np.exp(-0.5 * ((frac - p["xi"]) / p["omega"]) ** 2)
    return w, r * (1 - r) * ni + (w * ni) ** 2


def er_ratio(p, energy):
    return (0.067366 + 0.039693 * p["liquid_xe_density"]) * special.erf(0.05 * energy)


def er_charge_yield(p, energy, ratio, field):
    m1 = 30.66 + (p["m1"] - 30.66) / (1 + (field / 73.855) ** 2.0318) ** 0.41883
    m2 = p["m2"]
    m3 = p["m3"] + 0.13946236 * np.log10(field)
    m4 = 1.82217496 + (p["m4"] - 1.82217496) / (1 + (field / 144.65029656) ** -2.80532006)
    m5 = 1 / p["w"] / (1 + ratio) - m1
    m7 = 7.02921301 + (p["m7"] - 7.02921301) / (1 + (field / 256.48156448) ** 1.29119251)
    m10 = 0.0508273937 + (p["m10"] - 0.0508273937) / (1 + (field / 139.260460) ** -0.65763592)
    # the density corrections of NEST cancel at its reference density
    qy = m1 + (m2 - m1) / (1 + (energy / m3) ** m4) ** p["m9"] + m5 - m5 / (1 + (energy / m7) ** p["m8"]) ** m10
    return np.maximum(qy, 0)


def er_fano(p, nph, ne, field):
    d = p["delta_f"]
    if d > 0:
        return np.full(np.shape(ne), d)
    rho = p["liquid_xe_density"]
    c = 0.12707 - 0.029623 * rho - 0.0057042 * rho**2 + 0.0015957 * rho**3
    if d == 0:
        return np.full(np.shape(ne), 0.5 * c)
    return c - d * np.sqrt((nph + ne) * field)


def er_omega(p, frac, r, ni, field):
    with np.errstate(all="ignore"):
        ampl = 0.086036 + (p["A_er"] - 0.086036) * np.exp(-0.0069114 * np.logaddexp(0, 251.6 * np.log(field / 295.2)))
    a, c, s = p["alpha3_er"], p["xi_er"], p["omega_er"]

    def shape(x):
        return np.exp(-0.5 * ((x - c) / s) ** 2) * (1 + special.erf(a * (x - c) / (s * np.sqrt(2))))

    mode = c + np.sqrt(2 / np.pi) * a * s / np.sqrt(1 + a**2)
    w = np.maximum(ampl * shape(frac) / shape(mode), 0)
    return w, r * (1 - r) * ni + (w * ni) ** 2


def truncnorm(mean, std, lo, hi):
    return stats.truncnorm((lo - mean) / std, (hi - mean) / std, loc=mean, scale=std)


def two_half_norm_cdf(x, mu, sp, sn):
    x = np.asarray(x, float)
    w = sn / (sp + sn)
    return np.where(x < mu, 2 * w * stats.norm.cdf((x - mu) / sn), w + (1 - w) * (2 * stats.norm.cdf((x - mu) / sp) - 1))
