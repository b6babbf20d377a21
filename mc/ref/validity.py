"""Validity-range model: which quantities the documentation restricts, and which computation checks which of them.

A rule is (label, formula, lo, hi, quantity).  quantity(env) returns the number compared with the range, or None when an input
it needs is not available.  Rules whose quantity is a plain input are compared exactly, derived ones not within 1e-9 of a bound.
"""
import math

from . import forces as F
from .phys import Undef, Delta, iribarren, isnan, stability_number, wave_steepness
from .runup import vangent2001_z1p
from .transmission import dangremond_raw

INF = math.inf


class Rule:
    def __init__(self, label, formula, lo, hi, fn, exact=False):
        self.label, self.formula, self.lo, self.hi, self.fn, self.exact = label, formula, lo, hi, fn, exact
        self.key = (label, formula)

    def value(self, env):
        try:
            v = self.fn(env)
        except (KeyError, Undef, ZeroDivisionError, OverflowError, ValueError, TypeError):
            return None
        return None if isnan(v) else v


class Env(dict):
    def __missing__(self, k):
        raise KeyError(k)

    def __getitem__(self, k):
        v = dict.get(self, k)
        if v is None or v != v:
            raise KeyError(k)
        return v


def plain(k):
    return lambda e: e[k]


def ratio(a, b):
    return lambda e: e[a] / e[b]


def steep(h, t):
    return lambda e: wave_steepness(e[h], e[t])


def ksi(h, t):
    return lambda e: iribarren(e[h], e[t], e["cot_alpha"])


def delta(rho):
    return lambda e: Delta(e[rho], e["rho_water"])


def ns(h, d, rho):
    return lambda e: stability_number(e[h], e[d], e[rho], e["rho_water"])


def R(formula, *rows):
    out = []
    for row in rows:
        label, lo, hi, q = row
        exact = isinstance(q, str)
        out.append(Rule(label, formula, lo, hi, plain(q) if exact else q, exact))
    return out


RULES = {
    "dr24": R("De Ridder et al. (2024)",
              ("Wave steepness sm-1,0", 0.001, 0.04, steep("Hm0", "Tmm10")),
              ("Short wave steepness sm-1,0_HF", 0.004, 0.047, steep("Hm0_HF", "Tmm10_HF")),
              ("Iribarren number Ksi_m-1,0", 0.05, 1.11, ksi("Hm0", "Tmm10")),
              ("Foreshore slope m", 0.01, 0.05, "m_foreshore_slope"),
              ("Rc/Hm0", 0.8, 3.72, ratio("Rc", "Hm0")),
              ("Dn50/Hm0", 0.12, 0.89, ratio("Dn50", "Hm0")),
              ("Hm0_LF/Hm0", 0.1, 0.81, ratio("Hm0_LF", "Hm0")),
              ("h/Hm0", 0.57, 4.95, ratio("h", "Hm0"))),
    "dr26": R("De Ridder et al. (2026)",
              ("Wave steepness sm-1,0", 0.003, 0.041, steep("Hm0", "Tmm10")),
              ("Short wave steepness sm-1,0_HF", 0.012, 0.049, steep("Hm0_HF", "Tmm10_HF")),
              ("Rc/Hm0", 0.98, 1.94, ratio("Rc", "Hm0")),
              ("Dn50/Hm0", 0.18, 0.35, ratio("Dn50", "Hm0")),
              ("Hm0_LF/Hm0", 0.15, 0.55, ratio("Hm0_LF", "Hm0")),
              ("h/Hm0", 1.41, 2.15, ratio("h", "Hm0")),
              ("theta", 0.0, 56.0, "theta")),
    "e18rm": R("EurOtop (2018) - rubble mound", ("Cotangent alpha", 4.0 / 3.0, 2.0, lambda e: e["cot_alpha"])),
    "taw_ot": R("TAW (2002)",
                ("Wave steepness sm-1,0", 0.0, 0.07, steep("Hm0", "Tmm10")),
                ("Iribarren number ksi_m-1,0", 0.0, 7.0, ksi("Hm0", "Tmm10")),
                ("gamma_b * ksi_m-1,0", 0.5, 10.0, lambda e: e["gamma_b"] * iribarren(e["Hm0"], e["Tmm10"], e["cot_alpha"])),
                ("Cotangent alpha lower slope", 1.0, 7.0, "cot_alpha_down"),
                ("Cotangent alpha upper slope", 1.0, 7.0, "cot_alpha_up"),
                ("Incident wave angle beta", 0.0, 90.0, "beta"),
                ("Influence factor berm gamma_b", 0.4, 1.0, "gamma_b"),
                ("Influence factor roughness gamma_f", 0.4, 1.0, "gamma_f"),
                ("Influence factor oblique waves gamma_beta", 0.4, 1.0, "gamma_beta"),
                ("Influence factor vertical wall gamma_v", 0.4, 1.0, "gamma_v")),
    "taw_ru": R("TAW (2002)",
                ("Influence factor for a berm gamma_b", 0.6, 1.0, lambda e: e["gamma_b"]),
                ("Influence factor for oblique wave incidence gamma_beta", 0.7, 1.0, lambda e: e["gamma_beta"]),
                ("Influence factor for surface roughness gamma_f", 0.5, 1.0, "gamma_f"),
                ("Wave steepness smm10", 0.001, 0.07, steep("Hm0", "Tmm10")),
                ("Iribarren number ksi_mm10", 0.4, 20.0, ksi("Hm0", "Tmm10"))),
    "vg21": R("Van Gent (2021)",
              ("Wave steepness sm-1,0", 0.015, 0.041, steep("Hm0", "Tmm10")),
              ("Dimensionless freeboard Rc/Hm0", 1.2, 2.9, ratio("Rc", "Hm0")),
              ("Dimensionless overtopping discharge q", 0.0, 0.0012, lambda e: e["q_diml"]),
              ("Incident wave angle beta", 0.0, 75.0, "beta")),
    "vg25": R("Van Gent et al. (2025)",
              ("Cotangent alpha slope", 1.5, 8.0, "cot_alpha"),
              ("Wave steepness sm-1,0", 0.001, 0.042, steep("Hm0", "Tmm10")),
              ("Iribarren number ksi_m-1,0", 0.05, 6.0, ksi("Hm0", "Tmm10")),
              ("Relative water depth h / Hm0", 0.6, 5.0, ratio("h", "Hm0")),
              ("Ratio Hm0_deep / h", 0.0, 1.0, ratio("Hm0_deep", "h")),
              ("Non-dimensional crest freeboard Rc / Hm0", 0.6, 5.0, ratio("Rc", "Hm0")),
              ("Non-dimensional stone diameter Dn50 / Hm0", 0.12, 0.9, ratio("Dn50", "Hm0")),
              ("Non-dimensional protruding part of crest wall (Rc - Ac) / Hm0", 0.0, 0.68,
               lambda e: (e["Rc"] - e["Ac"]) / e["Hm0"]),
              ("Non-dimensional armour width in front of crest wall Gc / Hm0", 0.6, 5.0, ratio("Gc", "Hm0")),
              ("Non-dimensional Berm width B / Hm0", 0.6, 5.0, ratio("B_berm", "Hm0")),
              ("Non-dimensional Berm height db / Hm0", -1.7, 0.5, ratio("db", "Hm0")),
              ("Incident wave angle beta", 0.0, 75.0, "beta")),
    "bri": R("Briganti (2003)", ("Wave steepness s0p", 0.005, 0.07, lambda e: e["s0p"]),
             ("Surf similarity parameter ksi_0p", 0.5, 10.0, lambda e: e["ksi_0p"])),
    "dan": R("D'Angremond et al. (1996)", ("Transmission coefficient Kt", 0.075, 0.8, lambda e: e["Kt"]),
             ("Wave steepness s0p (dataset limit)", 0, 0.06, lambda e: e["s0p"]),
             ("Relative water depth Hsi/h (dataset limit)", 0, 0.54, lambda e: e["Hsi_over_h"]),
             ("Relative crest level Rc/Hsi (dataset limit)", -2.5, 2.5, lambda e: e["Rc_over_Hsi"])),
    "vg23": R("Van Gent et al. (2023)",
              ("Dimensionless crest width B / Lm-1,0", 0.017, 0.27, lambda e: e["B"] / (9.81 * e["Tmm10"] ** 2 / (2 * math.pi))),
              ("Dimensionless crest width B / Hm0", 0.9, 10.6, ratio("B", "Hm0"))),
    "vg23p": R("Van Gent et al. (2023)", ("Dimensionless crest height Rc / Hm0", -2.5, 2.5, ratio("Rc", "Hm0"))),
    "vg23o": R("Van Gent et al. (2023)", ("Dimensionless crest height Rc / Hm0", -2.5, 0.0, ratio("Rc", "Hm0"))),
    "sui": R("Van Gent (2024)", ("Wave steepness sm-1,0", 0.01, 0.04, steep("Hm0", "Tmm10")),
             ("Dimensionless freeboard Rc/Hm0", -1.0, 0.0, ratio("Rc", "Hm0"))),
    "sup": R("Van Gent (2024)", ("Wave steepness sm-1,0", 0.008, 0.04, steep("Hm0", "Tmm10")),
             ("Dimensionless freeboard Rc/Hm0", -0.8, 0.0, ratio("Rc", "Hm0")),
             ("Dimensionless submerged structure height hc/Hm0", 1.5, 3.0, ratio("hc", "Hm0")),
             ("Dimensionless submerged structure crest width B/Hm0", 0.94, 2.35, ratio("B", "Hm0")),
             ("Dimensionless median stone diameter Dn50/Hm0", 0.19, 0.47, ratio("Dn50", "Hm0"))),
    "goda": R("Goda (2000)", ("Angle of wave incidence", 0.0, 90.0, "beta"), ("Seabed slope", 10.0, 100.0, "cota_seabed"),
              ("Wave period", 0.0, 30.0, "Tmax"), ("Centre of gravity inside of caisson", 0.0, 1.0, ratio("tup", "Bup")),
              ("Water depth at site", 0.0, INF, "h_s"), ("Width of toe berm", 0.0, INF, "B1"),
              ("Width of caisson upright section", 0.0, INF, "Bup")),
    "godai": R("Goda (2000)", ("Impulsive breaking condition 1", 0, 0, "_imp1"), ("Impulsive breaking condition 2", 0, 0, "_imp2")),
    "cw": R("Van Gent and Van der Werf 2019", ("(Rc-Ac)/Hm0", 0.26, 0.77, lambda e: (e["Rc"] - e["Ac"]) / e["Hm0"]),
            ("Rc/Ac", 1.27, 1.55, ratio("Rc", "Ac")), ("Rc/Hm0", 0.79, 2.18, ratio("Rc", "Hm0")),
            ("Fb/Hm0", 0.0, 0.62, ratio("Fb", "Hm0")), ("beta", 0.0, 75.0, "beta")),
    "cube2": R("Double layer cubes vander Meer 1988", ("Significant wave height Hs", 0.01, 20, lambda e: e["Hs"]),
               ("Number of waves N_waves", 0, 7500, "N_waves"), ("Wave period Tm", 0.5, 30, lambda e: e["Tm"]),
               ("Armour density rho_armour", 2000, 3100, "rho_armour"),
               ("Cotangent of outer structure slope cot_alpha", 1.5, 1.5, "cot_alpha"),
               ("Wave steepness using Tm and Hs", 0.005, 0.07, steep("Hs", "Tm"))),
    "ets20": R("Etemad-Shahidi et al., 2020", ("Wave steepness sm-1,0", 0.003, 0.088, steep("Hs", "Tmm10")),
               ("Iribarren number ksi_m-1,0", 0.65, 8.18, ksi("Hs", "Tmm10")),
               ("Cotangent of outer structure slope cot_alpha", 1.5, 6.0, "cot_alpha"),
               ("Number of waves N_waves", 500, 5000, "N_waves"),
               ("Buoyant density Delta", 0.92, 2.05, delta("rho_armour")), ("Permeability P", 0.1, 0.6, "P"),
               ("Relative core diameter Dn50_core / Dn50", 0.0, 1.0, ratio("Dn50_core", "Dn50")),
               ("Stability number Ns", 1.0, 4.3, ns("Hs", "Dn50", "rho_armour")),
               ("Damage number S", 2.0, 12.0, lambda e: e["S"])),
    "jum": R("Jumelet et al., 2024", ("Wave steepness sm-1,0", 0.009, 0.057, steep("Hs", "Tmm10")),
             ("Iribarren number ksi_m-1,0", 0.42, 1.66, ksi("Hs", "Tmm10")),
             ("Cotangent of outer structure slope cot_alpha", 6.0, 10.0, "cot_alpha"),
             ("Number of waves N_waves", 250, 20000, "N_waves")),
    "kb": R("Kramer & Burcharth, 2004", ("Relative crest height Rc / Dn50", -3.1, 1.5, ratio("Rc", "Dn50"))),
    "sca": R("Scaravaglione et al. (2025)", ("Notional permeability P", 0.37, 0.55, "P"),
             ("Stability number Ns", 1.47, 3.44, ns("Hm0", "Dn50", "rho_armour")),
             ("Wave steepness s_m-1,0", 0.02, 0.049, steep("Hm0", "Tmm10")),
             ("Iribarren number ksi_m-1,0", 1.3, 15.0, ksi("Hm0", "Tmm10")),
             ("Cotangent of outer structure slope cot_alpha", 2.0, 2.0, "cot_alpha"),
             ("Number of waves N_waves", 652, 4064, "N_waves"),
             ("Ratio core to armour Dn50_core / Dn50", 0.21, 0.71, ratio("Dn50_core", "Dn50"))),
    "vdm88": R("Van der Meer (1988)", ("Notional permeability P", 0.1, 0.6, "P"),
               ("Cotangent of outer structure slope cot_alpha", 1.1, 7.0, "cot_alpha"),
               ("Wave steepness s0p", 0.005, 0.06, steep("Hs", "Tp")),
               ("Number of waves N_waves", 0, 7500, "N_waves"), ("Ratio H2%/Hs", 1.1, 1.4, ratio("H2p", "Hs")),
               ("Density of armour layer rock rho_armour", 2000, 3100, "rho_armour")),
    "vdmm": R("Modified Van der Meer (Van Gent et al., 2003)", ("Notional permeability P", 0.1, 0.6, "P"),
              ("Stability number Ns", 0.5, 4.5, ns("Hs", "Dn50", "rho_armour")),
              ("Iribarren number ksi_m-1,0", 1.3, 15.0, ksi("Hs", "Tmm10")),
              ("Cotangent of outer structure slope cot_alpha", 2.0, 4.0, "cot_alpha"),
              ("Number of waves N_waves", 0, 3000, "N_waves"), ("Ratio H2%/Hs", 1.2, 1.4, ratio("H2p", "Hs"))),
    "re07": R("Van Gent (2007)", ("sm-1,0", 0.023, 0.054, steep("Hs", "Tmm10")), ("h/Hs", 3.3, 11.0, ratio("h", "Hs")),
              ("N_waves", 1000, 10000, "N_waves"), ("Rc/Hs", 0.5, 1.9, ratio("Rc", "Hs")), ("Rc/Dn50", 7.0, 22.0, ratio("Rc", "Dn50")),
              ("(z1% - Rc)/Hs", 0.2, 1.3, lambda e: (e["z1p"] - e["Rc"]) / e["Hs"]), ("Rc2,front/Hs", 0.0, 0.5, ratio("Rc2_front", "Hs")),
              ("B_element/Hs", 0.5, 1.5, ratio("B_element", "Hs")), ("Gc/Hs", 0.5, 1.1, ratio("Gc", "Hs")),
              ("Stability number Ns", 4.0, 12.0, lambda e: stability_number(e["Hs"], e["Dn50"], 2650.0, 1025.0)),
              ("Rc2,rear/Hs", 0.0, 1.3, ratio("Rc2_rear", "Hs")), ("S", 2.0, 100.0, lambda e: e["S"])),
    "rep": R("Van Gent & Pozueta (2004)", ("sm-1,0", 0.019, 0.036, steep("Hs", "Tmm10")), ("N_waves", 0, 4000, "N_waves"),
             ("Rc/Hs", 0.3, 2.0, ratio("Rc", "Hs")), ("Rc_rear/Hs", 0.3, 6.0, ratio("Rc_rear", "Hs")), ("B_c/Hs", 1.3, 1.6, ratio("Bc", "Hs")),
             ("(z1% - Rc)/(gamma_f*Hs)", 0.0, 1.4, lambda e: (e["z1p"] - e["Rc"]) / (e["gamma_f"] * e["Hs"])),
             ("Hs/(Delta*Dn50_rear)", 5.5, 8.5, ns("Hs", "Dn50", "rho_rock")), ("cot phi", 2.0, 4.0, "cot_phi"),
             ("S", 2.0, 50.0, lambda e: e["S"])),
    "ets21": R("Etemad-Shahidi et al. (2021)", ("Armour slope cot_alpha_armour_slope", 1.5, 2.0, "cot_alpha_armour_slope"),
               ("Wave steepness sm-1,0", 0.009, 0.061, steep("Hs", "Tmm10")),
               ("Relative water depth above the toe ht/h", 0.39, 0.88, ratio("ht", "h")),
               ("Relative water depth above the toe ht/Hs", 0.48, 2.58, ratio("ht", "Hs")),
               ("Relative water depth above the toe ht/Dn50", 1.97, 23.4, ratio("ht", "Dn50")),
               ("Relative toe width Bt/Hs", 0.17, 1.92, ratio("Bt", "Hs")), ("Relative water depth h/Hs", 1.22, 3.0, ratio("h", "Hs")),
               ("Stability number Ns", 1.58, 10.0, ns("Hs", "Dn50", "rho_armour")),
               ("Buoyant density Delta", 1.65, 1.75, delta("rho_armour")), ("Foreshore slope m", 0.02, 0.1, "m"),
               ("Damage parameter Nod", 0.5, 3.79, lambda e: e["Nod"])),
    "ger": R("Gerding (1993)", ("Relative toe height (h)", 0.4, 0.9, ratio("ht", "h")),
             ("Relative toe height (Dn50)", 3, 25, ratio("ht", "Dn50"))),
    "tak": R("Takahashi et al (1990)", ("Stability number Ns", 0, INF, lambda e: e["Ns"]), ("Toe width Bt", 0, INF, "Bt")),
    "vdm98": R("van der Meer (1998)", ("Wave height Hs", 0.01, 20, lambda e: e["Hs"]), ("Relative toe height (h)", 0.4, 0.9, ratio("ht", "h")),
               ("Relative toe height (Dn50)", 3, 25, ratio("ht", "Dn50")),
               ("Nod vs Ns", 2, INF, lambda e: e["Nod"] ** -0.15 * e["Hs"] / (e["Delta"] * e["Dn50"]))),
    "vgw": R("van Gent & van der Werf (2014)", ("Armour slope cot_alpha_armour_slope", 1.5, 4, "cot_alpha_armour_slope"),
             ("Armour slope cot_alpha_armour_slope, closer to 1:4 more inaccuracies are found", 1.5, 2, "cot_alpha_armour_slope"),
             ("Relative toe height tt/h", 0.1, 0.3, lambda e: e["tt"] / (e["ht"] + e["tt"])),
             ("Relative water depth h/Hs", 1.2, 4.5, lambda e: (e["ht"] + e["tt"]) / e["Hs"])),
}
for _k, _a, _b in (("acc2", "Accropode II Hudson 1959", "Accropode II documentation"), ("acc", "Accropodes Hudson 1959", "Accropode documentation"),
                   ("cl", "Core Loc Hudson 1959", "Core Loc documentation")):
    RULES[_k] = R(_a, ("Cotangent of the front-side slope of the structure", 1.33, 1.5, "cot_alpha")) + \
        R(_b, ("Seabed slope in percentage", 0, 10, "seabed_slope_perc"))


# ------------------------------------------------------------------ what each computation passes to its validity check
def _r(v):
    return v[0] if isinstance(v, tuple) else v


def _keep(names):
    names = names.split()
    return lambda st, v, aux: {n: st[n] for n in names if n in st}


def _dn(st):
    d = st.get("Dn50")
    if isnan(d):
        m = st.get("M50")
        if isnan(m):
            return None
        rho = st.get("rho_armour", st.get("rho_rock"))
        d = (m / (2650.0 if isnan(rho) else rho)) ** (1 / 3)
    return d


def _dnc(st):
    d = st.get("Dn50_core")
    if isnan(d) and not isnan(st.get("M50_core")):
        rho = st.get("rho_core")
        d = (st["M50_core"] / (2650.0 if isnan(rho) else rho)) ** (1 / 3)
    return d


def _dr(hname, lf, diml=False, theta=False, Rc=True):
    def f(st, v, aux):
        H = st[hname]
        e = dict(Hm0=H, Hm0_HF=H, Tmm10_HF=math.sqrt(2 * math.pi * H / st["smm10_HF"] / 9.81))
        e["Rc"] = st["Rc"] if "Rc" in st else (_r(v) * H if diml else _r(v))
        if lf:
            e["Hm0_LF"] = st["Hm0_LF"]
        if theta:
            e["theta"] = st.get("theta", 0.0)
        return e
    return f


def _taw(st, v, aux):
    e = {k: st[k] for k in ("Hm0", "Tmm10", "beta", "cot_alpha_down", "cot_alpha_up", "gamma_f", "gamma_v") if k in st}
    e.setdefault("gamma_f", 1.0)
    e.setdefault("gamma_v", 1.0)
    e.update(aux)
    return e


def _tawru(st, v, aux):
    e = {k: st[k] for k in ("Hm0", "Tmm10", "gamma_f") if k in st}
    e.update(aux)
    return e


def _vg21(diml):
    def f(st, v, aux):
        e = {k: st[k] for k in ("Hm0", "beta", "Rc") if k in st}
        if "Rc" in st:
            e["q_diml"] = v if diml else v / math.sqrt(st.get("g", 9.81) * st["Hm0"] ** 3)
        else:
            e["Rc"] = v * st["Hm0"] if diml else v
        return e
    return f


def _vg25(diml):
    def f(st, v, aux):
        e = {k: st[k] for k in ("Hm0", "Tmm10", "beta", "cot_alpha", "Dn50", "Ac", "B_berm", "db", "Rc") if k in st}
        e.setdefault("B_berm", 0.0)
        e.setdefault("db", 0.0)
        # the berm is only judged when there is one
        if "Rc" not in st:
            e["Rc"] = _r(v) * st["Hm0"] if diml else _r(v)
        return e
    return f


def _dan(c1):
    def f(st, v, aux):
        return dict(Kt=dangremond_raw(st["Hsi"], st["Tpi"], st["Rc"], st["B"], st["cot_alpha"], st.get("C1", c1)),
                    s0p=wave_steepness(st["Hsi"], st["Tpi"]), Hsi_over_h=st["Hsi"] / st["h"], Rc_over_Hsi=st["Rc"] / st["Hsi"])
    return f


def _bri(st, v, aux):
    return dict(s0p=wave_steepness(st["Hsi"], st["Tpi"]), ksi_0p=iribarren(st["Hsi"], st["Tpi"], st["cot_alpha"]))


def _imp(st):
    kw = {k: v for k, v in st.items() if k not in ("return_dict", "rho_fill_above_SWL", "rho_fill_below_SWL", "muf", "tup_over_Bup")}
    i = F.goda_pressures(**kw)["_imp"]
    return dict(_imp1=int(i == 1), _imp2=int(i == 2))


def _goda(st, v, aux):
    e = {k: st[k] for k in ("beta", "cota_seabed", "Tmax", "Bup", "h_s", "B1")}
    e["tup"] = st.get("tup_over_Bup", 0.5) * st["Bup"]
    e.update(_imp(st))
    return e


def _cube(st, v, aux):
    e = {k: st[k] for k in ("rho_armour", "N_waves", "cot_alpha")}
    e["Hs"] = st["Hs"] if "Hs" in st else _r(v)
    e["Tm"] = st["Tm"] if "Tm" in st else math.sqrt(e["Hs"] / st["s0m"] * 2 * math.pi / 9.81)
    return e


def _rock(names, h="Hs", rw=None, solved=None):
    """names passed on; h: wave height name; solved: which of them is the result"""
    names = names.split()

    def f(st, v, aux):
        e = {n: st[n] for n in names if n in st}
        if "Dn50" in names:
            e["Dn50"] = _dn(st)
        if "Dn50_core" in names:
            e["Dn50_core"] = _dnc(st)
        e["rho_water"] = st.get("rho_water", 1025.0) if rw is None else rw
        if solved:
            e[solved] = _r(v)
        return e
    return f


def _rear07(solved):
    def f(st, v, aux):
        e = {n: st[n] for n in ("S", "Hs", "Tmm10", "Rc", "Rc2_front", "Rc2_rear", "N_waves") if n in st}
        e["Dn50"] = _dn(st)
        e[solved] = _r(v)
        e["z1p"] = vangent2001_z1p(e["Hs"], st["Tmm10"], st["gamma"], st["cot_alpha"])
        return e
    return f


def _rearp(solved):
    def f(st, v, aux):
        e = {n: st[n] for n in ("S", "Hs", "Tmm10", "Rc", "Rc_rear", "cot_phi", "gamma_f", "Bc", "N_waves", "rho_rock") if n in st}
        e["rho_water"] = st.get("rho_water", 1025.0)
        e["Dn50"] = _dn(st)
        e[solved] = _r(v)
        e["z1p"] = vangent2001_z1p(e["Hs"], st["Tmm10"], st["gamma_f"], st["cot_alpha"])
        return e
    return f


def _toe(names, solved=None):
    names = names.split()

    def f(st, v, aux):
        e = {n: st[n] for n in names if n in st}
        e["rho_armour"] = st["rho_rock"]
        e["rho_water"] = st.get("rho_water", 1025.0)
        e["Delta"] = Delta(e["rho_armour"], e["rho_water"])
        if solved:
            e[solved] = _r(v)
        return e
    return f


def _vgw(st, v, aux):
    return dict(Hs=st["Hm0"], tt=st["tt"], ht=st["ht"], cot_alpha_armour_slope=st["cot_alpha_armour_slope"])


def _e18rm(st, v, aux):
    return dict(cot_alpha=aux["cot_alpha"])


def _cw(names):
    return _keep(names)


# entry id -> (rule groups, environment function, formulas whose warnings may also appear, with_aux)
USE = {}


def use(ids, groups, env, may=(), aux=False):
    for i in ids.split():
        USE[i] = (groups if isinstance(groups, tuple) else (groups,), env, tuple(may), aux)


use("ot_dr24_q24 ot_dr24_q24_diml ot_dr24_Rc24", "dr24", _dr("Hm0", False))
use("ot_dr24_Rc24_diml", "dr24", _dr("Hm0", False, diml=True))
use("ot_dr24_q26 ot_dr24_q26_diml ot_dr24_Rc26", "dr24", _dr("Hm0", True))
use("ot_dr26_q28 ot_dr26_q28_diml ot_dr26_Rc28", "dr26", _dr("Hm0", False, theta=True))
use("ot_dr26_Rc28_diml", "dr26", _dr("Hm0", False, diml=True))
use("ot_dr26_q32 ot_dr26_q32_diml ot_dr26_Rc32", "dr26", _dr("Hm0_HF", True, theta=True))
use("ot_taw_q ot_taw_q_diml ot_taw_Rc ot_taw_Rc_diml", "taw_ot", _taw, may=[r.key for r in RULES["taw_ru"]], aux=True)
use("ru_taw_z2p ru_taw_z2p_diml ru_eur_z2p ru_eur_z2p_diml", "taw_ru", _tawru, aux=True)
use("ot_e18rm_q ot_e18rm_q_diml ot_e18rm_Rc ot_e18rm_Rc_diml", "e18rm", _e18rm, may=[r.key for r in RULES["taw_ru"]], aux=True)
use("ot_vg21_q ot_vg21_Rc", "vg21", _vg21(False))
use("ot_vg21_q_diml ot_vg21_Rc_diml", "vg21", _vg21(True))
use("ot_vg25_q ot_vg25_Rc", "vg25", _vg25(False))
use("ot_vg25_q_diml ot_vg25_Rc_diml", "vg25", _vg25(True))
use("tr_dan_permeable", "dan", _dan(0.64))
use("tr_dan_impermeable", "dan", _dan(0.8))
use("tr_bri", "bri", _bri)
use("tr_vg23", ("vg23", "vg23p", "vg23o"), _keep("Hm0 Tmm10 Rc B"))
use("tr_su_imp tr_su_imp_diml", "sui", _keep("Hm0 Tmm10 Rc"))
use("tr_su_perm tr_su_perm_diml", "sup", _keep("Hm0 Tmm10 Rc hc"))
use("go_pf go_pf_dict", "godai", lambda st, v, aux: _imp(st))
use("go_fr go_fr_dict", ("goda", "godai"), _goda)
use("cw_fh cw_fhz", "cw", _cw("Hm0 Ac Rc"))
use("cw_fho", "cw", _cw("Hm0 Ac Rc beta"))
use("cw_fv", "cw", _cw("Hm0 Ac Fb"))
use("cw_fvo", "cw", _cw("Hm0 Ac Fb beta"))
for _i, _g in (("accropode2", "acc2"), ("accropode", "acc"), ("core_loc", "cl")):
    _f = (lambda st, v, aux: dict(cot_alpha=st["cot_alpha"]) if "cot_alpha" in st else dict(cot_alpha=1.33))
    use("cu_%s_M cu_%s_H" % (_i, _i), _g, _f)
    use("cu_%s_KD" % _i, _g, _keep("seabed_slope_perc"))
use("cu_cube2_Dn cu_cube2_H cu_cube2_Nod", "cube2", _cube)
_n = "Hs Tmm10 N_waves cot_alpha Dn50 Dn50_core S rho_armour"
use("rk_ets_S", "ets20", _rock(_n, solved="S"))
use("rk_ets_Dn", "ets20", _rock(_n, rw=1025.0, solved="Dn50"))
use("rk_ets_Hs", "ets20", _rock(_n, rw=1025.0, solved="Hs"))
_n = "Hs Tmm10 N_waves cot_alpha"
use("rk_jum_S rk_jum_Dn", "jum", _rock(_n))
use("rk_jum_Hs", "jum", _rock(_n, solved="Hs"))
use("rk_kb_Hs", "kb", _rock("Rc Dn50"))
use("rk_kb_Dn", "kb", _rock("Rc", solved="Dn50"))
use("rk_kb_Rc", "kb", _rock("Dn50", solved="Rc"))
_n = "Hm0 Tmm10 N_waves cot_alpha Dn50 Dn50_core rho_armour"
use("rk_sca_S", "sca", _rock(_n))
use("rk_sca_Dn", "sca", _rock(_n, solved="Dn50"))
use("rk_sca_H", "sca", _rock(_n, solved="Hm0"))
_n = "P Hs cot_alpha H2p rho_armour N_waves"
use("rk_vdm88_S rk_vdm88_Dn", "vdm88", _rock(_n))
use("rk_vdm88_Hs", "vdm88", _rock(_n, solved="Hs"))
_n = "Hs H2p Tmm10 N_waves cot_alpha P Dn50 rho_armour"
use("rk_vdmm_S", "vdmm", _rock(_n))
use("rk_vdmm_Dn", "vdmm", _rock(_n, solved="Dn50"))
use("rk_vdmm_Hs", "vdmm", _rock(_n, solved="Hs"))
_m = [r.key for r in RULES["vdmm"]]
_n = "P Hs cot_alpha rho_armour N_waves"
use("rk_vdm21_S rk_vdm21_Dn", "vdm88", _rock(_n), may=_m)
use("rk_vdm21_Hs", "vdm88", _rock(_n, solved="Hs"), may=_m)
use("re_vg07_S", "re07", _rear07("S"))
use("re_vg07_Dn", "re07", _rear07("Dn50"))
use("re_vg07_H", "re07", _rear07("Hs"))
use("re_vgp_S", "rep", _rearp("S"))
use("re_vgp_Dn", "rep", _rearp("Dn50"))
use("re_vgp_H", "rep", _rearp("Hs"))
_n = "Hs Tmm10 h ht Bt Dn50 m Nod"
use("to_ets_Nod", "ets21", _toe(_n, "Nod"))
use("to_ets_Dn", "ets21", _toe(_n, "Dn50"))
use("to_ets_H", "ets21", _toe(_n, "Hs"))
for _p in ("ger", "vdm"):
    _n = "ht h Dn50" if _p == "ger" else "Hs ht h Dn50 Nod"
    _g = "ger" if _p == "ger" else "vdm98"
    for _s, _o in (("Nod", "Nod"), ("Dn", "Dn50"), ("H", "Hs"), ("ht", "ht")):
        use("to_%s_%s" % (_p, _s), _g, _toe(_n, _o))
use("to_tak_Ns", "tak", lambda st, v, aux: dict(Ns=v, Bt=st["Bt"]))
use("to_tak_Dn", "tak", lambda st, v, aux: dict(Bt=st["Bt"]))
use("to_vgw_Nod to_vgw_Dn", "vgw", _vgw)


def may_for(eid, st):
    """announcements of the run-up formula that may appear next to those of the formula itself: only where run-up is iterated"""
    if not eid.startswith("ot_"):
        return USE[eid][2]
    gb, ca = st.get("gamma_b"), st.get("cot_alpha")
    if gb is not None and gb == gb and ca is not None and ca == ca:
        return ()
    return USE[eid][2]


def rules_for(eid, st):
    groups = USE[eid][0]
    out = []
    for g in groups:
        if g in ("vg23p", "vg23o") and (g == "vg23p") != (st.get("structure_type", "permeable") == "permeable"):
            continue
        out.extend(RULES[g])
    return out
