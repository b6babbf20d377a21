"""Catalogue: every public computation of the toolbox with its model and bounded input lattice."""
import itertools

from .ref import concrete as C, forces as F, overtop as O, phys as P, rear as RR, rock as K, runup as R, toe as T, \
    transmission as X

NAN = float("nan")

# default coarse levels by input name (an entry may override)
V = {
    "Hm0": [0.05, 0.6, 1, 2.0, 3.5, 6.0, 12.0], "Hs": [0.05, 0.6, 1, 2.0, 3.5, 6.0, 12.0],
    "H": [0.05, 0.6, 1, 2.0, 3.5, 6.0, 12.0], "Hsi": [0.05, 0.6, 1, 2.0, 3.5, 6.0, 12.0],
    "Hm0_HF": [0.05, 0.6, 1, 2.0, 3.5, 6.0, 12.0], "Hm0_LF": [0.0, 0.2, 1.0, 2.5],
    "Hm0_swell": [0.0, 0.3, 1.0, 2.5],
    "Tmm10": [1.2, 4.0, 6, 9.0, 13.0, 20.0], "Tm": [1.2, 4.0, 6, 9.0, 13.0, 20.0], "T": [1.2, 4.0, 6, 9.0, 13.0, 20.0],
    "Tpi": [1.2, 4.0, 6, 9.0, 13.0, 20.0], "Tp": [1.2, 4.0, 6, 9.0, 13.0, 20.0], "Tmax": [1.2, 4.0, 7.5, 11, 16.0, 25.0],
    "Rc": [0.0, 0.5, 1.5, 3.0, 6, 12.0], "q": [1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.5],
    "cot_alpha": [1.0, 1.5, 2, 3.0, 4.0, 6.0, 8.0],
    "cot_alpha_down": [1.0, 2.0, 3, 4.5, 7.0], "cot_alpha_up": [1.0, 2.0, 3, 4.5, 7.0],
    "beta": [-90.0, -35.0, 0.0, 20, 45.0, 80.0, 85.0], "gamma_beta": [0.5, 0.75, 0.9, 1.0],
    "gamma_b": [0.6, 0.75, 0.9, 1.0], "gamma_f": [0.35, 0.45, 0.55, 0.6, 0.75, 1.0], "gamma_v": [0.65, 0.8, 1.0],
    "gamma_star": [0.7, 0.9, 1.0], "gamma": [0.35, 0.5, 0.75, 1.0], "gamma_f_Crest": [0.35, 0.6, 1.0],
    "B_berm": [0.0, 2.0, 6.0, 15.0], "db": [-6.0, -1.5, -0.5, 0.0, 0.75, 2.0, 5.0],
    "sigma": [-2.5, -1, 0, 1, 2.5], "g": [9.81, 9.0, 1.62, 12.0], "Ac": [0.8, 2.0, 3.0, 6.0], "Gc": [1.0, 3.0],
    "Dn50": [0.04, 0.5, 1.0, 1.5, 2.5], "M50": [0.2, 300.0, 3000.0, 12000.0], "Dn50_core": [0.01, 0.2, 0.6, 1.2],
    "M50_core": [5.0, 60.0, 600.0], "rho_armour": [1900.0, 2400.0, 2650, 3100.0],
    "rho_rock": [1900.0, 2400.0, 2650, 3100.0], "rho_core": [2000.0, 2650.0, 2900.0],
    "rho_water": [1000, 1025.0, 1060.0], "KD": [2.0, 4, 8.0, 16.0], "alpha_Hs": [1.0, 1.27, 1.4],
    "N_waves": [200, 1000, 2500.0, 5000, 5200, 7500, 12000], "P": [0.1, 0.25, 0.4, 0.6], "S": [0.5, 2.0, 5, 10.0, 20.0],
    "Nod": [0.1, 0.5, 1.0, 2, 4.0], "m": [0.0, 0.02, 0.05, 0.1], "M": [100.0, 2500.0, 10000, 40000.0],
    "V": [0.1, 1.0, 4, 15.0], "total_correction_factor": [1.0, 1.25, 2.0, 3.75],
    "h": [1.5, 4.0, 8, 15.0, 40.0], "ht": [0.4, 1.0, 2.5, 5.0, 8.0], "Bt": [0.5, 2.0, 5, 12.0], "tt": [0.3, 1.0, 2.0, 4.0],
    "B": [0.5, 2.0, 5, 12.0, 45.0, 150.0], "hc": [0.5, 2.0, 4.0, 8.0], "smm10": [0.002, 0.012, 0.02, 0.04, 0.06],
    "smm10_HF": [0.002, 0.01, 0.02, 0.04, 0.06], "theta": [-50.0, 0.0, 20, 45.0, 75.0],
    "z2p": [0.2, 1.5, 3.5, 7.0, 14.0], "zXp": [0.2, 1.5, 3.5, 7.0, 14.0], "Bc": [0.0, 3.0, 8.0], "cot_phi": [1.0, 2.0, 3.0, 4.0],
    "use_best_fit": [False, True], "Hwall": [0.5, 2.0, 6.0], "Bwall": [0.5, 4.0, 10.0], "Fb": [0.0, 0.5, 1.5, 2.5],
    "cFH": [0.8, 1.0], "cFV": [0.3, 0.4], "cFb": [0.5, 1.0], "c0": [1.2, 1.45], "h_s": [3.0, 8, 12.0, 25.0],
    "s0m": [0.005, 0.02, 0.035, 0.055],
    "c1": [], "c2": [], "c3": [], "c4": [],
}

# length exponents under Froude scaling (time scales with 1/2, mass with 3, forces per metre with 2)
DIM = {n: 1.0 for n in ("Hm0 Hs H Hsi HD H2p Hm0_HF Hm0_LF Hm0_swell Rc Ac Gc B B_berm db Dn50 Dn50_core Dn D h ht hc Bt "
                        "tt z2p zXp Bc Hwall Bwall Fb h_s d B1 hacc Bup tup Rc2_front Rc2_rear Rc_rear L BL L_berm").split()}
DIM.update({n: 0.5 for n in "Tmm10 Tm T Tpi Tp Tmax".split()})
DIM.update({"q": 1.5, "M50": 3.0, "M50_core": 3.0, "M": 3.0, "V": 3.0, "FH": 2.0, "FU": 2.0, "Wup": 2.0, "MH": 3.0, "MU": 3.0,
            "FH2p": 2.0, "FV2p": 2.0})


class Entry:
    def __init__(self, id, group, mod, fn, ref, bases, out, main=True, levels=None, iterative=0.0, cfg=None, drop=()):
        self.id, self.group, self.mod, self.fn, self.ref = id, group, mod, fn, ref
        self.out, self.main, self.iterative = out, main, iterative
        if cfg:
            names = list(cfg)
            bases = [dict(b, **dict(zip(names, vals))) for b in bases
                     for vals in itertools.product(*[cfg[n] for n in names])]
        self.bases = bases
        names = []
        for b in bases:
            for n in b:
                if n not in names:
                    names.append(n)
        lv = {}
        for n in names:
            if n in drop or (cfg and n in cfg):
                continue
            src = (levels or {}).get(n, V.get(n))
            if src is None:
                raise KeyError("%s: no levels for %s" % (id, n))
            if src:
                lv[n] = list(src)
        for n in (levels or {}):
            if isinstance(n, tuple):
                lv[n] = list(levels[n])
        self.levels = lv


ENTRIES = []
BY_ID = {}


def E(id, group, mod, fn, ref, bases, out=0.0, **kw):
    e = Entry(id, group, mod, fn, ref, bases, out, **kw)
    assert id not in BY_ID, id
    ENTRIES.append(e)
    BY_ID[id] = e
    return e


def alt(c):
    """coefficient levels: default, a larger and a smaller value"""
    return [c, round(c * 1.13, 6), round(c * 0.81, 6)]


# =========================================================================== run-up ==========
RU = "hydraulic.wave_runup."
OV = "hydraulic.wave_overtopping."
TR = "hydraulic.wave_transmission."
CO = "structural.stability_concrete_armour."
RK = "structural.stability_rock_armour."
RE = "structural.stability_rock_rear."
TO = "structural.stability_toe_berm."

_bf = {"use_best_fit": [False, True]}


def slope_bases(extra, coefs=None):
    """single slope; single slope with berm; composite slope; composite with berm and given factors"""
    c = coefs or {}
    return [
        dict(Hm0=2.0, Tmm10=6.0, beta=0.0, gamma_f=1.0, cot_alpha=3.0, **extra, **c),
        dict(Hm0=1.0, Tmm10=9.0, gamma_beta=0.9, gamma_f=0.55, cot_alpha=2.0, gamma_b=0.8, **extra),
        dict(Hm0=2.0, Tmm10=5.0, beta=30.0, gamma_f=0.75, cot_alpha=4.0, B_berm=6.0, db=0.75, **extra),
        dict(Hm0=2.0, Tmm10=6.5, beta=20.0, gamma_f=0.9, cot_alpha_down=4.0, cot_alpha_up=3.0, B_berm=0.0, db=0.0, **extra),
        dict(Hm0=1.5, Tmm10=5.0, beta=10.0, gamma_f=0.6, cot_alpha_down=3.0, cot_alpha_up=2.5, B_berm=5.0, db=-0.5, **extra),
        dict(Hm0=2.5, Tmm10=8.0, gamma_beta=0.85, gamma_f=0.5, cot_alpha_down=2.0, cot_alpha_up=3.5, B_berm=8.0, db=1.0,
             gamma_b=0.85, **extra),
    ]


_c = dict(c1=1.75, c2=4.3, c3=1.6, c4=1.0)
_ce = dict(c1=1.75, c2=4.3, c3=1.5, c4=1.07)
_cl = lambda d: {k: alt(v) for k, v in d.items()}
E("ru_taw_z2p", "runup", RU + "taw2002", "calculate_wave_runup_height_z2p", R.taw2002_z2p, slope_bases({}, _c), out=(1.0, 0),
  levels=_cl(_c), cfg=_bf, iterative=1e-4)
E("ru_taw_z2p_diml", "runup", RU + "taw2002", "calculate_dimensionless_wave_runup_height_z2p", R.taw2002_z2p_diml,
  slope_bases({}, _c), out=(0, 0), levels=_cl(_c), cfg=_bf, iterative=1e-4)
E("ru_eur_z2p", "runup", RU + "eurotop2018", "calculate_wave_runup_height_z2p", R.eurotop2018_z2p, slope_bases({}, _ce),
  out=(1.0, 0), levels=_cl(_ce), cfg=_bf, iterative=1e-4)
E("ru_eur_z2p_diml", "runup", RU + "eurotop2018", "calculate_dimensionless_wave_runup_height_z2p", R.eurotop2018_z2p_diml,
  slope_bases({}, _ce), out=(0, 0), levels=_cl(_ce), cfg=_bf, iterative=1e-4)
E("ru_taw_gbeta", "runup", RU + "taw2002", "calculate_influence_oblique_waves_gamma_beta",
  lambda beta, c_gamma_beta=0.0022, max_angle=80.0: R.gamma_beta_linear(beta, c_gamma_beta, max_angle),
  [dict(beta=0.0), dict(beta=20.0, c_gamma_beta=0.0033, max_angle=80.0)], main=False,
  levels={"beta": [-100, -80.0, -45.0, 0.0, 10, 45.0, 79.9, 80.0, 90.0], "c_gamma_beta": [0.0022, 0.0033],
          "max_angle": [60.0, 80.0]})
E("ru_eur_gbeta", "runup", RU + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta",
  lambda beta, gamma_f, **k: R.gamma_beta_eurotop(beta, gamma_f, k.get("c_gamma_beta_smooth", .0022),
                                                  k.get("c_gamma_beta_rough", .0063), k.get("gamma_f_crit", .6),
                                                  k.get("max_angle", 80.0)),
  [dict(beta=20.0, gamma_f=1.0), dict(beta=20.0, gamma_f=0.5, gamma_f_crit=0.6),
   dict(beta=20.0, gamma_f=0.55, c_gamma_beta_smooth=0.0022, c_gamma_beta_rough=0.0063, max_angle=80.0)], main=False,
  levels={"c_gamma_beta_smooth": alt(0.0022), "c_gamma_beta_rough": alt(0.0063), "max_angle": [60.0, 80.0], "gamma_f_crit": [0.5, 0.6], "beta": [-100, -80.0, -45.0, 0.0, 10, 45.0, 79.9, 80.0, 90.0]})
E("ru_taw_gf", "runup", RU + "taw2002", "calculate_adjusted_influence_roughness_gamma_f",
  lambda gamma_f, gamma_b, ksi_mm10: R.gamma_f_adjusted(gamma_f, gamma_b, ksi_mm10),
  [dict(gamma_f=0.55, gamma_b=1.0, ksi_mm10=3.0)], main=False, levels={"ksi_mm10": [0.5, 1.8, 2.0, 3.0, 6.0, 10.0, 12.0]})
E("ru_taw_gb", "runup", RU + "taw2002", "calculate_influence_berm_gamma_b",
  lambda Hm0, z2p, db, B_berm, L_berm: R.gamma_b_formula(Hm0, z2p, db, B_berm, L_berm),
  [dict(Hm0=2.0, z2p=3.5, db=0.5, B_berm=5.0, L_berm=20.0)], main=False, levels={"L_berm": [8.0, 20.0, 60.0]})
E("ru_taw_berm", "runup", RU + "taw2002", "calculate_berm_length",
  lambda Hm0, B_berm, cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN: R.berm_length(Hm0, B_berm, cot_alpha,
                                                                                        cot_alpha_down, cot_alpha_up),
  [dict(Hm0=2.0, B_berm=5.0, cot_alpha=3.0), dict(Hm0=2.0, B_berm=5.0, cot_alpha_down=3.0, cot_alpha_up=2.0)], out=1.0,
  main=False)
E("ru_taw_slope", "runup", RU + "taw2002", "determine_average_slope",
  lambda Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db: R.average_slope(Hm0, z2p, cot_alpha_down, cot_alpha_up, db),
  [dict(Hm0=2.0, z2p=3.5, cot_alpha_down=3.0, cot_alpha_up=2.0, B_berm=5.0, db=0.5)], main=False)
for _n, _r in (("z1p", R.vangent2001_z1p), ("z10p", R.vangent2001_z10p)):
    E("ru_vg_" + _n, "runup", RU + "vangent2001", "calculate_wave_runup_height_" + _n, _r,
      [dict(Hs=2.0, Tmm10=7.0, gamma=0.5, cot_alpha=2.0, c0=1.45, c1=5.1), dict(Hs=1.0, Tmm10=4.0, gamma=1.0, cot_alpha=6.0)],
      out=1.0, levels={"c1": [4.4, 5.1]})
E("ru_vg_z2p", "runup", RU + "vangent2001", "calculate_wave_runup_height_z2p", R.vangent2001_z2p,
  [dict(Hs=2.0, Tmm10=7.0, gamma=0.5, cot_alpha=2.0), dict(Hm0=1.0, Tmm10=4.0, gamma=1.0, cot_alpha=6.0),
   dict(Hs=1.0, Tmm10=9.0, gamma=1.0, cot_alpha=3.0, c0=1.45, c1=5.1), dict(Hs=1.0, Hm0=1.1, Tmm10=9.0, gamma=1.0, cot_alpha=3.0),
   dict(Tmm10=9.0, gamma=1.0, cot_alpha=3.0)],
  out=1.0, levels={"c1": [4.4, 5.1], "Hs": V["Hs"] + [NAN], "Hm0": V["Hm0"] + [NAN]})
E("ru_vg_zX", "runup", RU + "vangent2001", "calculate_wave_runup_height_zXp", R.vangent2001_zX,
  [dict(H=2.0, Tmm10=7.0, gamma=0.5, cot_alpha=2.0, c0=1.45, c1=5.1)], out=1.0, levels={"c1": [4.0, 5.1]}, main=False)

# ====================================================================== overtopping: TAW, EurOtop ==
_q, _R = dict(Rc=3.0), dict(q=1e-3)
E("ot_taw_q", "ot_taw", OV + "taw2002", "calculate_overtopping_discharge_q", O.taw2002_q,
  slope_bases(dict(Rc=3.0, gamma_v=1.0, sigma=0), dict(g=9.81)), out=(1.5, 0), cfg=_bf, iterative=1e-4)
E("ot_taw_q_diml", "ot_taw", OV + "taw2002", "calculate_dimensionless_overtopping_discharge_q", O.taw2002_q_diml,
  slope_bases(dict(Rc=3.0, gamma_v=1.0, sigma=0)), out=(0, 0), cfg=_bf, iterative=1e-4)
E("ot_taw_Rc", "ot_taw", OV + "taw2002", "calculate_crest_freeboard_Rc", O.taw2002_Rc,
  slope_bases(dict(q=1e-3, gamma_v=1.0, sigma=0), dict(g=9.81)), out=(1.0, 0), cfg=_bf, iterative=1e-4)
E("ot_taw_Rc_diml", "ot_taw", OV + "taw2002", "calculate_dimensionless_crest_freeboard", O.taw2002_Rc_diml,
  slope_bases(dict(q=1e-3, gamma_v=1.0, sigma=0), dict(g=9.81)), out=(0, 0), cfg=_bf, iterative=1e-4)
E("ot_taw_gbeta", "ot_taw", OV + "taw2002", "calculate_influence_oblique_waves_gamma_beta",
  lambda beta, c_gamma_beta=0.0033, max_angle=80.0: R.gamma_beta_linear(beta, c_gamma_beta, max_angle),
  [dict(beta=0.0), dict(beta=20.0, c_gamma_beta=0.0033, max_angle=80.0)], main=False,
  levels={"beta": [-100, -80.0, -45.0, 0.0, 10, 45.0, 79.9, 80.0, 90.0], "c_gamma_beta": [0.0022, 0.0033],
          "max_angle": [60.0, 80.0]})
E("ot_taw_gv", "ot_taw", OV + "taw2002", "calculate_influence_crest_wall_gamma_v", O.taw2002_gamma_v,
  [dict(alpha_wall_deg=60.0)], main=False, levels={"alpha_wall_deg": [0.0, 20.0, 45, 45.5, 60.0, 90.0]})
_mx = dict(Hm0=2.0, gamma_beta=0.9, gamma_f=0.6, c3=2.6)
_lx = {"c2": alt(0.2), "c3": [2.3, 2.6], "cor3": [0.0, 0.35]}
E("ot_taw_qmax", "ot_taw", OV + "taw2002", "q_diml_max_equation", O.taw_qmax,
  [dict(_mx, Rc=3.0), dict(_mx, Rc=3.0, cor3=0.0, c2=0.2)], levels=_lx, main=False)
E("ot_taw_Rcmax", "ot_taw", OV + "taw2002", "Rc_diml_max_equation", O.taw_Rcmax,
  [dict(_mx, q=1e-3), dict(_mx, q=1e-3, cor3=0.0, c2=0.2, g=9.81)], levels=_lx, main=False)
_rm = [dict(Hm0=2.0, Tmm10=7.0, beta=0.0, gamma_f=0.45, cot_alpha=2.0), dict(Hm0=1.0, Tmm10=4.0, gamma_beta=0.9, gamma_f=1.0,
                                                                          cot_alpha=4.0)]
_c7 = dict(c2=0.2, c3=2.3)
E("ot_e07_q", "ot_eur", OV + "eurotop2007", "calculate_overtopping_discharge_q_rubble_mound", O.eurotop2007_q,
  [dict(b, Rc=3.0, g=9.81, **_c7) for b in _rm], out=1.5, cfg=_bf, levels=_cl(_c7))
E("ot_e07_q_diml", "ot_eur", OV + "eurotop2007", "calculate_dimensionless_overtopping_discharge_q_rubble_mound",
  O.eurotop2007_q_diml, [dict(b, Rc=3.0, **_c7) for b in _rm], cfg=_bf, levels=_cl(_c7))
E("ot_e07_Rc", "ot_eur", OV + "eurotop2007", "calculate_crest_freeboard_Rc_rubble_mound", O.eurotop2007_Rc,
  [dict(b, q=1e-3, **_c7) for b in _rm], out=1.0, cfg=_bf, levels=_cl(_c7))
E("ot_e07_Rc_diml", "ot_eur", OV + "eurotop2007", "calculate_dimensionless_crest_freeboard_rubble_mound",
  O.eurotop2007_Rc_diml, [dict(b, q=1e-3, **_c7) for b in _rm], cfg=_bf, levels=_cl(_c7))
_c8 = dict(c1=2.5, c2=0.1035, c3=1.35, c4=0.026)
E("ot_e18_q", "ot_eur", OV + "eurotop2018", "calculate_overtopping_discharge_q", O.eurotop2018_q,
  slope_bases(dict(Rc=3.0, gamma_v=1.0, gamma_star=1.0), dict(_c8, g=9.81)), out=(1.5, 0), cfg=_bf, levels=_cl(_c8),
  iterative=1e-4)
E("ot_e18_q_diml", "ot_eur", OV + "eurotop2018", "calculate_dimensionless_overtopping_discharge_q", O.eurotop2018_q_diml,
  slope_bases(dict(Rc=3.0, gamma_v=1.0, gamma_star=1.0), _c8), out=(0, 0), cfg=_bf, levels=_cl(_c8), iterative=1e-4)
E("ot_e18_Rc", "ot_eur", OV + "eurotop2018", "calculate_crest_freeboard_Rc", O.eurotop2018_Rc,
  slope_bases(dict(q=1e-3, gamma_v=1.0, gamma_star=1.0), dict(_c8, g=9.81)), out=(1.0, 0), cfg=_bf, levels=_cl(_c8),
  iterative=1e-4)
E("ot_e18_Rc_diml", "ot_eur", OV + "eurotop2018", "calculate_dimensionless_crest_freeboard", O.eurotop2018_Rc_diml,
  slope_bases(dict(q=1e-3, gamma_v=1.0, gamma_star=1.0), dict(_c8, g=9.81)), out=(0, 0), cfg=_bf, levels=_cl(_c8),
  iterative=1e-4)
_mx = dict(Hm0=2.0, gamma_beta=0.9, gamma_f=0.6, gamma_star=0.9)
E("ot_e18_qmax", "ot_eur", OV + "eurotop2018", "q_diml_max_equation", O.e18_qmax,
  [dict(_mx, Rc=3.0), dict(_mx, Rc=3.0, c2=0.1035, c3=1.35)], levels=_cl(_c8), main=False)
E("ot_e18_Rcmax", "ot_eur", OV + "eurotop2018", "Rc_diml_max_equation", O.e18_Rcmax,
  [dict(_mx, q=1e-3), dict(_mx, q=1e-3, c2=0.1035, c3=1.35, g=9.81)], levels=_cl(_c8), main=False)
_rm8 = _rm + [dict(Hm0=2.0, Tmm10=6.5, beta=20.0, gamma_f=0.55, cot_alpha_down=4.0, cot_alpha_up=3.0, B_berm=4.0, db=0.5),
              dict(Hm0=1.5, Tmm10=8.0, gamma_beta=0.9, gamma_f=0.8, cot_alpha_down=1.5, cot_alpha_up=2.0, B_berm=3.0, db=-1.0)]
_c8r = dict(c2=0.1035, c3=1.35)
E("ot_e18rm_q", "ot_eur", OV + "eurotop2018", "calculate_overtopping_discharge_q_rubble_mound", O.eurotop2018_rm_q,
  [dict(b, Rc=3.0, g=9.81, **_c8r) for b in _rm8], out=1.5, cfg=_bf, levels=_cl(_c8r), iterative=1e-4)
E("ot_e18rm_q_diml", "ot_eur", OV + "eurotop2018", "calculate_dimensionless_overtopping_discharge_q_rubble_mound",
  O.eurotop2018_rm_q_diml, [dict(b, Rc=3.0, **_c8r) for b in _rm8], cfg=_bf, levels=_cl(_c8r), iterative=1e-4)
E("ot_e18rm_Rc", "ot_eur", OV + "eurotop2018", "calculate_crest_freeboard_Rc_rubble_mound", O.eurotop2018_rm_Rc,
  [dict(b, q=1e-3, g=9.81, **_c8r) for b in _rm8], out=1.0, cfg=_bf, levels=_cl(_c8r), iterative=1e-4)
E("ot_e18rm_Rc_diml", "ot_eur", OV + "eurotop2018", "calculate_dimensionless_crest_freeboard_rubble_mound",
  O.eurotop2018_rm_Rc_diml, [dict(b, q=1e-3, g=9.81, **_c8r) for b in _rm8], cfg=_bf, levels=_cl(_c8r), iterative=1e-4)
E("ot_e18_gbeta", "ot_eur", OV + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta",
  lambda beta, gamma_f, **k: R.gamma_beta_eurotop(beta, gamma_f, k.get("c_gamma_beta_smooth", .0033),
                                                  k.get("c_gamma_beta_rough", .0063), k.get("gamma_f_crit", .6),
                                                  k.get("max_angle", 80.0)),
  [dict(beta=20.0, gamma_f=1.0), dict(beta=20.0, gamma_f=0.5, gamma_f_crit=0.6),
   dict(beta=20.0, gamma_f=0.55, c_gamma_beta_smooth=0.0033, c_gamma_beta_rough=0.0063, max_angle=80.0)], main=False,
  levels={"c_gamma_beta_smooth": alt(0.0033), "c_gamma_beta_rough": alt(0.0063), "max_angle": [60.0, 80.0], "gamma_f_crit": [0.5, 0.6], "beta": [-100, -80.0, -45.0, 0.0, 10, 45.0, 79.9, 80.0, 90.0]})

# ====================================================================== overtopping: recent formulas ==
_d = [dict(Hm0=2.0, smm10_HF=0.02, gamma_f=0.5), dict(Hm0=0.15, smm10_HF=0.03, gamma_f=1.0)]
_lfq = {"Hm0": [0.05, 0.15, 0.6, 1, 2.0, 3.5, 6.0, 12.0], "Rc": [0.0, 0.2, 0.5, 1.5, 3.0, 6, 12.0]}
E("ot_dr24_q24", "ot_new", OV + "deridder2024", "calculate_overtopping_discharge_q_eq24", O.dr24_q24,
  [dict(b, Rc=2.0, g=9.81) for b in _d], out=1.5, levels=_lfq)
E("ot_dr24_q24_diml", "ot_new", OV + "deridder2024", "calculate_dimensionless_overtopping_discharge_eq24", O.dr24_q24_diml,
  [dict(b, Rc=2.0) for b in _d], levels=_lfq)
E("ot_dr24_q26", "ot_new", OV + "deridder2024", "calculate_overtopping_discharge_q_eq26", O.dr24_q26,
  [dict(b, Rc=2.0, Hm0_LF=0.5, g=9.81) for b in _d], out=1.5, levels=_lfq)
E("ot_dr24_q26_diml", "ot_new", OV + "deridder2024", "calculate_dimensionless_overtopping_discharge_eq26", O.dr24_q26_diml,
  [dict(b, Rc=2.0, Hm0_LF=0.5) for b in _d], levels=_lfq)
E("ot_dr24_Rc24", "ot_new", OV + "deridder2024", "calculate_crest_freeboard_discharge_q_eq24", O.dr24_Rc24,
  [dict(b, q=1e-3, g=9.81) for b in _d], out=1.0, levels=_lfq)
E("ot_dr24_Rc24_diml", "ot_new", OV + "deridder2024", "calculate_dimensionless_crest_freeboard_discharge_q_eq24",
  O.dr24_Rc24_diml, [dict(b, q=1e-3, g=9.81) for b in _d], levels=_lfq)
E("ot_dr24_Rc26", "ot_new", OV + "deridder2024", "calculate_crest_freeboard_discharge_q_eq26", O.dr24_Rc26,
  [dict(b, q=1e-3, Hm0_LF=0.5, g=9.81) for b in _d], out=1.0, levels=_lfq)
_d6 = [dict(Hm0_HF=2.0, smm10_HF=0.02, gamma_f=0.5), dict(Hm0_HF=0.15, smm10_HF=0.03, gamma_f=1.0)]
E("ot_dr26_gbeta", "ot_new", OV + "deridder2026", "calculate_gamma_beta", O.dr26_gamma_beta, [dict(theta=20.0)], main=False)
E("ot_dr26_q28", "ot_new", OV + "deridder2026", "calculate_overtopping_discharge_q_eq28", O.dr26_q28,
  [dict(b, Rc=2.0, g=9.81, theta=20.0) for b in _d], out=1.5, levels=_lfq)
E("ot_dr26_q28_diml", "ot_new", OV + "deridder2026", "calculate_dimensionless_overtopping_discharge_eq28", O.dr26_q28_diml,
  [dict(b, Rc=2.0, theta=20.0) for b in _d], levels=_lfq)
E("ot_dr26_q32", "ot_new", OV + "deridder2026", "calculate_overtopping_discharge_q_eq32", O.dr26_q32,
  [dict(b, Rc=2.0, Hm0_LF=0.5, g=9.81, theta=20.0) for b in _d6], out=1.5, levels=_lfq)
E("ot_dr26_q32_diml", "ot_new", OV + "deridder2026", "calculate_dimensionless_overtopping_discharge_eq32", O.dr26_q32_diml,
  [dict(b, Rc=2.0, Hm0_LF=0.5, theta=20.0) for b in _d6], levels=_lfq)
E("ot_dr26_Rc28", "ot_new", OV + "deridder2026", "calculate_crest_freeboard_discharge_q_eq28", O.dr26_Rc28,
  [dict(b, q=1e-3, g=9.81, theta=20.0) for b in _d], out=1.0, levels=_lfq)
E("ot_dr26_Rc28_diml", "ot_new", OV + "deridder2026", "calculate_dimensionless_crest_freeboard_discharge_q_eq28",
  O.dr26_Rc28_diml, [dict(b, q=1e-3, g=9.81, gamma_beta=0.9) for b in _d], levels=_lfq)
E("ot_dr26_Rc32", "ot_new", OV + "deridder2026", "calculate_crest_freeboard_discharge_q_eq32", O.dr26_Rc32,
  [dict(b, q=1e-3, Hm0_LF=0.5, g=9.81, theta=20.0) for b in _d6], out=1.0, levels=_lfq)
E("ot_vg02_u", "ot_new", OV + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp", O.vg02_u,
  [dict(Hs=2.0, zXp=5.0, Rc=3.0, Bc=3.0, gamma_f=0.5, gamma_f_Crest=0.6, cu1=1.7, cu2=0.1, g=9.81),
   dict(Hs=1.0, zXp=2.0, Rc=1.5, Bc=0.0, gamma_f=1.0, gamma_f_Crest=1.0)], out=0.5,
  levels={"cu1": [1.5, 1.7], "cu2": [0.1, 0.2]})
_v21 = [dict(Hm0=2.0, beta=30.0, c=1.0, short_crested_waves=s, crossing_seas=x, parapet=p, **({"Hm0_swell": 0.5, "c_swell": 0.4}
        if x else {})) for s in (True, False) for x in (True, False) for p in (True, False)]
_v21 += [dict(b, c=1.3) for b in _v21] + [
    dict(Hm0=1.5, gamma_beta=0.9, c=1.0, Hm0_swell=0.5, c_swell=0.4), dict(Hm0=1.5, gamma_beta=0.9, c=1.3, crossing_seas=True),
    dict(Hm0=1.5, beta=0.0), dict(Hm0=1.5, beta=0.0, c=1.2), dict(Hm0=1.5, beta=0.0, Hm0_swell=0.5)]
_l21 = dict(c=[1.0, 1.3, 1.15], c_swell=[0.4, 0.3], short_crested_waves=[True, False], crossing_seas=[True, False],
            parapet=[True, False], Rc=[0.5, 1.5, 3.0, 4, 6.0, 12.0], Hm0_swell=[0.0, 0.3, 1.0, 2.5])
E("ot_vg21_q", "ot_new", OV + "vangent2021_caisson", "calculate_overtopping_discharge_q", O.vg21_q,
  [dict(b, Rc=3.0, g=9.81) for b in _v21], out=1.5, levels=_l21)
E("ot_vg21_q_diml", "ot_new", OV + "vangent2021_caisson", "calculate_dimensionless_overtopping_discharge_q", O.vg21_q_diml,
  [dict(b, Rc=3.0) for b in _v21], levels=_l21)
E("ot_vg21_Rc", "ot_new", OV + "vangent2021_caisson", "calculate_crest_freeboard_Rc", O.vg21_Rc,
  [dict(b, q=1e-3, g=9.81) for b in _v21], out=1.0, levels=_l21)
E("ot_vg21_Rc_diml", "ot_new", OV + "vangent2021_caisson", "calculate_dimensionless_crest_freeboard", O.vg21_Rc_diml,
  [dict(b, q=1e-3, g=9.81) for b in _v21], levels=_l21)
E("ot_vg21_gbeta", "ot_new", OV + "vangent2021_caisson", "calculate_influence_oblique_waves_gamma_beta", O.vg21_gamma_beta,
  [dict(beta=30.0, gamma_p=1.0, c_beta=0.75), dict(beta=30.0, gamma_p=0.89, c_beta=0.75)],
  levels=dict(gamma_p=[0.85, 0.89, 1.0], c_beta=[0.7, 0.75, 0.8]), main=False)
_v25 = [dict(Hm0=2.0, Hm0_swell=0.0, Tmm10=8.0, Ac=2.5, cot_alpha=2.0, beta=20.0, Dn50=1.0, gamma_v=1.1),
        dict(Hm0=2.0, Hm0_swell=0.3, Tmm10=6.0, Ac=2.5, cot_alpha=4.0, beta=0.0, B_berm=4.0, db=-0.5, gamma_f=0.5, gamma_v=1.0),
        dict(Hm0=1.0, Hm0_swell=0.3, Tmm10=12.0, Ac=1.5, cot_alpha=6.0, gamma_beta=0.9, gamma_b=0.9, gamma_f=0.7, gamma_v=1.0)]
_l25 = dict(gamma_v=[0.9, 1.0, 1.1, 1.3], B_berm=[0.0, 2.0, 6.0], db=[-2.0, -0.5, 0.0, 0.75], Ac=[0.8, 1.5, 2.5, 6.0],
            beta=[-30.0, 0.0, 20, 45.0, 75.0], cot_alpha=[1.5, 2, 3.0, 4.0, 6.0, 8.0])
_cf25 = dict(design_calculation=[True, False], include_influence_wind=[False, True])
E("ot_vg25_q", "ot_new", OV + "vangent2025", "calculate_overtopping_discharge_q", O.vg25_q,
  [dict(b, Rc=3.0, g=9.81) for b in _v25], out=(1.5, 0), levels=_l25, cfg=_cf25)
E("ot_vg25_q_diml", "ot_new", OV + "vangent2025", "calculate_dimensionless_overtopping_discharge_q", O.vg25_q_diml,
  [dict(b, Rc=3.0) for b in _v25], out=(0, 0), levels=_l25, cfg=_cf25)
E("ot_vg25_Rc", "ot_new", OV + "vangent2025", "calculate_crest_freeboard_Rc", O.vg25_Rc,
  [dict(b, q=1e-3, g=9.81) for b in _v25], out=(1.0, 0), levels=_l25, cfg=_cf25, iterative=1e-5)
E("ot_vg25_Rc_diml", "ot_new", OV + "vangent2025", "calculate_dimensionless_crest_freeboard", O.vg25_Rc_diml,
  [dict(b, q=1e-3, g=9.81) for b in _v25], out=(0, 0), levels=_l25, cfg=_cf25, iterative=1e-5)
E("ot_vg25_gbeta", "ot_new", OV + "vangent2025", "calculate_influence_oblique_waves_gamma_beta", O.vg25_gamma_beta,
  [dict(beta=20.0, c_beta=0.35)], levels={"c_beta": [0.35, 0.5]}, main=False)
E("ot_vg25_gb", "ot_new", OV + "vangent2025", "calculate_influence_berm_gamma_b", O.vg25_gamma_b,
  [dict(Hm0=2.0, smm10=0.03, Ac=2.5, B_berm=4.0, BL=2.0), dict(Hm0=2.0, smm10=0.03, Ac=2.5, B_berm=4.0, BL=2.0, c_b1=18.0, c_b2=1.3,
                                                               c_b3=0.34, c_b4=0.2)],
  levels={"BL": [0.5, 2.0, 4.0], "c_b1": alt(18.0), "c_b2": alt(1.3), "c_b3": alt(0.34), "c_b4": alt(0.2)}, main=False)
E("ot_vg25_gf", "ot_new", OV + "vangent2025", "calculate_influence_friction_gamma_f", O.vg25_gamma_f,
  [dict(Dn50=1.0, Hm0=2.0, smm10=0.02), dict(Dn50=1.0, Hm0=2.0, smm10=0.01, c_f1=0.7, c_f2=0.05, smm10_lim=0.012)], main=False,
  levels={"c_f1": alt(0.7), "c_f2": alt(0.05), "smm10_lim": [0.008, 0.012, 0.03]})
E("ot_vg25_gv", "ot_new", OV + "vangent2025", "calculate_influence_crest_wall_gamma_v", O.vg25_gamma_v,
  [dict(cot_alpha=2.0, Rc=3.0, Ac=2.5, c_v=0.45)], levels={"c_v": [0.4, 0.45], "Rc": [0.5, 1.5, 3.0, 6.0],
                                                        "cot_alpha": [1.5, 2, 3.0, 3.999, 4.0, 4.001, 6.0, 8.0]}, main=False)
E("ot_vg25_gw", "ot_new", OV + "vangent2025", "calculate_influence_wind_gamma_w", O.vg25_gamma_w,
  [dict(Rc=3.0, Ac=2.5, Hm0=2.0, q_diml=1e-3), dict(Rc=3.0, Ac=2.5, Hm0=2.0, q_diml=1e-3, c_w1=0.075, c_w2=-0.3)],
  levels={"q_diml": [1e-6, 1e-4, 1e-2], "c_w1": alt(0.075), "c_w2": alt(-0.3)}, main=False)
_mx = dict(Hm0=2.0, Hm0_swell=0.3, ksi_mm10=2.5, cot_alpha=3.0, gamma_f=0.6, gamma_b=0.9, gamma_v=1.0, gamma_beta=0.9)
_lx = {"c2": alt(0.8), "c3": alt(-2.5), "ksi_mm10": [0.5, 2.5, 8.0]}
E("ot_vg25_qmax", "ot_new", OV + "vangent2025", "q_diml_max_equation", O.vg25_qmax,
  [dict(_mx, Rc=3.0), dict(_mx, Rc=3.0, c2=0.8, c3=-2.5)], levels=_lx, main=False)
E("ot_vg25_Rcmax", "ot_new", OV + "vangent2025", "Rc_diml_max_equation", O.vg25_Rcmax,
  [dict(_mx, q=1e-3), dict(_mx, q=1e-3, c2=0.8, c3=-2.5, g=9.81)], levels=_lx, main=False)

# ====================================================================== transmission, set-up ==
_rc = [-10.0, -4.0, -1.5, -0.5, 0.0, 0.5, 1.5, 4.0, 8.0]
_da = [dict(Hsi=2.0, Tpi=7.0, h=8.0, Rc=0.5, B=5.0, cot_alpha=2.0), dict(Hsi=1.0, Tpi=9.0, h=4.0, Rc=-0.5, B=3.0, cot_alpha=1.5)]
for _n, _r, _c0 in (("permeable", X.dangremond_perm, 0.64), ("impermeable", X.dangremond_imp, 0.8)):
    E("tr_dan_" + _n, "transmission", TR + "dangremond1996", "calculate_wave_transmission_Kt_" + _n, _r,
      [dict(_da[0], C1=_c0), _da[1]], levels={"C1": alt(_c0), "Rc": _rc})
E("tr_bri", "transmission", TR + "briganti2003", "calculate_wave_transmission_Kt", X.briganti,
  [dict(Hsi=2.0, Tpi=7.0, Rc=0.5, B=5.0, cot_alpha=2.0), dict(Hsi=2.0, Tpi=7.0, Rc=-0.5, B=30.0, cot_alpha=3.0),
   dict(Hsi=2.0, Tpi=9.0, Rc=-0.5, B=20.0, cot_alpha=2.0)], levels={"Rc": _rc})
E("tr_goda", "transmission", TR + "goda1967_caisson", "calculate_wave_transmission_Kt", X.goda1967,
  [dict(Hsi=2.0, Rc=0.5, alpha_1=2.2, beta_1=0.4), dict(Hsi=1.0, Rc=-0.5)],
  levels={"Rc": _rc + [-2.6, 1.8], "alpha_1": [1.8, 2.2, 2.6], "beta_1": [0.1, 0.35, 0.4]})
E("tr_vg23", "transmission", TR + "vangent2023", "calculate_wave_transmission_Kt", X.vangent2023,
  [dict(Hm0=2.0, Tmm10=7.0, Rc=0.5, B=5.0), dict(Hm0=1.0, Tmm10=5.0, Rc=-0.5, B=3.0, structure_type="impermeable")],
  levels={"Rc": _rc, "structure_type": list(X._VG23) + ["porous", ""]})
_su = [dict(Hm0=2.0, Tmm10=7.0, Rc=-1.0), dict(Hm0=1.0, Tmm10=6.0, Rc=-0.5)]
_rs = {"Rc": [-4.0, -1.5, -1.0, -0.5, 0.0, 0.5]}
E("tr_su_imp", "transmission", TR + "vangent2024_setup", "calculate_structure_induced_setup_delta_impermeable", X.setup_imp, _su,
  out=1.0, levels=_rs)
E("tr_su_imp_diml", "transmission", TR + "vangent2024_setup", "calculate_dimensionless_structure_induced_setup_impermeable",
  X.setup_imp_diml, _su, levels=_rs)
E("tr_su_perm", "transmission", TR + "vangent2024_setup", "calculate_structure_induced_setup_delta_permeable", X.setup_perm,
  [dict(b, hc=4.0) for b in _su], out=1.0, levels=_rs)
E("tr_su_perm_diml", "transmission", TR + "vangent2024_setup", "calculate_dimensionless_structure_induced_setup_permeable",
  X.setup_perm_diml, [dict(b, hc=4.0) for b in _su], levels=_rs)

# ====================================================================== caisson (Goda) ==
GO = "structural.forces_caisson.goda1985"
_g = [dict(HD=6.0, Hsi=3.5, Tmax=11.0, beta=0.0, h_s=12.0, d=8.0, B1=5.0, cota_seabed=50.0, rho_water=1025.0, hacc=9.0, Rc=4.0,
           Bup=15.0, offshore_wave_steepness=0.02, g=9.81),
      dict(HD=8.0, Hsi=4.5, Tmax=14.0, beta=25.0, h_s=15.0, d=6.0, B1=10.0, cota_seabed=30.0, rho_water=1000.0, hacc=10.0, Rc=7.0,
           Bup=20.0),
      dict(HD=4.0, Hsi=2.0, Tmax=9.0, beta=10.0, h_s=10.0, d=5.0, B1=1.0, cota_seabed=20.0, rho_water=1025.0, hacc=7.0, Rc=8.0,
           Bup=12.0, offshore_wave_steepness=0.015)]
_gl = dict(HD=[0.3, 2.0, 4.0, 6, 8.0, 14.0], Hsi=[0.2, 2.0, 3.5, 6.0, 20.0], Tmax=[2.0, 7.0, 11, 14.0, 20.0],
           beta=[-45.0, -10.0, 0.0, 14, 15.0, 19.5, 20.0, 45.0, 90.0], h_s=[2.0, 8.0, 12, 25.0], d=[1.0, 5.0, 7, 9.0, 11.0],
           B1=[0.5, 2.5, 5.0, 10, 40.0], cota_seabed=[15.0, 30, 50.0, 100.0], hacc=[1.5, 6.0, 9, 12.0],
           Rc=[0.0, 0.5, 1.5, 4.0, 9, 15.0], Bup=[4.0, 12, 15.0, 25.0], offshore_wave_steepness=[0.01, 0.03, 0.05, NAN],
           rho_fill_above_SWL=[2200.0, 2400], rho_fill_below_SWL=[1900.0, 2100], muf=[0.5, 0.6], tup_over_Bup=[0.4, 0.5, 0.6])
_gd = (2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0)
E("go_pf", "goda", GO, "calculate_pressures_and_forces", F.goda_pressures_tuple, _g, out=_gd, levels=_gl)
E("go_pf_dict", "goda", GO, "calculate_pressures_and_forces", F.goda_pressures_dict, [dict(b, return_dict=True) for b in _g],
  out=None, levels=_gl, drop=("return_dict",))
_g2 = [dict(b, rho_fill_above_SWL=2400, rho_fill_below_SWL=2100, muf=0.6, tup_over_Bup=0.5) for b in _g[:1]] + _g[1:]
E("go_fr", "goda", GO, "calculate_forces_and_reactions", F.goda_full_tuple, _g2, out=(2, 2, 3, 3, 1, 1, 1, 0, 0, 0), levels=_gl)
E("go_fr_dict", "goda", GO, "calculate_forces_and_reactions", F.goda_full_dict, [dict(b, return_dict=True) for b in _g2],
  out=None, levels=_gl, drop=("return_dict",))
E("go_bear", "goda", GO, "calculate_bearing_pressures", F.goda_bearing,
  [dict(Wup=3e6, tup=7.5, MH=6e6, MU=2e6, FU=4e5, Bup=15.0)], out=(1, 3, 2, 1), main=False,
  levels=dict(Wup=[1e6, 2e6, 3e6, 5e6], tup=[5.0, 7.5, 10.0], MH=[1e6, 6e6, 1.5e7], MU=[1e5, 2e6, 5e6], FU=[1e5, 4e5, 9e5],
              Bup=[10.0, 15.0, 20.0]))
E("go_wup", "goda", GO, "calculate_Wup", F.goda_Wup,
  [dict(hacc=9.0, Rc=4.0, Bup=15.0, rho_fill_below_SWL=2100, rho_water=1025.0, rho_fill_above_SWL=2400, g=9.81)], out=2.0,
  main=False, levels=_gl)
E("go_sf", "goda", GO, "calculate_safety_factors", F.goda_safety,
  [dict(FU=4e5, FH=8e5, Wup=3e6, muf=0.6, tup=7.5, MH=6e6, MU=2e6)], out=(0, 0), main=False,
  levels=dict(Wup=[1e6, 3e6, 5e6], tup=[5.0, 7.5, 10.0], MH=[1e6, 6e6, 1.5e7], MU=[1e5, 2e6, 5e6], FU=[1e5, 4e5, 9e5],
              FH=[1e5, 8e5, 2e6], muf=[0.5, 0.6]))
E("go_imp", "goda", GO, "check_impulsive_breaking", lambda **k: F.goda_impulsive(
    *[k.get(n, NAN) for n in ("beta", "B1", "L", "cota_seabed", "offshore_wave_steepness", "Rc", "Hsi", "d", "h_s")]) != 0,
  [dict(beta=10.0, B1=1.0, L=80.0, cota_seabed=30.0, offshore_wave_steepness=0.02, Rc=4.0, Hsi=3.0, d=5.0, h_s=10.0),
   dict(beta=10.0, B1=5.0, L=80.0, cota_seabed=30.0, offshore_wave_steepness=0.02, Rc=4.0, Hsi=3.0, d=5.0, h_s=10.0)], main=False,
  levels=dict(beta=[0.0, 10, 19.5, 20.0, 30.0, NAN], B1=[0.4, 1.0, 1.599, 1.601, 5.0, 23.9, 24.1, NAN], L=[40.0, 80.0, 120.0, NAN],
              cota_seabed=[20.0, 49.0, 50.0, 70.0, NAN], offshore_wave_steepness=[0.01, 0.029, 0.03, 0.05, NAN],
              Rc=[0.5, 0.89, 0.91, 4.0, NAN], Hsi=[1.0, 3.0, 12.0, NAN], d=[2.0, 5.0, 5.99, 6.01, 8.0, NAN], h_s=[8.0, 10.0, NAN]))

# ====================================================================== crest wall ==
CW = "structural.forces_crestwall.vangentvanderwerf2019"
_w = dict(Hm0=2.5, Tmm10=8.0, cot_alpha=2.0, Ac=2.0, gamma_beta=1.0, gamma_f=0.5, c0=1.45, c1=5.0, rho_water=1025.0, g=9.81)
_w2 = dict(Hm0=1.5, Tmm10=5.0, cot_alpha=4.0, Ac=0.8)
_wl = dict(c1=[4.4, 5.0], Ac=[0.3, 0.8, 2.0, 3.5], beta=[-40.0, 0.0, 15, 45.0, 75.0, 90.0], Rc=[0.5, 1.5, 3.0, 6.0])
E("cw_fh", "crestwall", CW, "calculate_FH2p_perpendicular", F.cw_FH, [dict(_w, Rc=3.0, Hwall=2.0, cFH=1.0),
                                                                  dict(_w2, Rc=2.0, Hwall=1.0)], out=2.0, levels=_wl)
E("cw_fho", "crestwall", CW, "calculate_FH2p_oblique", F.cw_FH_obl,
  [dict(_w, beta=30.0, Rc=3.0, Hwall=2.0, cFH=1.0), dict(_w2, beta=0.0, Rc=2.0, Hwall=1.0)], out=2.0, levels=_wl)
E("cw_fv", "crestwall", CW, "calculate_FV2p_perpendicular", F.cw_FV,
  [dict(_w, Bwall=4.0, Fb=0.5, cFV=0.4, cFb=0.5), dict(_w2, Bwall=3.0, Fb=0.2)], out=2.0, levels=_wl)
E("cw_fvo", "crestwall", CW, "calculate_FV2p_oblique", F.cw_FV_obl,
  [dict(_w, beta=30.0, Bwall=4.0, Fb=0.5, cFV=0.4, cFb=0.5), dict(_w2, beta=0.0, Bwall=3.0, Fb=0.2)], out=2.0, levels=_wl)
E("cw_fhz", "crestwall", CW, "calculate_FH2p_perpendicular_from_z2p", F.cw_FH_z,
  [dict(Hm0=2.0, z2p=4.0, Ac=2.0, Rc=3.0, Hwall=2.0, rho_water=1025.0, g=9.81, cFH=1.0), dict(Hm0=2.0, z2p=1.0, Ac=2.0, Rc=3.0,
                                                                                        Hwall=2.0)], out=2.0, levels=_wl)
E("cw_fvz", "crestwall", CW, "calculate_FV2p_perpendicular_from_z2p", F.cw_FV_z,
  [dict(z2p=4.0, Ac=2.0, Bwall=4.0, Fb=0.5, cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81), dict(z2p=1.0, Ac=2.0, Bwall=3.0, Fb=0.2)],
  out=2.0, levels=_wl)
E("cw_gF", "crestwall", CW, "calculate_influence_oblique_waves_force_gamma_F_beta", F.cw_gamma_F,
  [dict(z2p=4.0, Ac=2.0, beta=30.0, gamma_A=1.0)], levels=dict(_wl, gamma_A=[0.75, 1.0]), main=False)
E("cw_gFH", "crestwall", CW, "calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta", F.cw_gamma_FH,
  [dict(z2p=4.0, Ac=2.0, beta=30.0), dict(z2p=4.0, Ac=2.0, beta=30.0, gamma_A=1.0)], levels=dict(_wl, gamma_A=[0.75, 1.0]), main=False)
E("cw_gFV", "crestwall", CW, "calculate_influence_oblique_waves_vertical_force_gamma_FV_beta", F.cw_gamma_FV,
  [dict(z2p=4.0, Ac=2.0, beta=30.0), dict(z2p=4.0, Ac=2.0, beta=30.0, gamma_A=0.75)], levels=dict(_wl, gamma_A=[0.75, 1.0]), main=False)
E("cw_gb", "crestwall", CW, "calculate_influence_oblique_waves_gamma_beta", F.cw_gamma_beta,
  [dict(beta=30.0), dict(beta=30.0, c_beta=0.5)], levels=dict(_wl, c_beta=[0.35, 0.5]), main=False)
E("cw_fh01", "crestwall", CW, "calculate_FH01p_perpendicular", F.cw_FH01, [dict(FH2p=5e4)], out=2.0,
  levels=dict(FH2p=[0.0, 1e3, 5e4, 1e6]))
E("cw_fv01", "crestwall", CW, "calculate_FV01p_perpendicular", F.cw_FV01, [dict(FV2p=5e4, s0p=0.03)], out=2.0,
  levels=dict(FV2p=[0.0, 1e3, 5e4, 1e6], s0p=[0.005, 0.015, 0.03, 0.05]))

# ====================================================================== rock armour ==
_h = dict(rho_water=1025.0, rho_armour=2650.0, KD=4.0, cot_alpha=2.0, alpha_Hs=1.27)
_dmg = dict(damage_percentage=[0.0, 3, 4.9, 5, 7.5, 10.0, 12.0, 15, 18.0, 20, 25.0, 30, 35.0, 40, 45.0, 50, 75.0, 100.0],
            rock_type=["rough", "smooth", "Rough ", " SMOOTH"])
E("rk_hud_M0", "rock", RK + "hudson1959", "calculate_median_rock_mass_M50_no_damage", K.hudson_M, [dict(_h, Hs=3.0)], out=3.0)
E("rk_hud_H0", "rock", RK + "hudson1959", "calculate_significant_wave_height_Hs_no_damage", K.hudson_Hs, [dict(_h, M50=5000.0)],
  out=1.0)
E("rk_hud_M", "rock", RK + "hudson1959", "calculate_median_rock_mass_M50", K.hudson_M_dam,
  [dict(_h, Hs=3.0, damage_percentage=7.0, rock_type="rough")], out=3.0, levels=_dmg)
E("rk_hud_H", "rock", RK + "hudson1959", "calculate_significant_wave_height_Hs", K.hudson_Hs_dam,
  [dict(_h, M50=5000.0, damage_percentage=22.0, rock_type="smooth")], out=1.0, levels=_dmg)
E("rk_hud_f", "rock", RK + "hudson1959", "lookup_table_damage_factors", K.hudson_factor,
  [dict(damage_percentage=7.0, rock_type="rough"), dict(damage_percentage=7.0)],
  levels=dict(_dmg, rock_type=["rough", "smooth", "Rough ", " SMOOTH", "round", ""]), main=False)
_r2 = dict(ratio_H2p_Hs=[1.0, 1.2, 1.4, 1.5])
_vd = [dict(N_waves=2500, cot_alpha=2.0, P=0.4, rho_armour=2650.0, rho_water=1025.0),
       dict(N_waves=4000, cot_alpha=3.0, P=0.1, rho_armour=2600.0), dict(N_waves=6000, cot_alpha=1.5, P=0.6, rho_armour=2800.0)]
_H2 = dict(H2p=[0.07, 1.0, 2.0, 2.8, 4.0, 8.0])
for _m, _t, _pre, _cp, _cs, _fs in (("vandermeer1988", "Tm", "vdm88", 8.7, 1.4, (K.vdm88_S, K.vdm88_Dn, K.vdm88_Hs)),
                                    ("vandermeer1988_modified", "Tmm10", "vdmm", 8.4, 1.3, (K.vdmm_S, K.vdmm_Dn, K.vdmm_Hs))):
    _lv = dict(_H2, c_pl=alt(_cp), c_s=alt(_cs), **_r2)
    _b = [dict(_vd[0], Hs=2.0, H2p=2.8, c_pl=_cp, c_s=_cs, **{_t: 6.0}), dict(_vd[1], Hs=2.0, H2p=2.5, **{_t: 5.0}),
          dict(_vd[2], Hs=3.0, H2p=4.0, **{_t: 12.0})]
    E("rk_%s_S" % _pre, "rock", RK + _m, "calculate_damage_number_S", _fs[0],
      [dict(_b[0], Dn50=1.0), dict(_b[1], M50=3000.0), dict(_b[2], Dn50=1.5), dict(_b[2])], levels=_lv)
    E("rk_%s_Dn" % _pre, "rock", RK + _m, "calculate_nominal_rock_diameter_Dn50", _fs[1], [dict(x, S=2.0) for x in _b], out=1.0,
      levels=_lv)
    _b = [dict(_vd[0], ratio_H2p_Hs=1.4, c_pl=_cp, c_s=_cs, g=9.81, **{_t: 6.0}), dict(_vd[1], ratio_H2p_Hs=1.3, **{_t: 5.0}),
          dict(_vd[2], ratio_H2p_Hs=1.2, **{_t: 12.0})]
    E("rk_%s_Hs" % _pre, "rock", RK + _m, "calculate_significant_wave_height_Hs", _fs[2],
      [dict(_b[0], S=2.0, Dn50=1.0), dict(_b[1], S=5.0, M50=3000.0), dict(_b[2], S=8.0, Dn50=1.5), dict(_b[2], S=3.0)], out=1.0,
      levels=_lv)
E("rk_vdm_gN", "rock", RK + "vandermeer1988", "calculate_correction_term_gamma_N", K.vdm_gamma_N, [dict(N_waves=2500)], main=False)
_v2 = [dict(Tmm10=6.0, N_waves=2500, cot_alpha=2.0, P=0.4, rho_armour=2650.0, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0),
       dict(Tmm10=5.0, N_waves=1000, cot_alpha=4.0, P=0.1, rho_armour=2650.0), dict(Tmm10=12.0, N_waves=3000, cot_alpha=1.5, P=0.6,
                                                                               rho_armour=2800.0)]
_lv2 = dict(c_pl=alt(6.49), c_s=alt(0.97), c_pl_mult=[1.0, 1.1], c_s_mult=[1.0, 0.9])
E("rk_vdm21_S", "rock", RK + "vandermeer2021", "calculate_damage_number_S", K.vdm21_S,
  [dict(_v2[0], Hs=2.0, Dn50=1.0), dict(_v2[1], Hs=2.0, M50=3000.0), dict(_v2[2], Hs=3.0, Dn50=1.5)], levels=_lv2)
E("rk_vdm21_Dn", "rock", RK + "vandermeer2021", "calculate_nominal_rock_diameter_Dn50", K.vdm21_Dn,
  [dict(_v2[0], Hs=2.0, S=2.0), dict(_v2[1], Hs=2.0, S=2.0), dict(_v2[2], Hs=3.0, S=2.0)], out=1.0, levels=_lv2)
E("rk_vdm21_Hs", "rock", RK + "vandermeer2021", "calculate_significant_wave_height_Hs", K.vdm21_Hs,
  [dict(_v2[0], S=2.0, Dn50=1.0, g=9.81), dict(_v2[1], S=5.0, M50=3000.0), dict(_v2[2], S=8.0, Dn50=1.5)], out=1.0, levels=_lv2)
_et = [dict(Tmm10=6.0, N_waves=2500, cot_alpha=2.0, rho_armour=2650.0, m=0.02), dict(Tmm10=5.0, N_waves=1000, cot_alpha=4.0,
                                                                                   rho_armour=2650.0)]
_dl = dict(use_depth_limited_version=[False, True])
E("rk_ets_Cp", "rock", RK + "etemadshahidi2020", "calculate_permeability_coefficient_Cp", K.ets20_Cp,
  [dict(Dn50=1.0, Dn50_core=0.2)], main=False)
E("rk_ets_S", "rock", RK + "etemadshahidi2020", "calculate_damage_number_S", K.ets20_S,
  [dict(_et[0], Hs=2.0, Dn50=1.0, Dn50_core=0.2, rho_water=1025.0), dict(_et[1], Hs=1.5, M50=3000.0, M50_core=60.0, rho_core=2650.0),
   dict(_et[1], Hs=1.5, Dn50=1.0), dict(_et[1], Hs=1.5, Dn50_core=1.0)], cfg=_dl)
E("rk_ets_Dn", "rock", RK + "etemadshahidi2020", "calculate_nominal_rock_diameter_Dn50", K.ets20_Dn,
  [dict(_et[0], Hs=2.0, S=2.0, Dn50_core=0.2), dict(_et[1], Hs=1.5, S=4.0, M50_core=60.0, rho_core=2650.0)], out=1.0, cfg=_dl,
  iterative=1e-5)
E("rk_ets_Hs", "rock", RK + "etemadshahidi2020", "calculate_significant_wave_height_Hs", K.ets20_Hs,
  [dict(_et[0], S=2.0, Dn50=1.0, Dn50_core=0.2, g=9.81), dict(_et[1], S=4.0, M50=3000.0, M50_core=60.0, rho_core=2650.0)], out=1.0,
  cfg=_dl)
_ju = [dict(Tmm10=6.0, N_waves=2500, cot_alpha=8.0, rho_armour=2650.0, c_pl=4.3), dict(Tmm10=8.0, N_waves=1000, cot_alpha=10.0,
                                                                                    rho_armour=2650.0)]
_lju = dict(cot_alpha=[4.0, 6.0, 8, 10.0, 15.0], c_pl=alt(4.3))
E("rk_jum_Fp", "rock", RK + "jumelet2024", "calculate_fraction_plunging_waves_Fp", K.jum_Fp, [dict(ksi_mm10=0.8)],
  levels=dict(ksi_mm10=[0.2, 0.5, 0.8, 1.2, 1.6]), main=False)
E("rk_jum_S", "rock", RK + "jumelet2024", "calculate_damage_number_S", K.jum_S,
  [dict(_ju[0], Hs=2.0, Dn50=0.5, rho_water=1025.0), dict(_ju[1], Hs=2.0, M50=300.0)], levels=_lju)
E("rk_jum_Dn", "rock", RK + "jumelet2024", "calculate_nominal_rock_diameter_Dn50", K.jum_Dn,
  [dict(_ju[0], Hs=2.0, S=2.0), dict(_ju[1], Hs=2.0, S=5.0)], out=1.0, levels=_lju)
E("rk_jum_Hs", "rock", RK + "jumelet2024", "calculate_significant_wave_height_Hs", K.jum_Hs,
  [dict(_ju[0], S=2.0, Dn50=0.5, g=9.81), dict(_ju[1], S=5.0, M50=300.0)], out=1.0, levels=_lju, iterative=1e-3)
_rcn = dict(Rc=[-3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0])
E("rk_kb_Hs", "rock", RK + "kramerburcharth2004_lowcrested", "calculate_significant_wave_height_Hs", K.kb_Hs,
  [dict(Rc=-0.5, rho_armour=2650.0, Dn50=1.0), dict(Rc=0.5, rho_armour=2650.0, M50=3000.0)], out=1.0, levels=_rcn)
E("rk_kb_Dn", "rock", RK + "kramerburcharth2004_lowcrested", "calculate_nominal_rock_diameter_Dn50", K.kb_Dn,
  [dict(Rc=-0.5, rho_armour=2650.0, Hs=2.0), dict(Rc=0.5, rho_armour=2650.0, Hs=3.0)], out=1.0, levels=_rcn, iterative=1e-5)
E("rk_kb_Rc", "rock", RK + "kramerburcharth2004_lowcrested", "calculate_crest_freeboard_Rc", K.kb_Rc,
  [dict(Hs=2.5, rho_armour=2650.0, Dn50=1.0), dict(Hs=3.0, rho_armour=2650.0, M50=3000.0)], out=1.0, iterative=1e-5)
_sc = [dict(Tmm10=8.0, N_waves=2500, cot_alpha=3.0, rho_armour=2650.0, rho_core=2650.0, c_VGnew=3.3, rho_water=1025.0),
       dict(Tmm10=6.0, N_waves=1000, cot_alpha=2.0, rho_armour=2700.0, rho_core=2600.0)]
_lsc = dict(c_VGnew=alt(3.3))
E("rk_sca_S", "rock", RK + "scaravaglione2025", "calculate_damage_number_S", K.sca_S,
  [dict(_sc[0], Hm0=2.0, Dn50=1.0, Dn50_core=0.3), dict(_sc[1], Hm0=2.0, M50=3000.0, M50_core=60.0), dict(_sc[1], Hm0=2.0, Dn50=1.0),
   dict(_sc[1], Hm0=2.0, Dn50_core=0.2)], levels=_lsc)
E("rk_sca_Dn", "rock", RK + "scaravaglione2025", "calculate_nominal_rock_diameter_Dn50", K.sca_Dn,
  [dict(_sc[0], Hm0=2.0, S=2.0, Dn50_core=0.3), dict(_sc[1], Hm0=2.0, S=4.0, M50_core=60.0)], out=1.0, levels=_lsc)
E("rk_sca_H", "rock", RK + "scaravaglione2025", "calculate_significant_wave_height_Hm0", K.sca_Hm0,
  [dict(_sc[0], S=2.0, Dn50=1.0, Dn50_core=0.3, g=9.81), dict(_sc[1], S=4.0, M50=3000.0, M50_core=60.0)], out=1.0, levels=_lsc)

# ====================================================================== concrete armour ==
_u = dict(rho_water=1025.0, rho_armour=2400.0, KD=8.0)
for _m, _d in (("accropode2_hudson1959", 1), ("accropode_hudson1959", 1), ("core_loc_hudson1959", 1),
               ("cubes_double_layer_hudson1959", 0), ("cubipod_hudson1959", 1), ("tetrapod_hudson1959", 0)):
    _x = [dict(_u, cot_alpha=2.0), dict(_u, cot_alpha=1.5, alpha_Hs=1.0)] + ([dict(_u)] if _d else [])
    _s = _m.split("_hud")[0]
    E("cu_%s_M" % _s, "concrete", CO + _m, "calculate_unit_mass_M", C.M_def if _d else C.M, [dict(b, Hs=4.0) for b in _x], out=3.0)
    E("cu_%s_H" % _s, "concrete", CO + _m, "calculate_significant_wave_height_Hs", C.Hs_def if _d else C.Hs,
      [dict(b, M=15000.0) for b in _x], out=1.0)
for _m, _r, _k in (("accropode2_hudson1959", C.kd_16, 16), ("accropode_hudson1959", C.kd_15, 15), ("core_loc_hudson1959", C.kd_16, 16)):
    _s = _m.split("_hud")[0]
    E("cu_%s_KD" % _s, "concrete", CO + _m, "calculate_KD_breaking_trunk_from_seabed_slope", _r, [dict(seabed_slope_perc=3.0)],
      levels=dict(seabed_slope_perc=[0.0, 0.5, 1, 2.0, 3.0, 4.0, 5, 6.0, 7.5, 9.0, 10, 12.0]), main=False)
    E("cu_%s_KDn" % _s, "concrete", CO + _m, "calculate_KD_nonbreaking_trunk_from_seabed_slope", lambda k=_k: float(k), [dict()],
      main=False)
_cb = [dict(rho_water=1025.0, rho_armour=2400.0, N_waves=2500, cot_alpha=1.5)]
E("cu_cube2_Dn", "concrete", CO + "cubes_double_layer_vandermeer1988", "calculate_nominal_diameter_Dn_vanDerMeer1988", C.cube2_Dn,
  [dict(_cb[0], Hs=4.0, Tm=9.0, Nod=0.5)], out=1.0)
E("cu_cube2_H", "concrete", CO + "cubes_double_layer_vandermeer1988", "calculate_wave_height_Hs_vanDerMeer1988", C.cube2_Hs,
  [dict(_cb[0], Dn=1.5, s0m=0.03, Nod=0.5)], out=1.0, levels=dict(Dn=[0.05, 0.8, 1.5, 3.0]))
E("cu_cube2_Nod", "concrete", CO + "cubes_double_layer_vandermeer1988", "calculate_damage_Nod_vanDerMeer1988", C.cube2_Nod,
  [dict(_cb[0], Hs=5.0, Dn=1.5, s0m=0.03)], levels=dict(Dn=[0.05, 0.8, 1.5, 3.0]))
_u1 = dict(rho_water=1025.0, rho_armour=2400.0)
for _n, _r, _nn in (("calculate_unit_mass_M_start_of_damage", C.cube1_M, 2.9), ("calculate_unit_mass_M_failure", C.cube1_M_fail, 3.5)):
    E("cu_cube1_" + _n[10:], "concrete", CO + "cubes_single_layer_vangent2002", _n, _r, [dict(_u1, Hs=4.0), dict(_u1, Hs=4.0, Ns=_nn)],
      out=3.0, levels=dict(Ns=[2.5, 2.9, 3.5]))
for _n, _r, _nn in (("calculate_significant_wave_height_Hs_start_of_damage", C.cube1_Hs, 2.9),
                    ("calculate_significant_wave_height_Hs_failure", C.cube1_Hs_fail, 3.5)):
    E("cu_cube1_" + _n[10:], "concrete", CO + "cubes_single_layer_vangent2002", _n, _r,
      [dict(_u1, M=15000.0), dict(_u1, M=15000.0, Ns=_nn)], out=1.0, levels=dict(Ns=[2.5, 2.9, 3.5]))
for _m, _p, _fs, _frb, _cor in (("xbloc", "xb", (C.xb_Hs_V, C.xb_Hs_M, C.xb_V, C.xb_M), C.xb_freeboard, C.xb_core),
                                ("xblocplus", "xp", (C.xp_Hs_V, C.xp_Hs_M, C.xp_V, C.xp_M), C.xp_freeboard, C.xp_core)):
    _t = dict(_u1, total_correction_factor=1.0)
    E("cu_%s_HV" % _p, "concrete", CO + _m, "calculate_wave_height_Hs_from_V", _fs[0], [dict(_t, V=4.0), dict(_u1, V=2.0)], out=1.0)
    E("cu_%s_HM" % _p, "concrete", CO + _m, "calculate_wave_height_Hs_from_M", _fs[1], [dict(_t, M=9000.0), dict(_u1, M=9000.0)], out=1.0)
    E("cu_%s_V" % _p, "concrete", CO + _m, "calculate_unit_volume_V", _fs[2], [dict(_t, Hs=4.0), dict(_u1, Hs=4.0)], out=3.0)
    E("cu_%s_M" % _p, "concrete", CO + _m, "calculate_unit_mass_M", _fs[3], [dict(_t, Hs=4.0), dict(_u1, Hs=4.0)], out=3.0)
    _ct = [4.0, 9.9, 10, 12.0, 15, 18.0, 20, 25.0, 30, 30.1, 60.0, 400.0]
    E("cu_%s_sb" % _p, "concrete", CO + _m, "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", C.xb_seabed,
      [dict(cot_alpha=12.0)], levels=dict(cot_alpha=_ct), main=False)
    E("cu_%s_sp" % _p, "concrete", CO + _m, "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", C.xb_seabed_perc,
      [dict(perc_slope=4.0)], levels=dict(perc_slope=[0.5, 2.0, 3.0, 3.4, 4.0, 5, 6.0, 7.0, 8.0, 10, 12.0, 30.0]), main=False)
    E("cu_%s_fr" % _p, "concrete", CO + _m, "calculate_correctionfactor_unit_mass_M_by_relative_freeboard", _frb,
      [dict(rel_freeboard=0.8)], levels=dict(rel_freeboard=[-1.0, 0.0, 0.3, 0.499, 0.5, 0.8, 0.999, 1, 1.5]), main=False)
    E("cu_%s_co" % _p, "concrete", CO + _m, "switch_correctionfactor_unit_mass_M_by_core_permeability", _cor,
      [dict(), dict(low_core_permeability=False, core_impermeable=False)],
      levels=dict(low_core_permeability=[False, True], core_impermeable=[False, True]), main=False)
E("cu_xb_de", "concrete", CO + "xbloc", "calculate_correctionfactor_unit_mass_M_by_rel_depth", C.xb_depth, [dict(rel_depth=2.0)],
  levels=dict(rel_depth=[0.5, 2.0, 2.5, 2.501, 3.0, 3.5, 3.501, 6.0]), main=False)
E("cu_xb_fq", "concrete", CO + "xbloc", "switch_correction_factor_unit_mass_M_near_design_event_frequency", C.xb_freq,
  [dict(), dict(design_event_occurs_frequently=False)], levels=dict(design_event_occurs_frequently=[False, True]), main=False)
E("cu_xb_sl", "concrete", CO + "xbloc", "calculate_correctionfactor_unit_mass_M_by_structure_slope", C.xb_slope,
  [dict(cot_alpha=1.33)], levels=dict(cot_alpha=[0.25, 0.5, 0.51, 0.6, 0.7, 1.0, 1.33, 1.5, 2.0, 3.0]), main=False)

# ====================================================================== toe berm ==
_e2 = [dict(Tmm10=7.0, h=6.0, ht=3.5, Bt=3.0, m=0.03, rho_rock=2650.0, rho_water=1025.0, g=9.81),
       dict(Tmm10=5.0, h=4.0, ht=1.5, Bt=1.0, m=0.05, rho_rock=2800.0)]
_c21 = dict(c1=1.2, c2=11.2, c3=1.75, c4=1 / 6, c5=0.4, c6=-0.1, c7=3.7)
_l2 = dict({k: alt(v) for k, v in _c21.items()}, h=[2.0, 4.0, 6, 12.0], ht=[0.5, 1.5, 3.5, 6.0], Bt=[0.5, 1.0, 3.0, 8.0])
E("to_ets_Nod", "toe", TO + "etemadshahidi2021", "calculate_damage_Nod", T.ets21_Nod,
  [dict(_e2[0], Hs=3.0, Dn50=0.6, **_c21), dict(_e2[1], Hs=2.0, Dn50=0.4)], levels=_l2)
E("to_ets_Dn", "toe", TO + "etemadshahidi2021", "calculate_nominal_diameter_Dn50", T.ets21_Dn,
  [dict(_e2[0], Hs=3.0, Nod=0.5, **_c21), dict(_e2[1], Hs=2.0, Nod=1.0)], out=1.0, levels=_l2)
E("to_ets_H", "toe", TO + "etemadshahidi2021", "calculate_significant_wave_height_Hs", T.ets21_Hs,
  [dict(_e2[0], Nod=0.5, Dn50=0.6, **_c21), dict(_e2[1], Nod=1.0, Dn50=0.4)], out=1.0, levels=_l2, iterative=1e-3)
_t = dict(h=8.0, rho_rock=2650.0, rho_water=1025.0)
for _m, _p, _fs in (("gerding1993", "ger", (T.ger_Nod, T.ger_Dn, T.ger_Hs, T.ger_ht)),
                    ("vandermeer1998", "vdm", (T.vdm98_Nod, T.vdm98_Dn, T.vdm98_Hs, T.vdm98_ht))):
    E("to_%s_Nod" % _p, "toe", TO + _m, "calculate_damage_Nod", _fs[0], [dict(_t, Hs=3.0, ht=4.0, Dn50=0.6)])
    E("to_%s_Dn" % _p, "toe", TO + _m, "calculate_nominal_diameter_Dn50", _fs[1], [dict(_t, Hs=3.0, ht=4.0, Nod=1.0)], out=1.0)
    E("to_%s_H" % _p, "toe", TO + _m, "calculate_wave_height_Hs", _fs[2], [dict(_t, Dn50=0.6, ht=4.0, Nod=1.0)], out=1.0)
    E("to_%s_ht" % _p, "toe", TO + _m, "calculate_depth_above_toe_ht", _fs[3], [dict(_t, Hs=3.0, Dn50=0.6, Nod=1.0)], out=1.0)
_tk = [dict(Tp=9.0, hacc=6.0, Bt=6.0, beta=0.0, g=9.81), dict(Tp=6.0, hacc=4.0, Bt=3.0, beta=30.0)]
_lk = dict(hacc=[1.0, 3.0, 5.0, 8.0, 15.0], beta=[-30.0, 0.0, 15, 45.0, 60.0, 90.0], Bt=[0.5, 2.0, 5.0, 15.0])
E("to_tak_Ns", "toe", TO + "takahashi1990_caisson", "calculate_stability_number_Ns", T.tak_Ns, [dict(b, Hs=3.0) for b in _tk], levels=_lk)
E("to_tak_Dn", "toe", TO + "takahashi1990_caisson", "calculate_nominal_diameter_Dn50", T.tak_Dn,
  [dict(b, Hs=3.0, rho_rock=2650.0, rho_water=1025.0) for b in _tk], out=1.0, levels=_lk)
_vw = [dict(Hm0=2.5, Tmm10=7.0, ht=4.0, Bt=3.0, tt=1.5, rho_rock=2650.0, rho_water=1025.0, cot_alpha_armour_slope=2.0, g=9.81),
       dict(Hm0=1.5, Tmm10=9.0, ht=2.5, Bt=2.0, tt=1.0, rho_rock=2650.0, rho_water=1000.0, cot_alpha_armour_slope=4.0)]
_cw = dict(c1=0.032, c2=0.3, c3=1.0, c4=3.0, c5=1.0)
_lw = dict({k: alt(v) for k, v in _cw.items()}, cot_alpha_armour_slope=[1.2, 1.5, 2.0, 4.0, 5.0])
E("to_vgw_Nod", "toe", TO + "vangentvanderwerf2014", "calculate_damage_Nod", T.vgw_Nod,
  [dict(_vw[0], Dn50=0.6, **_cw), dict(_vw[1], Dn50=0.4)], levels=_lw)
E("to_vgw_Dn", "toe", TO + "vangentvanderwerf2014", "calculate_nominal_diameter_Dn50", T.vgw_Dn, [dict(b, Nod=0.5) for b in _vw],
  out=1.0, levels=_lw)
E("to_vgw_u", "toe", TO + "vangentvanderwerf2014", "calculate_velocity_u_delta", T.vgw_u, [dict(Hs=2.5, Tmm10=7.0, ht=4.0, g=9.81)],
  out=0.5, main=False)

# ====================================================================== rear side ==
_re = [dict(cot_alpha=2.0, cot_phi=2.0, gamma=0.5, Tmm10=9.0, Rc=3.0, Rc2_front=0.5, Rc2_rear=1.0, N_waves=2500),
       dict(cot_alpha=4.0, cot_phi=1.5, gamma=0.6, Tmm10=6.0, Rc=1.5, Rc2_front=0.0, Rc2_rear=0.0, N_waves=1000)]
_lr = dict(Rc2_front=[0.0, 0.5, 1.2], Rc2_rear=[0.0, 0.5, 1.2], Rc=[0.5, 1.5, 3.0, 4.5], Hs=[0.6, 1, 2.0, 3.5, 6.0, 10.0])
E("re_vg07_S", "rear", RE + "vangent2007", "calculate_damage_number_S", RR.vg07_S,
  [dict(_re[0], Hs=3.0, Dn50=0.6), dict(_re[1], Hs=2.0, M50=300.0, rho_rock=2650.0), dict(_re[1], Hs=2.0, M50=300.0),
   dict(_re[1], Hs=2.0)], levels=_lr)
E("re_vg07_Dn", "rear", RE + "vangent2007", "calculate_nominal_rock_diameter_Dn50", RR.vg07_Dn,
  [dict(_re[0], Hs=3.0, S=4.0), dict(_re[1], Hs=2.0, S=8.0)], out=1.0, levels=_lr)
E("re_vg07_H", "rear", RE + "vangent2007", "calculate_maximum_significant_wave_height_Hs", RR.vg07_Hs,
  [dict(_re[0], S=4.0, Dn50=0.6), dict(_re[1], S=8.0, M50=300.0, rho_rock=2650.0)], out=1.0, levels=_lr, iterative=1e-4)
_rp = [dict(cot_alpha=2.0, cot_phi=2.0, gamma_f=0.5, gamma_f_Crest=0.6, Tmm10=9.0, Rc=3.0, Rc_rear=3.0, Bc=4.0, N_waves=2500,
            rho_rock=2650.0, rho_water=1025.0),
       dict(cot_alpha=4.0, cot_phi=3.0, gamma_f=1.0, gamma_f_Crest=1.0, Tmm10=6.0, Rc=1.5, Rc_rear=2.0, Bc=2.0, N_waves=1000,
            rho_rock=2650.0)]
_lp = dict(_lr, Rc_rear=[0.5, 2.0, 4.0], cs=[0.008 ** 6, 0.009 ** 6])
E("re_vgp_S", "rear", RE + "vangentpozueta2004", "calculate_damage_number_S", RR.vgp_S,
  [dict(_rp[0], Hs=3.0, Dn50=0.6, cs=0.008 ** 6), dict(_rp[1], Hs=2.0, M50=300.0), dict(_rp[1], Hs=2.0)], levels=_lp)
E("re_vgp_Dn", "rear", RE + "vangentpozueta2004", "calculate_nominal_rock_diameter_Dn50", RR.vgp_Dn,
  [dict(_rp[0], Hs=3.0, S=4.0, cs=0.008 ** 6), dict(_rp[1], Hs=2.0, S=8.0)], out=1.0, levels=_lp)
E("re_vgp_H", "rear", RE + "vangentpozueta2004", "calculate_maximum_significant_wave_height_Hs", RR.vgp_Hs,
  [dict(_rp[0], S=4.0, Dn50=0.6, cs=0.008 ** 6), dict(_rp[1], S=8.0, M50=300.0)], out=1.0, levels=_lp, iterative=1e-4)

# ====================================================================== core physics ==
CP = "core_physics"
E("cp_s", "core", CP, "calculate_wave_steepness_s", P.wave_steepness, [dict(H=2.0, T=7.0), dict(H=2.0, T=7.0, g=9.81)])
E("cp_ksi", "core", CP, "calculate_Iribarren_number_ksi", P.iribarren, [dict(H=2.0, T=7.0, cot_alpha=2.0)])
E("cp_ksimc", "core", CP, "calculate_critical_Iribarren_number_ksi_mc", P.critical_iribarren,
  [dict(c_pl=6.2, c_s=1.0, P=0.4, cot_alpha=2.0)], levels=dict(c_pl=[6.2, 8.7], c_s=[1.0, 1.4]))
E("cp_Ns", "core", CP, "calculate_stability_number_Ns", P.stability_number, [dict(H=2.0, D=1.0, rho_rock=2650.0, rho_water=1025.0)],
  levels=dict(D=[0.05, 1, 2.5]))
E("cp_Delta", "core", CP, "calculate_buoyant_density_Delta", P.Delta, [dict(rho_rock=2650.0, rho_water=1025.0)])
E("cp_M50", "core", CP, "calculate_M50_from_Dn50", P.M50_from_Dn50, [dict(Dn50=1.0), dict(Dn50=1.5, rho_rock=2650.0)], out=3.0)
E("cp_Dn50", "core", CP, "calculate_Dn50_from_M50", P.Dn50_from_M50, [dict(M50=3000.0), dict(M50=300.0, rho_rock=2650.0)], out=1.0)
E("cp_use", "core", CP, "check_usage_Dn50_or_M50", P.use_Dn50_or_M50, [dict(Dn50=1.0, M50=3000.0, rho_rock=2650.0)], out=1.0,
  levels=dict(Dn50=V["Dn50"] + [NAN], M50=V["M50"] + [NAN], rho_rock=V["rho_rock"] + [NAN]))
E("cp_S", "core", CP, "calculate_S_from_Nod", P.S_from_Nod, [dict(Nod=1.0, G=1.2, nv=0.4)],
  levels=dict(G=[1.0, 1.2, 1.4], nv=[0.3, 0.4, 0.45]))
E("cp_Nod", "core", CP, "calculate_Nod_from_S", P.Nod_from_S, [dict(S=2.0, G=1.2, nv=0.4)],
  levels=dict(G=[1.0, 1.2, 1.4], nv=[0.3, 0.4, 0.45]))
E("cp_stab", "core", CP, "check_usage_stabilitynumber", P.solve_stability,
  [dict(Hs=2.0, Dn=1.0, Delta=1.6, Ns=None), dict(Hs=2.0, Dn=1.0, Delta=None, Ns=2.0), dict(Hs=2.0, Dn=None, Delta=1.6, Ns=2.0),
   dict(Hs=None, Dn=1.0, Delta=1.6, Ns=2.0), dict(Hs=2.0, Dn=1.0, Delta=1.6, Ns=2.0), dict()], out=None,
  levels=dict(Hs=[None, 0.6, 2, 6.0], Dn=[None, 0.3, 1.0, 2], Delta=[None, 1.3, 1.6], Ns=[None, 1.5, 2, 3.0]))
E("cp_L", "core", CP, "calculate_local_wavelength", P.local_wavelength, [dict(T=7.0, h=8.0), dict(T=12.0, h=4.0, g=9.81)], out=1.0,
  levels=dict(h=[0.02, 0.3, 1.5, 4, 8.0, 15.0, 40.0, 200.0, 1e4], T=[0.5, 1.2, 4.0, 6, 9.0, 13.0, 20.0, 60.0, 300.0]))


MODEL_SCALE = 1 / 40.0


def rescale(k, v, s):
    d = DIM.get(k, 0.0)
    return v * s ** d if d and isinstance(v, (int, float)) and not isinstance(v, bool) else v


def rescaled(e, s=MODEL_SCALE):
    """bases and levels of an entry with everything scaled after Froude (laboratory scale)"""
    bases = [{k: rescale(k, v, s) for k, v in b.items()} for b in e.bases]
    levels = {}
    for k, lv in e.levels.items():
        if isinstance(k, tuple):
            levels[k] = [tuple(rescale(n, x, s) for n, x in zip(k, v)) for v in lv]
        else:
            levels[k] = [rescale(k, v, s) for v in lv]
    return bases, levels
