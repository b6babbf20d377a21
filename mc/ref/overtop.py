"""Overtopping reference: TAW (2002), EurOtop (2007/2018), De Ridder (2024/2026), Van Gent (2002/2021/2025)."""
import math

from .phys import (NAN, Refused, Undef, exp, ge, gt, iribarren, isnan, le, ln, lt, min_flag, pw, sqrt,
                   wave_steepness)
from . import runup as R


def qscale(H, g):
    return math.sqrt(g * H ** 3)


# ---- TAW (2002) ---------------------------------------------------------------------------
def _taw_common(Hm0, Tmm10, cot, down, up, beta, B, db, gamma_beta, gamma_b, gamma_f, aux):
    if R.need_gamma_beta(beta, gamma_beta):
        gamma_beta = R.gamma_beta_linear(beta, 0.0033)
    c = R.TAW_RU_DESIGN
    if R.composite(cot, down, up):
        z = R.z2p_for_slope(Hm0, Tmm10, down, up, B, db, gamma_f, gamma_beta, c)
        cot = R.average_slope(Hm0, z, down, up, db)
    if cot <= 0:
        raise Undef
    ksi = R._ksi(Hm0, Tmm10, cot)
    if isnan(gamma_b):
        gamma_b = R.gamma_b_two_pass(Hm0, Tmm10, cot, B, R.berm_length(Hm0, B, cot, down, up), db, gamma_f,
                                     gamma_beta, c)
    gf = R.gamma_f_adjusted(gamma_f, gamma_b, ksi)
    if aux is not None:
        aux.update(cot_alpha=cot, gamma_b=gamma_b, gamma_beta=gamma_beta)
    return ksi, cot, gamma_b, gf, gamma_beta


def _taw_coef(use_best_fit, sigma):
    if use_best_fit:
        return 4.75 + 0.5 * sigma, 2.6 + 0.35 * sigma
    return 4.3, 2.3


def taw2002_q_diml(Hm0, Tmm10, Rc, cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN, beta=NAN, B_berm=0.0,
                   db=0.0, gamma_beta=NAN, gamma_b=NAN, gamma_f=1.0, gamma_v=1.0, sigma=0, use_best_fit=False,
                   aux=None):
    c1, c3 = _taw_coef(use_best_fit, sigma)
    ksi, cot, gb, gf, gbeta = _taw_common(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                          gamma_beta, gamma_b, gamma_f, aux)
    a = 0.067 * math.sqrt(cot) * ksi * gb * exp(-c1 * Rc / (Hm0 * ksi * gb * gf * gbeta * gamma_v))
    b = 0.2 * exp(-c3 * Rc / (Hm0 * gf * gbeta))
    return min_flag(a, b)


def taw2002_q(Hm0, g=9.81, **kw):
    r, f = taw2002_q_diml(Hm0=Hm0, **kw)
    return r * qscale(Hm0, g), f


def taw2002_Rc_diml(Hm0, Tmm10, q, cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN, beta=NAN, B_berm=0.0,
                    db=0.0, gamma_beta=NAN, gamma_b=NAN, gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81,
                    use_best_fit=False, aux=None):
    c1, c3 = _taw_coef(use_best_fit, sigma)
    ksi, cot, gb, gf, gbeta = _taw_common(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                          gamma_beta, gamma_b, gamma_f, aux)
    qs = q / qscale(Hm0, g)
    a = -ln(qs / (0.067 * math.sqrt(cot) * gb * ksi)) / c1 * ksi * gb * gf * gbeta * gamma_v
    b = -ln(qs / 0.2) / c3 * gf * gbeta
    return min_flag(a, b)


def taw2002_Rc(Hm0, **kw):
    r, f = taw2002_Rc_diml(Hm0=Hm0, **kw)
    return r * Hm0, f


def taw2002_gamma_v(alpha_wall_deg):
    return 1.0 if alpha_wall_deg <= 45 else 1.35 - 0.0078 * alpha_wall_deg


# ---- EurOtop (2007) rubble mound ----------------------------------------------------------
def _eur07(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha):
    if R.need_gamma_beta(beta, gamma_beta):
        gamma_beta = R.gamma_beta_linear(beta, 0.0022)
    return R.gamma_f_adjusted(gamma_f, 1.0, iribarren(Hm0, Tmm10, cot_alpha)), gamma_beta


def eurotop2007_q_diml(Hm0, Tmm10, Rc, beta=NAN, gamma_beta=NAN, gamma_f=1.0, cot_alpha=NAN, c2=0.2, c3=2.3,
                       use_best_fit=False):
    if use_best_fit:
        c2, c3 = 0.2, 2.6
    gf, gb = _eur07(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha)
    return c2 * exp(-c3 * Rc / (Hm0 * gf * gb))


def eurotop2007_q(Hm0, g=9.81, **kw):
    return eurotop2007_q_diml(Hm0=Hm0, **kw) * qscale(Hm0, g)


def eurotop2007_Rc_diml(Hm0, Tmm10, q, beta=NAN, gamma_beta=NAN, gamma_f=1.0, cot_alpha=NAN, c2=0.2, c3=2.3,
                        use_best_fit=False):
    if use_best_fit:
        c2, c3 = 0.2, 2.6
    gf, gb = _eur07(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha)
    return -ln(q / qscale(Hm0, 9.81) / c2) / c3 * gf * gb


def eurotop2007_Rc(Hm0, **kw):
    return eurotop2007_Rc_diml(Hm0=Hm0, **kw) * Hm0


# ---- EurOtop (2018) -----------------------------------------------------------------------
def _eur_coef(c1, c2, c3, c4, fit):
    return (2.7, 0.09, 1.5, 0.023) if fit else (c1, c2, c3, c4)


def _eur_slope(Hm0, Tmm10, cot, down, up, B, db, gamma_f, gamma_beta, fit):
    if R.composite(cot, down, up):
        z = R.z2p_for_slope(Hm0, Tmm10, down, up, B, db, gamma_f, gamma_beta,
                            R.EUR_RU_FIT if fit else R.EUR_RU_DESIGN)
        cot = R.average_slope(Hm0, z, down, up, db)
    if cot <= 0:
        raise Undef
    return cot


def _eur18(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B, db, cot, down, up, fit):
    if R.need_gamma_beta(beta, gamma_beta):
        gamma_beta = R.gamma_beta_eurotop(beta, gamma_f, 0.0033, 0.0063)
    cot = _eur_slope(Hm0, Tmm10, cot, down, up, B, db, gamma_f, gamma_beta, fit)
    ksi = R._ksi(Hm0, Tmm10, cot)
    if isnan(gamma_b):
        gamma_b = R.gamma_b_two_pass(Hm0, Tmm10, cot, B, R.berm_length(Hm0, B, cot, down, up), db, gamma_f,
                                     gamma_beta, R.EUR_RU_DESIGN)
    return ksi, cot, gamma_b, R.gamma_f_adjusted(gamma_f, gamma_b, ksi), gamma_beta


def eurotop2018_q_diml(Hm0, Tmm10, Rc, beta=NAN, gamma_beta=NAN, gamma_b=NAN, gamma_f=1.0, gamma_v=1.0,
                       gamma_star=1.0, B_berm=0.0, db=0.0, cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN,
                       c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False):
    c1, c2, c3, c4 = _eur_coef(c1, c2, c3, c4, use_best_fit)
    ksi, cot, gb, gf, gbeta = _eur18(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    a = c4 * math.sqrt(cot) * ksi * gb * exp(-pw(c1 * Rc / (Hm0 * ksi * gb * gf * gbeta * gamma_v), 1.3))
    b = c2 * exp(-pw(c3 * Rc / (Hm0 * gf * gbeta * gamma_star), 1.3))
    return min_flag(a, b)


def eurotop2018_q(Hm0, g=9.81, **kw):
    r, f = eurotop2018_q_diml(Hm0=Hm0, **kw)
    return r * qscale(Hm0, g), f


def eurotop2018_Rc_diml(Hm0, Tmm10, q, beta=NAN, gamma_beta=NAN, gamma_b=NAN, gamma_f=1.0, gamma_v=1.0,
                        gamma_star=1.0, B_berm=0.0, db=0.0, cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN,
                        c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False, g=9.81):
    c1, c2, c3, c4 = _eur_coef(c1, c2, c3, c4, use_best_fit)
    ksi, cot, gb, gf, gbeta = _eur18(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    qs = q / qscale(Hm0, g)
    a = pw(-ln(qs / (c4 * math.sqrt(cot) * gb * ksi)), 1 / 1.3) / c1 * ksi * gb * gf * gbeta * gamma_v
    b = pw(-ln(qs / c2), 1 / 1.3) / c3 * gf * gbeta * gamma_star
    return min_flag(a, b)


def eurotop2018_Rc(Hm0, **kw):
    r, f = eurotop2018_Rc_diml(Hm0=Hm0, **kw)
    return r * Hm0, f


def _eur18_rm(Hm0, Tmm10, beta, gamma_beta, gamma_f, B, db, cot, down, up, fit, aux):
    if R.need_gamma_beta(beta, gamma_beta):
        gamma_beta = R.gamma_beta_eurotop(beta, gamma_f, 0.0033, 0.0063)
    cot = _eur_slope(Hm0, Tmm10, cot, down, up, B, db, gamma_f, gamma_beta, fit)
    if aux is not None:
        aux.update(cot_alpha=cot)
    return R.gamma_f_adjusted(gamma_f, 1.0, R._ksi(Hm0, Tmm10, cot)), gamma_beta


def eurotop2018_rm_q_diml(Hm0, Tmm10, Rc, beta=NAN, gamma_beta=NAN, gamma_f=1.0, B_berm=0.0, db=0.0,
                          cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN, c2=0.1035, c3=1.35,
                          use_best_fit=False, aux=None):
    _, c2, c3, _ = _eur_coef(0, c2, c3, 0, use_best_fit)
    gf, gb = _eur18_rm(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up,
                       use_best_fit, aux)
    return c2 * exp(-pw(c3 * Rc / (Hm0 * gf * gb), 1.3))


def eurotop2018_rm_q(Hm0, g=9.81, **kw):
    return eurotop2018_rm_q_diml(Hm0=Hm0, **kw) * qscale(Hm0, g)


def eurotop2018_rm_Rc_diml(Hm0, Tmm10, q, beta=NAN, gamma_beta=NAN, gamma_f=1.0, B_berm=0.0, db=0.0,
                           cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN, c2=0.1035, c3=1.35,
                           use_best_fit=False, g=9.81, aux=None):
    _, c2, c3, _ = _eur_coef(0, c2, c3, 0, use_best_fit)
    gf, gb = _eur18_rm(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up,
                       use_best_fit, aux)
    return pw(-ln(q / qscale(Hm0, g) / c2), 1 / 1.3) / c3 * gf * gb


def eurotop2018_rm_Rc(Hm0, **kw):
    return eurotop2018_rm_Rc_diml(Hm0=Hm0, **kw) * Hm0


# ---- De Ridder et al. (2024) --------------------------------------------------------------
def dr24_q24_diml(Hm0, smm10_HF, gamma_f, Rc):
    return 0.74 * exp(-8.51 * Rc / (Hm0 * gamma_f) * pw(smm10_HF, 0.32))


def dr24_q24(Hm0, smm10_HF, gamma_f, Rc, g=9.81):
    return dr24_q24_diml(Hm0, smm10_HF, gamma_f, Rc) * qscale(Hm0, g)


def dr24_q26_diml(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc):
    return 0.5 * exp(-7.91 * (Rc - 0.21 * Hm0_LF) / (Hm0 * gamma_f) * pw(smm10_HF, 0.3))


def dr24_q26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81):
    return dr24_q26_diml(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc) * qscale(Hm0, g)


def dr24_Rc24_diml(Hm0, smm10_HF, gamma_f, q, g=9.81):
    return -ln(q / qscale(Hm0, g) / 0.74) / (8.51 * pw(smm10_HF, 0.32)) * gamma_f


def dr24_Rc24(Hm0, smm10_HF, gamma_f, q, g=9.81):
    return dr24_Rc24_diml(Hm0, smm10_HF, gamma_f, q, g) * Hm0


def dr24_Rc26(Hm0, smm10_HF, Hm0_LF, gamma_f, q, g=9.81):
    return -ln(q / qscale(Hm0, g) / 0.5) / (7.91 * pw(smm10_HF, 0.3)) * gamma_f * Hm0 + 0.21 * Hm0_LF


# ---- De Ridder et al. (2026) --------------------------------------------------------------
def dr26_gamma_beta(theta):
    return 0.35 + 0.65 * math.cos(math.radians(theta)) ** 2


def dr26_q28_diml(Hm0, smm10_HF, gamma_f, Rc, theta=0.0):
    return 0.16 * exp(-6.93 * Rc / (Hm0 * gamma_f * dr26_gamma_beta(theta)) * pw(smm10_HF, 0.36))


def dr26_q28(Hm0, smm10_HF, gamma_f, Rc, g=9.81, theta=0.0):
    return dr26_q28_diml(Hm0, smm10_HF, gamma_f, Rc, theta) * qscale(Hm0, g)


def dr26_q32_diml(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta=0.0):
    return 0.05 * exp(-10.4 * (Rc - 0.97 * Hm0_LF) / Hm0_HF / (gamma_f * dr26_gamma_beta(theta)) * pw(smm10_HF, 0.5))


def dr26_q32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81, theta=0.0):
    return dr26_q32_diml(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta) * qscale(Hm0_HF, g)


def dr26_Rc28_diml(Hm0, smm10_HF, gamma_f, q, g=9.81, gamma_beta=1.0):
    return -ln(q / qscale(Hm0, g) / 0.16) / (6.93 * pw(smm10_HF, 0.36)) * gamma_f * gamma_beta


def dr26_Rc28(Hm0, smm10_HF, gamma_f, q, g=9.81, theta=0.0):
    return dr26_Rc28_diml(Hm0, smm10_HF, gamma_f, q, g, dr26_gamma_beta(theta)) * Hm0


def dr26_Rc32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, q, g=9.81, theta=0.0):
    return (-ln(q / qscale(Hm0_HF, g) / 0.05) / (10.4 * pw(smm10_HF, 0.5)) * gamma_f * dr26_gamma_beta(theta)
            * Hm0_HF + 0.97 * Hm0_LF)


# ---- Van Gent (2002) velocity -------------------------------------------------------------
def vg02_u(Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return (cu1 * sqrt(g * gamma_f_Crest * (zXp - Rc) / gamma_f)) / (1 + cu2 * Bc / Hs)


# ---- Van Gent (2021) caisson --------------------------------------------------------------
_VG21 = {  # (c, short-crested or crossing): a, b, c_beta, gamma_p(parapet)
    (1.0, True): (0.2, 3.9, 0.75, 0.89), (1.0, False): (0.2, 4.0, 0.8, None),
    (1.3, True): (0.047, 2.57, 0.7, 0.85), (1.3, False): (0.047, 2.7, 0.8, None)}


def _vg21(beta, gamma_beta, Hm0_swell, c, c_swell, short, crossing, parapet):
    if (c, True) not in _VG21:
        raise Refused(ValueError)
    a, b, cb, gp = _VG21[(c, bool(short) or bool(crossing))]
    if parapet and gp is None:
        raise Refused(ValueError)
    gp = gp if parapet else 1.0
    if not crossing:
        swell = 0.0
    else:
        if isnan(Hm0_swell):
            raise Refused(ValueError)
        swell = c_swell * Hm0_swell
    if isnan(gamma_beta):
        gamma_beta = cb / gp + (1 - cb / gp) * math.cos(math.radians(beta)) ** 2
    return a, b, gp, gamma_beta, swell


def vg21_q_diml(Hm0, Rc, beta=NAN, gamma_beta=NAN, Hm0_swell=NAN, c=1.0, c_swell=0.4, short_crested_waves=True,
                crossing_seas=False, parapet=False):
    a, b, gp, gb, sw = _vg21(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)
    return a * exp(-b / (gb * gp) * pw((Rc - sw) / Hm0, c))


def vg21_q(Hm0, g=9.81, **kw):
    return vg21_q_diml(Hm0=Hm0, **kw) * qscale(Hm0, g)


def vg21_Rc_diml(Hm0, q, beta=NAN, gamma_beta=NAN, Hm0_swell=NAN, c=1.0, c_swell=0.4, short_crested_waves=True,
                 crossing_seas=False, parapet=False, g=9.81):
    a, b, gp, gb, sw = _vg21(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)
    return pw(-ln(q / qscale(Hm0, g) / a) * gb * gp / b, 1 / c) + sw / Hm0


def vg21_Rc(Hm0, **kw):
    return vg21_Rc_diml(Hm0=Hm0, **kw) * Hm0


# ---- Van Gent et al. (2025) ---------------------------------------------------------------
def vg25_gamma_beta(beta, c_beta=0.35):
    return c_beta + (1 - c_beta) * math.cos(math.radians(beta)) ** 2


def vg25_gamma_b(Hm0, smm10, Ac, B_berm, BL, c_b1=18.0, c_b2=1.3, c_b3=0.34, c_b4=0.2):
    return 1 - c_b1 * pw(smm10 * B_berm / Hm0, c_b2) * (1 - c_b3 * pw(BL / (smm10 * Ac), c_b4))


def vg25_gamma_f(Dn50, Hm0, smm10, c_f1=0.7, c_f2=0.05, smm10_lim=0.012):
    g1 = 1 - c_f1 * pw(Dn50 / Hm0, c_f2)
    return g1 if ge(smm10, smm10_lim) else g1 + 12 * (smm10_lim - smm10) * (1 - g1)


def vg25_gamma_v(cot_alpha, Rc, Ac, c_v=0.45):
    return 1 + (c_v if cot_alpha <= 4.0 else 0.1125 * cot_alpha) * (Rc - Ac) / Rc


def vg25_gamma_w(Rc, Ac, Hm0, q_diml, c_w1=0.075, c_w2=-0.3):
    return 1 + c_w1 * (Rc - Ac) / Hm0 * pw(q_diml, c_w2)


def _vg25(Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta):
    if isnan(gamma_beta):
        gamma_beta = vg25_gamma_beta(beta)
    ksi = R._ksi(Hm0, Tmm10, cot_alpha)
    s = wave_steepness(Hm0, Tmm10)
    if isnan(gamma_b):
        gamma_b = vg25_gamma_b(Hm0, s, Ac, B_berm, Ac - db)
    if isnan(gamma_f):
        if isnan(Dn50):
            raise Refused(ValueError)
        gamma_f = vg25_gamma_f(Dn50, Hm0, s)
    return ksi, gamma_f, gamma_b, gamma_beta


def vg25_q_diml(Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha=NAN, beta=NAN, B_berm=0.0, db=0.0, Dn50=NAN, gamma_f=NAN,
                gamma_b=NAN, gamma_v=NAN, gamma_beta=NAN, design_calculation=True, include_influence_wind=False):
    ksi, gf, gb, gbe = _vg25(Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    G = gf * gb * gamma_v * gbe
    if G != G or G <= 0:
        raise Undef
    x = (Rc - 0.4 * Hm0_swell) / (G * Hm0)
    q, flag = min_flag(6.8 / cot_alpha * exp(-5.0 * x / ksi), 0.8 / cot_alpha * exp(-2.5 * x / pw(ksi, 0.24)))
    if include_influence_wind:
        q *= vg25_gamma_w(Rc, Ac, Hm0, q)
    if design_calculation:
        q = pw(q, 0.857)
    return q, flag


def vg25_q(Hm0, g=9.81, **kw):
    r, f = vg25_q_diml(Hm0=Hm0, **kw)
    return r * qscale(Hm0, g), f


def vg25_Rc_diml(Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha=NAN, beta=NAN, B_berm=0.0, db=0.0, Dn50=NAN, gamma_f=NAN,
                 gamma_b=NAN, gamma_v=NAN, gamma_beta=NAN, g=9.81, design_calculation=True,
                 include_influence_wind=False, max_iter=1000, tolerance=1e-5):
    ksi, gf, gb, gbe = _vg25(Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    G = gf * gb * gamma_v * gbe
    if G != G or G <= 0:
        raise Undef
    qd = q / qscale(Hm0, g)
    if design_calculation:
        qd = pw(qd, 1 / 0.857)
    sw = 0.4 * Hm0_swell / Hm0

    def inv(qx):
        return min_flag(-ln(qx * cot_alpha / 6.8) / 5.0 * G * ksi + sw,
                        -ln(qx * cot_alpha / 0.8) / 2.5 * G * pw(ksi, 0.24) + sw)
    if not include_influence_wind:
        return inv(qd)
    # the freeboard and the discharge without wind are solved together by successive substitution
    q0, prev, n = qd, None, 0
    while n < max_iter:
        n += 1
        r, flag = inv(q0)
        if prev is not None and abs(r - prev) <= R.tol(tolerance):
            return r, flag
        prev = r
        gw = vg25_gamma_w(r * Hm0, Ac, Hm0, q0)
        if not gw > 0:
            raise Undef
        q0 = qd / gw
    raise Undef


def vg25_Rc(Hm0, **kw):
    r, f = vg25_Rc_diml(Hm0=Hm0, **kw)
    return r * Hm0, f


# ---- helper equations ---------------------------------------------------------------------
def vg25_qmax(Hm0, Hm0_swell, ksi_mm10, cot_alpha, Rc, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5):
    return c2 / cot_alpha * exp(c3 * (Rc - 0.4 * Hm0_swell) / Hm0 / (gamma_f * gamma_b * gamma_v * gamma_beta * pw(ksi_mm10, 0.24)))


def vg25_Rcmax(Hm0, Hm0_swell, q, cot_alpha, ksi_mm10, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5, g=9.81):
    return (ln(cot_alpha * q / (c2 * qscale(Hm0, g))) / c3 * gamma_f * gamma_b * gamma_v * gamma_beta * pw(ksi_mm10, 0.24)
            + 0.4 * Hm0_swell / Hm0)


def vg21_gamma_beta(beta, gamma_p, c_beta):
    return c_beta / gamma_p + (1 - c_beta / gamma_p) * math.cos(math.radians(beta)) ** 2


def taw_qmax(Hm0, Rc, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2):
    return c2 * exp(-(c3 + cor3) * Rc / Hm0 / (gamma_f * gamma_beta))


def taw_Rcmax(Hm0, q, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2, g=9.81):
    return -ln(q / (c2 * qscale(Hm0, g))) / (c3 + cor3) * gamma_f * gamma_beta


def e18_qmax(Hm0, Rc, gamma_beta=NAN, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35):
    return c2 * exp(-pw(c3 * Rc / Hm0 / (gamma_f * gamma_beta * gamma_star), 1.3))


def e18_Rcmax(Hm0, q, gamma_beta=NAN, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35, g=9.81):
    return pw(-ln(q / (c2 * qscale(Hm0, g))), 1 / 1.3) / c3 * gamma_f * gamma_beta * gamma_star
