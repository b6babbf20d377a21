"""Rock armour stability reference."""
import math

from .phys import (NAN, Delta, Refused, Undef, critical_iribarren, div, exp, ge, gt, iribarren, isnan, le, ln, lt,
                   pw, sqrt, stability_number, use_Dn50_or_M50, wave_steepness)
from ..nd import choose

from .runup import SOLVER, tol  # noqa: F401


# ---- Hudson (1959) ------------------------------------------------------------------------
def hudson_M(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return rho_armour * (Hs * alpha_Hs) ** 3 / (KD * Delta(rho_armour, rho_water) ** 3 * cot_alpha)


def hudson_Hs(M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return Delta(rho_armour, rho_water) / alpha_Hs * pw(M50 * KD * cot_alpha / rho_armour, 1 / 3)


_HUD = {"rough": ((5, 1.0), (10, 1.08), (15, 1.14), (20, 1.2), (30, 1.29), (40, 1.41), (50, 1.54), (101, 1.54)),
        "smooth": ((5, 1.0), (10, 1.08), (15, 1.19), (20, 1.27), (30, 1.37), (40, 1.47), (50, 1.56), (101, 1.56))}


def hudson_factor(damage_percentage, rock_type="rough"):
    k = rock_type.lower().strip()
    if k not in _HUD:
        raise Refused(ValueError)
    if damage_percentage < 0 or damage_percentage > 100:
        raise Undef
    for upper, f in _HUD[k]:
        if damage_percentage < upper:
            return f
    raise Undef


def hudson_M_dam(Hs, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough", alpha_Hs=1.27):
    return hudson_M(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs) / hudson_factor(damage_percentage, rock_type) ** 3


def hudson_Hs_dam(M50, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough", alpha_Hs=1.27):
    return hudson_Hs(M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs) * hudson_factor(damage_percentage, rock_type)


# ---- Van der Meer (1988), modified (2003) and Van der Meer (2021) --------------------------
def vdm_gamma_N(N_waves):
    if N_waves < 1000:
        return math.sqrt(1000 / N_waves)
    if N_waves > 5000:
        return math.sqrt(N_waves) / (math.sqrt(5000) * 1.3 * (1 - math.exp(-0.00031 * N_waves)))
    return 1.0


def _vdm_S(H, ratio, T, N, cot, P, Dn50, rho_a, rho_w, cpl, cs, gN):
    ksi = iribarren(H, T, cot)
    Ns = stability_number(H, Dn50, rho_a, rho_w) * ratio
    if cot >= 4.0 or lt(ksi, critical_iribarren(cpl, cs, P, cot)):
        x = Ns / (cpl * pw(P, 0.18)) * sqrt(ksi)
    else:
        x = Ns / (cs * pw(P, -0.13) * sqrt(cot)) * pw(ksi, -P)
    return x ** 5 * math.sqrt(N) / gN


def _vdm_Dn(H, ratio, T, N, cot, P, rho_a, rho_w, S, cpl, cs, gN):
    ksi = iribarren(H, T, cot)
    d = pw(gN * S / math.sqrt(N), 0.2)
    D = Delta(rho_a, rho_w)
    if cot >= 4.0 or lt(ksi, critical_iribarren(cpl, cs, P, cot)):
        Ns = cpl * pw(P, 0.18) * d / sqrt(ksi)
    else:
        Ns = cs * pw(P, -0.13) * d * sqrt(cot) * pw(ksi, P)
    return div(H * ratio, D * Ns)


def _vdm_Hs(ratio, T, N, cot, P, rho_a, rho_w, S, Dn50, cpl, cs, gN, g):
    d = pw(gN * S / math.sqrt(N), 0.2)
    DD = Delta(rho_a, rho_w) * Dn50 / ratio
    k0 = 2 * math.pi / (g * T * T)            # s = k0 H, ksi = 1/(cot sqrt(k0 H))
    Hpl = pw(cpl * pw(P, 0.18) * d * sqrt(cot) * pw(k0, 0.25) * DD, 1 / 0.75)
    Hsu = pw(cs * pw(P, -0.13) * d * sqrt(cot) * pw(cot, -P) * pw(k0, -0.5 * P) * DD, 1 / (1 + 0.5 * P))
    if cot >= 4.0:
        return Hpl
    kmc = critical_iribarren(cpl, cs, P, cot)
    if lt(iribarren(Hpl, T, cot), kmc) and lt(iribarren(Hsu, T, cot), kmc):
        return Hpl
    return Hsu


def vdm88_S(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, Dn50=NAN, M50=NAN, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    return _vdm_S(Hs, H2p / Hs, Tm, N_waves, cot_alpha, P, D, rho_armour, rho_water, c_pl, c_s, vdm_gamma_N(N_waves))


def vdm88_Dn(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    return _vdm_Dn(Hs, H2p / Hs, Tm, N_waves, cot_alpha, P, rho_armour, rho_water, S, c_pl, c_s, vdm_gamma_N(N_waves))


def vdm88_Hs(ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, S, Dn50=NAN, M50=NAN, c_pl=8.7, c_s=1.4, g=9.81,
             rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    return _vdm_Hs(ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, rho_water, S, D, c_pl, c_s,
                   vdm_gamma_N(N_waves), g)


def vdmm_S(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=NAN, M50=NAN, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    return _vdm_S(Hs, H2p / Hs, Tmm10, N_waves, cot_alpha, P, D, rho_armour, rho_water, c_pl, c_s, 1.0)


def vdmm_Dn(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    return _vdm_Dn(Hs, H2p / Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, rho_water, S, c_pl, c_s, 1.0)


def vdmm_Hs(ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=NAN, M50=NAN, c_pl=8.4, c_s=1.3, g=9.81,
            rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    return _vdm_Hs(ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, rho_water, S, D, c_pl, c_s, 1.0, g)


def vdm21_S(Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=NAN, M50=NAN, c_pl=6.49, c_s=0.97, c_pl_mult=1.0,
            c_s_mult=1.0):
    return vdmm_S(Hs, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50, M50, c_pl * c_pl_mult, c_s * c_s_mult)


def vdm21_Dn(Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0):
    return vdmm_Dn(Hs, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl * c_pl_mult, c_s * c_s_mult)


def vdm21_Hs(Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=NAN, M50=NAN, c_pl=6.49, c_s=0.97, c_pl_mult=1.0,
             c_s_mult=1.0, g=9.81):
    return vdmm_Hs(1.0, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50, M50, c_pl * c_pl_mult, c_s * c_s_mult, g)


# ---- Etemad-Shahidi et al. (2020) ----------------------------------------------------------
def ets20_Cp(Dn50, Dn50_core):
    return pw(1 + pw(Dn50_core / Dn50, 0.3), 0.6)


def _ets_depth(m, limited):
    if limited:
        if isnan(m):
            raise Refused(ValueError)
        return 1 - 3 * m
    return 1.0


def ets20_S(Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=NAN, M50=NAN, Dn50_core=NAN, M50_core=NAN, rho_core=NAN,
            rho_water=1025.0, m=NAN, use_depth_limited_version=False):
    f = _ets_depth(m, use_depth_limited_version)
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    C = use_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    ksi = iribarren(Hs, Tmm10, cot_alpha)
    r = stability_number(Hs, D, rho_armour, rho_water) / (ets20_Cp(D, C) * f)
    if ge(ksi, 1.8):
        return (r / 3.9) ** 6 * pw(N_waves, 0.6) * ksi ** 2
    return (r / 4.5) ** 6 * pw(N_waves, 0.6) * pw(ksi, 3.5)


def ets20_Dn(Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50_core=NAN, M50_core=NAN, rho_core=NAN, m=NAN,
             use_depth_limited_version=False, Cp_init=0.5, max_iter=1000, tolerance=1e-05):
    f = _ets_depth(m, use_depth_limited_version)
    C = use_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    ksi = iribarren(Hs, Tmm10, cot_alpha)
    D0 = Hs / Delta(rho_armour, 1025.0) / f * pw(N_waves, 0.1) * pw(S, -1 / 6)
    if ge(ksi, 1.8):
        D0 *= pw(ksi, 1 / 3) / 3.9
    else:
        D0 *= pw(ksi, 7 / 12) / 4.5
    Cp, prev = Cp_init, math.inf
    for _ in range(max_iter):
        D = D0 / Cp
        Cp = ets20_Cp(D, C)
        if not abs(D - prev) > tol(tolerance):
            break
        prev = D
    return D


def ets20_Hs(Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=NAN, M50=NAN, Dn50_core=NAN, M50_core=NAN, rho_core=NAN,
             m=NAN, use_depth_limited_version=False, g=9.81):
    f = _ets_depth(m, use_depth_limited_version)
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    C = use_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    k0 = 2 * math.pi / (g * Tmm10 ** 2)
    A = (ets20_Cp(D, C) * f * Delta(rho_armour, 1025.0) * D) ** 6 * pw(N_waves, -0.6) * S
    Hsu = pw(A * 3.9 ** 6 * k0 * cot_alpha ** 2, 1 / 5)
    Hpl = pw(A * 4.5 ** 6 * pw(k0, 1.75) * pw(cot_alpha, 3.5), 4 / 17)
    if lt(iribarren(Hpl, Tmm10, cot_alpha), 1.8) and lt(iribarren(Hsu, Tmm10, cot_alpha), 1.8):
        return Hpl
    return Hsu


# ---- Jumelet et al. (2024) -----------------------------------------------------------------
def jum_Fp(ksi_mm10):
    return -1.7 * ksi_mm10 ** 2 + 3.2 * ksi_mm10 - 0.5


def _round(x):
    f = math.floor(x)
    d = x - f
    if abs(d - 0.5) < 1e-9 * max(1.0, abs(x)):
        half_even = f if f % 2 == 0 else f + 1
        other = f + 1 if half_even == f else f
        return half_even if choose(True) else other
    return f if d < 0.5 else f + 1


def jum_S(Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=NAN, M50=NAN, c_pl=4.3, rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    ksi = iribarren(Hs, Tmm10, cot_alpha)
    n = _round(jum_Fp(ksi) * N_waves)
    return (stability_number(Hs, D, rho_armour, rho_water) * ksi * pw(n, 0.1) / c_pl) ** 5


def jum_Dn(Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, c_pl=4.3):
    ksi = iribarren(Hs, Tmm10, cot_alpha)
    n = _round(jum_Fp(ksi) * N_waves)
    return Hs / Delta(rho_armour, 1025.0) * ksi * pw(n, 0.1) / c_pl * pw(S, -0.2)


def jum_Hs(Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=NAN, M50=NAN, c_pl=4.3, g=9.81, smm10_init=0.03,
           max_iter=1000, tolerance=0.001):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    k0 = 2 * math.pi / (g * Tmm10 ** 2)
    prev = smm10_init / k0
    ksi = iribarren(prev, Tmm10, cot_alpha)
    for _ in range(max_iter):
        n = _round(jum_Fp(ksi) * N_waves)
        H = (c_pl * pw(S, 0.2) * pw(n, -0.1) * cot_alpha * sqrt(k0) * Delta(rho_armour, 1025.0) * D) ** 2
        d = abs(H - prev)
        prev = H
        ksi = iribarren(H, Tmm10, cot_alpha)
        if not d > tol(tolerance):
            break
    return H


# ---- Kramer & Burcharth (2004) -------------------------------------------------------------
def kb_Hs(Rc, rho_armour, Dn50=NAN, M50=NAN):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    r = Rc / D
    return (0.06 * r * r - 0.23 * r + 1.36) * Delta(rho_armour, 1025.0) * D


def kb_Dn(Hs, Rc, rho_armour, Ns_init=2.0, max_iter=1000, tolerance=1e-05):
    A = Hs / Delta(rho_armour, 1025.0)
    D, prev = A / Ns_init, math.inf
    for _ in range(max_iter):
        if D == 0:
            raise Undef
        D = (A - Rc * (0.06 * Rc / D - 0.23)) / 1.36
        if not abs(D - prev) > tol(tolerance):
            return D
        prev = D
    raise Undef  # no convergence: no claim


def kb_Rc(Hs, rho_armour, Dn50=NAN, M50=NAN, Rc_Dn50_init=-1.0, max_iter=1000, tolerance=1e-05):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    A = Hs / Delta(rho_armour, 1025.0)
    Rc, prev = Rc_Dn50_init * D, math.inf
    for _ in range(max_iter):
        den = 0.06 * Rc / D - 0.23
        if abs(den) < 1e-12:
            raise Undef
        Rc = (A - 1.36 * D) / den
        if not abs(Rc - prev) > tol(tolerance):
            return Rc
        prev = Rc
    raise Undef


# ---- Scaravaglione et al. (2025) ------------------------------------------------------------
def sca_S(Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, Dn50=NAN, Dn50_core=NAN, M50=NAN, M50_core=NAN,
          c_VGnew=3.3, rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    C = use_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    s = wave_steepness(Hm0, Tmm10)
    x = stability_number(Hm0, D, rho_armour, rho_water) / (c_VGnew * pw(s, 0.1) * sqrt(cot_alpha) * (1 + C / D))
    return x ** 5 * math.sqrt(N_waves)


def sca_Dn(Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50_core=NAN, M50_core=NAN, c_VGnew=3.3,
           rho_water=1025.0):
    C = use_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    s = wave_steepness(Hm0, Tmm10)
    return (Hm0 / (Delta(rho_armour, rho_water) * c_VGnew * sqrt(cot_alpha) * pw(s, 0.1)
                   * pw(S / math.sqrt(N_waves), 0.2)) - C)


def sca_Hm0(Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50=NAN, Dn50_core=NAN, M50=NAN, M50_core=NAN,
            c_VGnew=3.3, g=9.81, rho_water=1025.0):
    D = use_Dn50_or_M50(Dn50, M50, rho_armour)
    C = use_Dn50_or_M50(Dn50_core, M50_core, rho_core)
    x = (Delta(rho_armour, rho_water) * (D + C) * c_VGnew * sqrt(cot_alpha)
         * pw(2 * math.pi / (g * Tmm10 ** 2), 0.1) * pw(S / math.sqrt(N_waves), 0.2))
    return pw(x, 1 / 0.9)
