"""Caisson (Goda) and crest wall (Van Gent & Van der Werf 2019) force reference."""
import math

from .phys import (NAN, Refused, Undef, div, exp, ge, gt, iribarren, isnan, le, local_wavelength, lt, pw, sqrt)
from .runup import vangent2001_zX


def goda_impulsive(beta, B1, L, cota_seabed, s0, Rc, Hsi, d, h_s):
    """which of the two impulsive-breaking conditions of Goda holds: 0 (none), 1 or 2."""
    if not any(isnan(v) for v in (beta, B1, L, cota_seabed, s0, Rc, Hsi)):
        if beta < 20 and lt(B1 / L, 0.02) and cota_seabed < 50 and s0 < 0.03 and gt(Rc / Hsi, 0.3):
            return 1
    if not any(isnan(v) for v in (beta, B1, L, d, h_s, Rc, Hsi)):
        if beta < 20 and gt(B1 / L, 0.02) and lt(B1 / L, 0.3) and lt(d / h_s, 0.6) and gt(Rc / Hsi, 0.3):
            return 2
    return 0


def goda_pressures(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup,
                   offshore_wave_steepness=NAN, g=9.81):
    beta = abs(beta)
    cb = math.cos(math.radians(max(beta - 15.0, 0.0)))
    hb = h_s + 5 * Hsi / cota_seabed
    eta = 0.75 * (1 + cb) * HD
    L = local_wavelength(Tmax, h_s, g)
    kh = 2 * math.pi * h_s / L
    a1 = 0.6 + 0.5 * (2 * kh / math.sinh(2 * kh)) ** 2
    a2 = min((hb - d) / (3 * hb) * (HD / d) ** 2, 2 * d / HD)
    a3 = 1 - hacc / h_s * (1 - 1 / math.cosh(kh))
    p1 = 0.5 * (1 + cb) * (a1 + a2 * cb * cb) * rho_water * g * HD
    p2 = p1 / math.cosh(kh)
    p3 = a3 * p1
    if eta == 0:
        raise Undef
    p4 = max(p1 * (1 - Rc / eta), 0.0) if p1 >= 0 else (p1 * (1 - Rc / eta) if eta > Rc else 0.0)
    hc = min(eta, Rc)
    pu = 0.5 * (1 + cb) * a1 * a3 * rho_water * g * HD
    FH = 0.5 * (p1 + p3) * hacc + 0.5 * (p1 + p4) * hc
    MH = (2 * p1 + p3) * hacc ** 2 / 6 + 0.5 * (p1 + p4) * hacc * hc + (p1 + 2 * p4) * hc ** 2 / 6
    FU = 0.5 * pu * Bup
    MU = FU * Bup * 2 / 3
    imp = goda_impulsive(beta, B1, L, cota_seabed, offshore_wave_steepness, Rc, Hsi, d, h_s)
    return dict(FH=FH, FU=FU, MH=MH, MU=MU, p1=p1, p2=p2, p3=p3, p4=p4, hstar_c=hc, pu=pu, h_5Hs=hb, etastar=eta,
                L=L, alpha1=a1, alpha2=a2, alpha3=a3, impulsive_breaking=imp != 0, _imp=imp)


_ORDER = ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "hstar_c", "pu", "h_5Hs", "etastar", "L", "alpha1",
          "alpha2", "alpha3", "impulsive_breaking")


def goda_pressures_tuple(**kw):
    r = goda_pressures(**kw)
    return tuple(r[k] for k in _ORDER)


def goda_bearing(Wup, tup, MH, MU, FU, Bup):
    Me = Wup * tup - MU - MH
    We = Wup - FU
    te = div(Me, We)
    if le(te, Bup / 3):
        pe = div(2 * We, 3 * te)
    else:
        pe = 2 * We / Bup * (2 - 3 * te / Bup)
    return pe, Me, We, te


def goda_Wup(hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g=9.81):
    return Bup * g * (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL)


def goda_safety(FU, FH, Wup, muf, tup, MH, MU):
    return muf * (Wup - FU) / FH, (Wup * tup - MU) / MH


def goda_full(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, rho_fill_above_SWL=2400,
              rho_fill_below_SWL=2100, offshore_wave_steepness=NAN, muf=0.6, tup_over_Bup=0.5, g=9.81):
    r = goda_pressures(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup,
                       offshore_wave_steepness, g)
    tup = tup_over_Bup * Bup
    W = goda_Wup(hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g)
    pe, Me, We, te = goda_bearing(W, tup, r["MH"], r["MU"], r["FU"], Bup)
    ss, so = goda_safety(r["FU"], r["FH"], W, muf, tup, r["MH"], r["MU"])
    r.update(tup=tup, Wup=W, pe=pe, Me=Me, We=We, te=te, SF_sliding=ss, SF_overturning=so)
    return r


def goda_full_tuple(**kw):
    r = goda_full(**kw)
    return tuple(r[k] for k in ("FH", "FU", "MH", "MU", "p1", "pe", "pu", "impulsive_breaking", "SF_sliding",
                                "SF_overturning"))


def goda_full_dict(**kw):
    kw = dict(kw)
    kw.pop("return_dict", None)
    r = goda_full(**kw)
    r.pop("_imp")
    r.update({k: kw[k] for k in ("HD", "Hsi", "Tmax", "beta", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc")})
    r["B_up"] = kw["Bup"]
    r["g"] = kw.get("g", 9.81)
    return r


def goda_pressures_dict(**kw):
    kw = dict(kw)
    kw.pop("return_dict", None)
    r = goda_pressures(**kw)
    r.pop("_imp")
    r.update({k: kw[k] for k in ("HD", "Hsi", "Tmax", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc", "Bup")})
    r["beta"] = abs(kw["beta"])
    r["g"] = kw.get("g", 9.81)
    return r


# ---- crest wall ---------------------------------------------------------------------------
def cw_gamma_F(z2p, Ac, beta, gamma_A):
    return div((0.5 * math.cos(math.radians(beta)) ** 2 + 0.5) * z2p - gamma_A * Ac, z2p - gamma_A * Ac)


def cw_gamma_FH(z2p, Ac, beta, gamma_A=1.0):
    return cw_gamma_F(z2p, Ac, beta, gamma_A)


def cw_gamma_FV(z2p, Ac, beta, gamma_A=0.75):
    return cw_gamma_F(z2p, Ac, beta, gamma_A)


def cw_gamma_beta(beta, c_beta=0.5):
    return c_beta + (1 - c_beta) * math.cos(math.radians(beta)) ** 2


def cw_FH_z(Hm0, z2p, Ac, Rc, Hwall, rho_water=1025.0, g=9.81, cFH=1.0):
    return max(cFH * rho_water * g * Hwall * (z2p - Ac), 0.0)


def cw_FH(Hm0, Tmm10, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, rho_water=1025.0,
          g=9.81, cFH=1.0):
    z = vangent2001_zX(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return cw_FH_z(Hm0, z, Ac, Rc, Hwall, rho_water, g, cFH)


def cw_FH_obl(Hm0, Tmm10, beta, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFH=1.0,
              rho_water=1025.0, g=9.81):
    z = vangent2001_zX(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return max(cw_gamma_FH(z, Ac, beta) * cw_FH_z(Hm0, z, Ac, Rc, Hwall, rho_water, g, cFH), 0.0)


def cw_FV_z(z2p, Ac, Bwall, Fb, cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81):
    return max(cFV * rho_water * g * Bwall * (z2p - 0.75 * Ac) * (1 - pw(Fb / Ac, cFb)), 0.0)


def cw_FV(Hm0, Tmm10, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFV=0.4, cFb=0.5,
          rho_water=1025.0, g=9.81):
    z = vangent2001_zX(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return cw_FV_z(z, Ac, Bwall, Fb, cFV, cFb, rho_water, g)


def cw_FV_obl(Hm0, Tmm10, beta, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFV=0.4,
              cFb=0.5, rho_water=1025.0, g=9.81):
    z = vangent2001_zX(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return max(cw_gamma_FV(z, Ac, beta) * cw_FV_z(z, Ac, Bwall, Fb, cFV, cFb, rho_water, g), 0.0)


def cw_FH01(FH2p):
    return 1.6 * FH2p


def cw_FV01(FV2p, s0p):
    return (2.88 - 32 * s0p) * FV2p
