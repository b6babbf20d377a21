"""Run-up reference: TAW (2002), EurOtop (2018), Van Gent (2001)."""
import math

from .phys import (NAN, Refused, Undef, exp, ge, gt, iribarren, isnan, le, ln, lt, min_flag, pw, sqrt)

TAW_RU_DESIGN = (1.75, 4.3, 1.6, 1.0)
TAW_RU_FIT = (1.65, 4.0, 1.5, 1.0)
EUR_RU_DESIGN = (1.75, 4.3, 1.5, 1.07)
EUR_RU_FIT = (1.65, 4.0, 1.5, 1.0)


def gamma_beta_linear(beta, c, max_angle=80.0):
    return 1.0 - c * min(abs(beta), max_angle)


def gamma_beta_eurotop(beta, gamma_f, smooth, rough, crit=0.6, max_angle=80.0):
    return gamma_beta_linear(beta, smooth if gamma_f > crit else rough, max_angle)


def need_gamma_beta(beta, gamma_beta):
    if isnan(beta) and isnan(gamma_beta):
        raise Refused(ValueError)
    return isnan(gamma_beta)


def composite(cot_alpha, down, up):
    if isnan(cot_alpha) and isnan(down):
        raise Refused(ValueError)
    return not isnan(down) and not isnan(up)


def berm_length(Hm0, B, cot_alpha=NAN, down=NAN, up=NAN):
    if not composite(cot_alpha, down, up):
        down = up = cot_alpha
    return Hm0 * down + B + Hm0 * up


def gamma_b_formula(Hm0, z2p, db, B, L):
    if L == 0:
        raise Undef
    x = z2p if db < 0 else 2 * Hm0
    if gt(db, 2 * Hm0) or lt(db, -z2p):
        rdh = 1.0
    else:
        if x == 0:
            raise Undef
        rdh = 0.5 - 0.5 * math.cos(math.pi * db / x)
    return max(min(1.0 - B / L * (1.0 - rdh), 1.0), 0.6)


def gamma_f_adjusted(gamma_f, gamma_b, ksi):
    p = gamma_b * ksi
    if ge(p, 1.8) and le(p, 10.0):
        return gamma_f + (ksi - 1.8) * (1.0 - gamma_f) / 8.2
    return gamma_f


def average_slope(Hm0, z2p, down, up, db):
    rise = 1.5 * Hm0 + z2p
    run = (1.5 * Hm0 - db) * down + (z2p + db) * up
    if rise == 0 or abs(run) < 1e-9:
        raise Undef
    return run / rise


def z2p_rel(ksi, gamma_b, gamma_f, gamma_beta, c):
    c1, c2, c3, c4 = c
    gf = gamma_f_adjusted(gamma_f, gamma_b, ksi)
    a = c1 * gamma_b * gf * gamma_beta * ksi
    b = c4 * gf * gamma_beta * (c2 - c3 / sqrt(ksi))
    return min_flag(a, b)


def _ksi(Hm0, Tmm10, cot):
    k = iribarren(Hm0, Tmm10, cot)
    if k <= 0:
        raise Undef
    return k


SOLVER = {"tight": False}  # tight: run iterations to (near) machine precision


def tol(t):
    return 1e-13 if SOLVER["tight"] else t


def z2p_for_slope(Hm0, Tmm10, down, up, B, db, gamma_f, gamma_beta, c, tolerance=1e-4, max_iter=1000):
    """The documented successive approximation: start at 1.5 Hm0, stop when the change is below the tolerance."""
    z = 1.5 * Hm0
    for _ in range(max_iter + 1):
        L = berm_length(Hm0, B, down=down, up=up)
        gb = gamma_b_formula(Hm0, z, db, B, L)
        cot = average_slope(Hm0, z, down, up, db)
        if cot <= 0:
            raise Undef
        zn = z2p_rel(_ksi(Hm0, Tmm10, cot), gb, gamma_f, gamma_beta, c)[0] * Hm0
        done = abs(zn - z) <= tol(tolerance)
        z = zn
        if done:
            return z
    raise Undef     # the documented iteration does not settle (berm near the run-up level): no claim


def gamma_b_two_pass(Hm0, Tmm10, cot, B, L, db, gamma_f, gamma_beta, c):
    if B == 0.0 or L == 0.0:
        return 1.0
    ksi = _ksi(Hm0, Tmm10, cot)
    z1 = z2p_rel(ksi, 1.0, gamma_f, gamma_beta, c)[0] * Hm0
    gb = gamma_b_formula(Hm0, z1, db, B, L)
    z2 = z2p_rel(ksi, gb, gamma_f, gamma_beta, c)[0] * Hm0
    return gamma_b_formula(Hm0, z2, db, B, L)


def _z2p(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B, db, cot, down, up, c, gb_fun):
    if need_gamma_beta(beta, gamma_beta):
        gamma_beta = gb_fun(beta, gamma_f)
    if composite(cot, down, up):
        z = z2p_for_slope(Hm0, Tmm10, down, up, B, db, gamma_f, gamma_beta, c)
        cot = average_slope(Hm0, z, down, up, db)
    if cot <= 0:
        raise Undef
    ksi = _ksi(Hm0, Tmm10, cot)
    if isnan(gamma_b):
        L = berm_length(Hm0, B, cot, down, up)
        gamma_b = gamma_b_two_pass(Hm0, Tmm10, cot, B, L, db, gamma_f, gamma_beta, c)
    r, flag = z2p_rel(ksi, gamma_b, gamma_f, gamma_beta, c)
    return r, flag, dict(cot_alpha=cot, gamma_b=gamma_b, gamma_beta=gamma_beta)


def taw2002_z2p_diml(Hm0, Tmm10, beta=NAN, gamma_beta=NAN, gamma_b=NAN, gamma_f=1.0, B_berm=0.0, db=0.0,
                     cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN, c1=1.75, c2=4.3, c3=1.6, c4=1.0,
                     use_best_fit=False, aux=None):
    c = TAW_RU_FIT if use_best_fit else (c1, c2, c3, c4)
    r, f, a = _z2p(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                   cot_alpha_up, c, lambda b, gf: gamma_beta_linear(b, 0.0022))
    if aux is not None:
        aux.update(a)
    return r, f


def taw2002_z2p(Hm0, **kw):
    r, f = taw2002_z2p_diml(Hm0=Hm0, **kw)
    return r * Hm0, f


def eurotop2018_z2p_diml(Hm0, Tmm10, beta=NAN, gamma_beta=NAN, gamma_b=NAN, gamma_f=1.0, B_berm=0.0, db=0.0,
                         cot_alpha=NAN, cot_alpha_down=NAN, cot_alpha_up=NAN, c1=1.75, c2=4.3, c3=1.5,
                         c4=1.07, use_best_fit=False, aux=None):
    c = EUR_RU_FIT if use_best_fit else (c1, c2, c3, c4)
    r, f, a = _z2p(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                   cot_alpha_up, c, lambda b, gf: gamma_beta_eurotop(b, gf, 0.0022, 0.0063))
    if aux is not None:
        aux.update(a)
    return r, f


def eurotop2018_z2p(Hm0, **kw):
    r, f = eurotop2018_z2p_diml(Hm0=Hm0, **kw)
    return r * Hm0, f


# ---- Van Gent (2001) ---------------------------------------------------------------------
def vangent2001_zX(H, Tmm10, gamma, cot_alpha, c0, c1):
    ksi = iribarren(H, Tmm10, cot_alpha)
    if lt(ksi, 0.5 * c1 / c0):
        return c0 * ksi * gamma * H
    return (c1 - 0.25 * c1 * c1 / c0 / ksi) * gamma * H


def vangent2001_z1p(Hs, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    return vangent2001_zX(Hs, Tmm10, gamma, cot_alpha, c0, c1)


def vangent2001_z10p(Hs, Tmm10, gamma, cot_alpha, c0=1.1, c1=4.0):
    return vangent2001_zX(Hs, Tmm10, gamma, cot_alpha, c0, c1)


def vangent2001_z2p(Tmm10, gamma, cot_alpha, Hm0=NAN, Hs=NAN, c0=1.35, c1=4.7):
    if isnan(Hm0) == isnan(Hs):
        raise Refused(ValueError)
    if isnan(Hs):
        return vangent2001_zX(Hm0, Tmm10, gamma, cot_alpha, 1.45, 3.8)
    return vangent2001_zX(Hs, Tmm10, gamma, cot_alpha, c0, c1)
