"""Transmission and set-up reference."""
import math

from .phys import NAN, Refused, Undef, exp, ge, gt, iribarren, isnan, le, lt, pw, wave_steepness


def dangremond_raw(Hsi, Tpi, Rc, B, cot_alpha, C1=0.64):
    return -0.4 * Rc / Hsi + C1 * pw(B / Hsi, -0.31) * (1 - exp(-0.5 * iribarren(Hsi, Tpi, cot_alpha)))


def dangremond_perm(Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.64):
    return min(max(dangremond_raw(Hsi, Tpi, Rc, B, cot_alpha, C1), 0.075), 0.8)


def dangremond_imp(Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.8):
    return dangremond_perm(Hsi, Tpi, h, Rc, B, cot_alpha, C1)


def briganti(Hsi, Tpi, Rc, B, cot_alpha):
    w = B / Hsi
    if lt(w, 10.0):
        k = dangremond_perm(Hsi, Tpi, NAN, Rc, B, cot_alpha)
    else:
        k = -0.35 * Rc / Hsi + 0.51 * pw(w, -0.65) * (1 - exp(-0.41 * iribarren(Hsi, Tpi, cot_alpha)))
    return max(min(k, 0.93 - 0.006 * w), 0.05)


def goda1967(Hsi, Rc, alpha_1=2.2, beta_1=0.4):
    x = Rc / Hsi
    if le(x, -alpha_1 - beta_1):
        return 1.0
    if le(x, alpha_1 - beta_1):
        return 0.5 * (1 - math.sin(0.5 * math.pi * (x + beta_1) / alpha_1))
    return 0.03


_VG23 = {"impermeable": (0.47, 0.0, 0.5), "permeable": (0.43, -0.25, 0.5), "perforated": (0.13, -0.15, 0.82),
         "perforated_with_screen": (0.4, -0.15, 0.5), "perforated_with_perforated_screen": (0.17, -0.15, 0.76)}


def vangent2023(Hm0, Tmm10, Rc, B, structure_type="permeable"):
    if structure_type not in _VG23:
        raise Refused(ValueError)
    c1, c4, c5 = _VG23[structure_type]
    L = 9.81 * Tmm10 ** 2 / (2 * math.pi)
    return c5 + c1 * math.tanh(-(Rc / Hm0 + 3.1 * pw(B / L, 0.75) + c4))


def setup_imp_diml(Hm0, Tmm10, Rc):
    return 0.34 * pw(wave_steepness(Hm0, Tmm10), 0.4) * pw(Rc / Hm0 + 1.6, 3.5)


def setup_imp(Hm0, Tmm10, Rc):
    return Hm0 * setup_imp_diml(Hm0, Tmm10, Rc)


def setup_perm_diml(Hm0, Tmm10, Rc, hc):
    return 0.22 * pw(wave_steepness(Hm0, Tmm10), 0.2) * pw(hc / Hm0, -0.7) * pw(Rc / Hm0 + 1.5, 1.5)


def setup_perm(Hm0, Tmm10, Rc, hc):
    return Hm0 * setup_perm_diml(Hm0, Tmm10, Rc, hc)
