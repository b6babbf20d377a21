"""Rear side rock stability reference: Van Gent (2007), Van Gent & Pozueta (2004)."""
import math

from .phys import NAN, Delta, Refused, Undef, div, exp, iribarren, lt, pw, sqrt, use_Dn50_or_M50
from .rock import tol
from .overtop import vg02_u
from .runup import vangent2001_z1p


def _factor(Rc, Rc2_front, Rc2_rear, Hs):
    return div(1 + 5 * div(Rc2_rear, Rc - Rc2_rear), 1 + div(Rc2_front, Hs))


def vg07_S(cot_alpha, cot_phi, gamma, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=NAN, M50=NAN, rho_rock=NAN):
    D = use_Dn50_or_M50(Dn50, M50, rho_rock)
    z = vangent2001_z1p(Hs, Tmm10, gamma, cot_alpha)
    return (0.00025 * pw(cot_phi, 1.25) * ((z - Rc) / D) ** 2 * sqrt(Rc / D)
            * _factor(Rc, Rc2_front, Rc2_rear, Hs) * math.sqrt(N_waves))


def vg07_Dn(cot_alpha, cot_phi, gamma, S, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves):
    z = vangent2001_z1p(Hs, Tmm10, gamma, cot_alpha)
    return (0.036 * sqrt(cot_phi) * pw(z - Rc, 0.8) * pw(Rc, 0.2) * pw(_factor(Rc, Rc2_front, Rc2_rear, Hs), 0.4)
            * pw(S / math.sqrt(N_waves), -0.4))


def _inv_z1p(H, z, T, gamma, cot):
    ksi = iribarren(H, T, cot)
    if lt(ksi, 0.5 * 5.1 / 1.45):
        return z / (1.45 * ksi * gamma)
    return z / ((5.1 - 0.25 * 5.1 ** 2 / 1.45 / ksi) * gamma)


class NotSettled(Undef):
    """every pass is defined, but the limit is reached before the change is below the tolerance"""


def _iterate(H, step, tolerance, max_iterations):
    for _ in range(max_iterations):
        n = step(H)
        if n != n or n <= 0:
            raise Undef
        if abs(n - H) <= tol(tolerance):
            return n
        H = n
    raise NotSettled


def vg07_Hs(cot_alpha, cot_phi, gamma, S, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=NAN, M50=NAN, rho_rock=NAN,
            tolerance=1e-4, max_iterations=10000):
    D = use_Dn50_or_M50(Dn50, M50, rho_rock)

    def step(H):
        x = (S / math.sqrt(N_waves) / 0.00025 * pw(cot_phi, -1.25) * pw(Rc / D, -0.5)
             / _factor(Rc, Rc2_front, Rc2_rear, H))
        return _inv_z1p(H, D * sqrt(x) + Rc, Tmm10, gamma, cot_alpha)
    return _iterate(Rc2_front if Rc2_front > 0 else Rc, step, tolerance, max_iterations)


CS = 0.008 ** 6


def vgp_S(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, Hs, Tmm10, Rc, Rc_rear, Bc, N_waves, Dn50=NAN, M50=NAN,
          rho_rock=NAN, rho_water=1025.0, cs=CS):
    D = use_Dn50_or_M50(Dn50, M50, rho_rock)
    u = vg02_u(Hs, vangent2001_z1p(Hs, Tmm10, gamma_f, cot_alpha), Rc, Bc, gamma_f, gamma_f_Crest)
    return (cs * (u * Tmm10 / (sqrt(Delta(rho_rock, rho_water)) * D)) ** 6 * pw(cot_phi, -2.5)
            * (1 + 10 * exp(-Rc_rear / Hs)) * math.sqrt(N_waves))


def vgp_Dn(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Hs, Tmm10, Rc, Rc_rear, Bc, rho_rock, N_waves,
           rho_water=1025.0, cs=CS):
    u = vg02_u(Hs, vangent2001_z1p(Hs, Tmm10, gamma_f, cot_alpha), Rc, Bc, gamma_f, gamma_f_Crest)
    return (pw(cs / (S / math.sqrt(N_waves)) * (1 + 10 * exp(-Rc_rear / Hs)) * pw(cot_phi, -2.5), 1 / 6)
            * u * Tmm10 / sqrt(Delta(rho_rock, rho_water)))


def vgp_Hs(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Tmm10, Rc, Rc_rear, Bc, N_waves, Dn50=NAN, M50=NAN,
           rho_rock=NAN, rho_water=1025.0, cs=CS, tolerance=1e-4, max_iterations=10000):
    D = use_Dn50_or_M50(Dn50, M50, rho_rock)

    def step(H):
        u = (pw(S / cs / math.sqrt(N_waves) * pw(cot_phi, 2.5) / (1 + 10 * exp(-Rc_rear / H)), 1 / 6)
             * sqrt(Delta(rho_rock, rho_water)) * D / Tmm10)
        z = (u * (1 + 0.1 * Bc / H) / 1.7) ** 2 / (9.81 * gamma_f_Crest) * gamma_f + Rc
        return _inv_z1p(H, z, Tmm10, gamma_f, cot_alpha)
    return _iterate((Rc + 0.5) / (2.552 * gamma_f), step, tolerance, max_iterations)
