"""Toe berm stability reference."""
import math

from .phys import NAN, Delta, Refused, Undef, div, exp, local_wavelength, pw, sqrt, wave_steepness
from .rock import tol


# ---- Etemad-Shahidi et al. (2021) ----
def _ets(Hs, s, h, ht, Bt, m, c2, c3, c4, c6, c7):
    return c2 * pw(ht / h, c3) * pw(s, c4) * pw(Bt / Hs, c6) * (1 - c7 * m)


def ets21_Nod(Hs, Tmm10, h, ht, Bt, m, Dn50, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=1.75, c4=1 / 6,
              c5=0.4, c6=-0.1, c7=3.7):
    Ns = Hs / (Delta(rho_rock, rho_water) * Dn50)
    s = wave_steepness(Hs, Tmm10, g)
    return pw(div(Ns - c1, _ets(Hs, s, h, ht, Bt, m, c2, c3, c4, c6, c7)), 1 / c5)


def ets21_Dn(Hs, Tmm10, h, ht, Bt, Nod, m, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=1.75, c4=1 / 6,
             c5=0.4, c6=-0.1, c7=3.7):
    s = wave_steepness(Hs, Tmm10, g)
    return Hs / (Delta(rho_rock, rho_water) * (c1 + _ets(Hs, s, h, ht, Bt, m, c2, c3, c4, c6, c7) * pw(Nod, c5)))


def ets21_Hs(Tmm10, h, ht, Bt, Nod, m, Dn50, rho_rock, rho_water=1025.0, g=9.81, c1=1.2, c2=11.2, c3=1.75, c4=1 / 6,
             c5=0.4, c6=-0.1, c7=3.7, smm10_init=0.03, max_iter=1000):
    s = smm10_init
    H = s * Tmm10 ** 2 * g / (2 * math.pi)
    D = Delta(rho_rock, rho_water)
    for _ in range(max_iter):
        n = D * Dn50 * (c1 + _ets(H, s, h, ht, Bt, m, c2, c3, c4, c6, c7) * pw(Nod, c5))
        if n <= 0:
            raise Undef
        s = wave_steepness(n, Tmm10, g)
        if not abs(n - H) > tol(0.001):
            return n
        H = n
    raise Undef


# ---- Gerding (1993) ----
def ger_Nod(Hs, ht, h, Dn50, rho_rock, rho_water):
    return pw(div(Hs / (Delta(rho_rock, rho_water) * Dn50), 1.6 + 0.24 * ht / Dn50), 1 / 0.15)


def ger_Dn(Hs, ht, h, Nod, rho_rock, rho_water):
    return (Hs / (Delta(rho_rock, rho_water) * pw(Nod, 0.15)) - 0.24 * ht) / 1.6


def ger_Hs(Dn50, ht, h, Nod, rho_rock, rho_water):
    return pw(Nod, 0.15) * Delta(rho_rock, rho_water) * (1.6 * Dn50 + 0.24 * ht)


def ger_ht(Hs, Dn50, h, Nod, rho_rock, rho_water):
    return (Hs / (Delta(rho_rock, rho_water) * pw(Nod, 0.15)) - 1.6 * Dn50) / 0.24


# ---- Takahashi et al. (1990) ----
def tak_Ns(Hs, Tp, hacc, Bt, beta, g=9.81):
    b = math.radians(beta)
    k = 2 * math.pi / local_wavelength(Tp, hacc, g)
    x = 2 * k * hacc
    if x > 600:
        raise Undef
    k1 = x / math.sinh(x)
    ph = k * Bt * math.cos(b)
    k2 = max(0.45 * math.sin(b) ** 2 * math.cos(ph) ** 2, math.cos(b) ** 2 * math.sin(ph) ** 2)
    kap = k1 * k2
    if kap <= 0:
        raise Undef
    a = (1 - kap) / pw(kap, 1 / 3)
    bb = (1 - kap) ** 2 / pw(kap, 1 / 3)
    return max(1.8, 1.3 * a * hacc / Hs + 1.8 * math.exp(-1.5 * bb * hacc / Hs))


def tak_Dn(Hs, Tp, hacc, Bt, rho_rock, rho_water, beta, g=9.81):
    return Hs / (tak_Ns(Hs, Tp, hacc, Bt, beta, g) * Delta(rho_rock, rho_water))


# ---- Van der Meer (1998) ----
def vdm98_Nod(Hs, ht, h, Dn50, rho_rock, rho_water):
    return pw(Hs / (Delta(rho_rock, rho_water) * Dn50) / (2 + 6.2 * pw(ht / h, 2.7)), 1 / 0.15)


def vdm98_Dn(Hs, ht, h, Nod, rho_rock, rho_water):
    return Hs / (Delta(rho_rock, rho_water) * (2 + 6.2 * pw(ht / h, 2.7)) * pw(Nod, 0.15))


def vdm98_Hs(Dn50, ht, h, Nod, rho_rock, rho_water):
    return (2 + 6.2 * pw(ht / h, 2.7)) * Delta(rho_rock, rho_water) * Dn50 * pw(Nod, 0.15)


def vdm98_ht(Hs, Dn50, h, Nod, rho_rock, rho_water):
    x = (Hs / (Delta(rho_rock, rho_water) * Dn50 * pw(Nod, 0.15)) - 2) / 6.2
    if abs(x) < 1e-9:
        raise Undef
    return h * pw(x, 1 / 2.7) if x > 0 else NAN


# ---- Van Gent & Van der Werf (2014) ----
def vgw_u(Hs, Tmm10, ht, g=9.81):
    kh = (2 * math.pi) ** 2 / (g * Tmm10 ** 2) * ht
    if kh > 600 or kh == 0:
        raise Undef
    return math.pi * Hs / Tmm10 / math.sinh(kh)


def vgw_Nod(Hm0, Tmm10, ht, Bt, tt, Dn50, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81, c1=0.032, c2=0.3,
            c3=1.0, c4=3.0, c5=1.0):
    u = vgw_u(Hm0, Tmm10, ht, g) / sqrt(g * Hm0)
    return (c1 * pw(Bt / Hm0, c2) * pw(tt / Hm0, c3) * pw(Hm0 / (Delta(rho_rock, rho_water) * Dn50), c4) * pw(u, c5))


def vgw_Dn(Hm0, Tmm10, ht, Bt, tt, Nod, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81):
    u = vgw_u(Hm0, Tmm10, ht, g) / sqrt(g * Hm0)
    return (0.32 * Hm0 / Delta(rho_rock, rho_water) * pw(Bt / Hm0, 0.1) * pw(tt / Hm0 / Nod * u, 1 / 3))
