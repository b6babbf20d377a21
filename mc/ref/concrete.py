"""Concrete armour unit reference."""
import math

from .phys import (NAN, Delta, Dn50_from_M50, M50_from_Dn50, Refused, Undef, div, isnan, lt, pw, wave_steepness)
from ..nd import choose
from . import rock


def M(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
    return rock.hudson_M(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def M_def(Hs, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
    return rock.hudson_M(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def Hs(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
    return rock.hudson_Hs(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def Hs_def(M, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
    return rock.hudson_Hs(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)


def _kd(x, pts):
    if x <= pts[0][0]:
        v = pts[0][1]
    elif x >= pts[-1][0]:
        v = pts[-1][1]
    else:
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            if x <= x1:
                v = y0 + (y1 - y0) * (x - x0) / (x1 - x0)
                break
    # rounded down to one decimal; a value within rounding noise of a tenth may go either way
    t = v / 0.1
    n = round(t)
    if abs(t - n) < 1e-9:
        return (n if choose(True) else n - 1) * 0.1
    return math.floor(t) * 0.1


def kd_16(seabed_slope_perc):
    return _kd(seabed_slope_perc, ((0, 16), (1, 16), (5, 10.66), (10, 9)))


def kd_15(seabed_slope_perc):
    return _kd(seabed_slope_perc, ((0, 15), (1, 15), (5, 9.7), (10, 8)))


# ---- double layer cubes, Van der Meer (1988) -------------------------------------------------
def _cube_Ns(Nod, N, s):
    return (6.7 * pw(Nod, 0.4) / pw(N, 0.3) + 1.0) * pw(s, -0.1)


def cube2_Dn(Hs, Tm, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    return Hs / (Delta(rho_armour, rho_water) * _cube_Ns(Nod, N_waves, wave_steepness(Hs, Tm)))


def cube2_Hs(Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    return _cube_Ns(Nod, N_waves, s0m) * Delta(rho_armour, rho_water) * Dn


def cube2_Nod(Hs, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha):
    Ns = Hs / (Delta(rho_armour, rho_water) * Dn)
    return pw((Ns * pw(s0m, 0.1) - 1) / 6.7 * pw(N_waves, 0.3), 2.5)


# ---- single layer cubes, Van Gent (2002) ----------------------------------------------------
def cube1_M(Hs, rho_water, rho_armour, Ns=2.9):
    return M50_from_Dn50(Hs / (Ns * Delta(rho_armour, rho_water)), rho_armour)


def cube1_M_fail(Hs, rho_water, rho_armour, Ns=3.5):
    return cube1_M(Hs, rho_water, rho_armour, Ns)


def cube1_Hs(M, rho_water, rho_armour, Ns=2.9):
    return Ns * Delta(rho_armour, rho_water) * Dn50_from_M50(M, rho_armour)


def cube1_Hs_fail(M, rho_water, rho_armour, Ns=3.5):
    return cube1_Hs(M, rho_water, rho_armour, Ns)


# ---- Xbloc / XblocPlus ------------------------------------------------------------------------
def xb(c):
    def Hs_V(V, rho_water, rho_armour, total_correction_factor=1.0):
        return c * Delta(rho_armour, rho_water) * pw(V / total_correction_factor, 1 / 3)

    def Hs_M(M, rho_water, rho_armour, total_correction_factor=1.0):
        return Hs_V(M / rho_armour, rho_water, rho_armour, total_correction_factor)

    def V(Hs, rho_water, rho_armour, total_correction_factor=1.0):
        return total_correction_factor * (Hs / (c * Delta(rho_armour, rho_water))) ** 3

    def M(Hs, rho_water, rho_armour, total_correction_factor=1.0):
        return rho_armour * V(Hs, rho_water, rho_armour, total_correction_factor)
    return Hs_V, Hs_M, V, M


xb_Hs_V, xb_Hs_M, xb_V, xb_M = xb(2.77)
xp_Hs_V, xp_Hs_M, xp_V, xp_M = xb(2.5)


def xb_seabed(cot_alpha):
    return 2.0 if cot_alpha <= 10 else 1.5 if cot_alpha <= 15 else 1.25 if cot_alpha <= 20 else 1.1 if cot_alpha <= 30 else 1.0


def xb_seabed_perc(perc_slope):
    # (the implementation may compare slopes or cotangents; on an exact breakpoint either is right)
    c = 100.0 / perc_slope
    for lim, f in ((10, 2.0), (15, 1.5), (20, 1.25), (30, 1.1)):
        if not lt(lim, c):
            return f
    return 1.0


def xb_freeboard(rel_freeboard):
    return 2.0 if rel_freeboard < 0.5 else 1.5 if rel_freeboard < 1.0 else 1.0


def xp_freeboard(rel_freeboard):
    return 1.5 if rel_freeboard < 0.5 else 1.25 if rel_freeboard < 1.0 else 1.0


def xb_depth(rel_depth):
    return 2.0 if rel_depth > 3.5 else 1.5 if rel_depth > 2.5 else 1.0


def xb_freq(design_event_occurs_frequently=False):
    return 1.25 if design_event_occurs_frequently else 1.0


def xb_core(low_core_permeability=False, core_impermeable=False):
    return 2.0 if core_impermeable else 1.5 if low_core_permeability else 1.0


def xp_core(low_core_permeability=False, core_impermeable=False):
    return 1.5 if core_impermeable else 1.25 if low_core_permeability else 1.0


def xb_slope(cot_alpha):
    return 1.25 if cot_alpha > 2 / 3 else 1.5 if cot_alpha > 1 / 2 else 1.0
