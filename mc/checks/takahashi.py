"""Takahashi (1990) inverse searches: the returned value solves the stability equation of the reference model."""
import itertools
import math

from .. import engine
from ..ref import toe
from ..ref.phys import Delta, Undef
from ..run import Result

MOD = "structural.stability_toe_berm.takahashi1990_caisson"
LV = (
    dict(Dn50=[0.05, 0.5, 1.5], Tp=[4.0, 9.0, 16.0], hacc=[1.0, 5.0, 15.0], Bt=[0.5, 5.0, 15.0], rho_rock=[2650.0],
         rho_water=[1025.0], beta=[0.0, 20, 60.0], g=[9.81]),
    dict(Dn50=[0.05, 0.3, 0.5, 1, 1.5, 2.5], Tp=[3.0, 4.0, 6, 9.0, 13.0, 16.0, 20.0], hacc=[1.0, 3, 5.0, 8.0, 15.0],
         Bt=[0.5, 2, 5.0, 10.0, 15.0], rho_rock=[2000.0, 2650, 3100.0], rho_water=[1000, 1025.0],
         beta=[-30.0, 0.0, 20, 45.0, 60.0, 90.0], g=[9.81, 1.62]))
LH = (
    dict(Dn50=[0.05, 0.3, 0.6, 1.2], Tp=[4.0, 9.0, 16.0], Hs=[0.6, 2.0, 4.5], Bt=[0.5, 5.0, 15.0], rho_rock=[2650.0],
         rho_water=[1025.0], beta=[0.0, 20, 60.0], g=[9.81]),
    dict(Dn50=[0.05, 0.2, 0.3, 0.45, 0.6, 0.9, 1.2, 2], Tp=[3.0, 4.0, 6, 9.0, 13.0, 16.0], Hs=[0.05, 0.6, 1, 2.0, 3.0, 4.5],
         Bt=[0.5, 2, 5.0, 10.0, 15.0], rho_rock=[2000.0, 2650, 3100.0], rho_water=[1000, 1025.0], beta=[-30.0, 0.0, 20, 45.0, 60.0],
         g=[9.81, 1.62]))


def _Ns(st, Hs, hacc):
    try:
        return toe.tak_Ns(Hs, st["Tp"], hacc, st["Bt"], st["beta"], st["g"])
    except (Undef, ZeroDivisionError, OverflowError, ValueError):
        return None


def check_Hs(f, st):
    kind, v = engine.guarded(f, st)
    if kind == "exc":
        return "raised %s: %s" % (type(v).__name__, v)
    try:
        v = float(v)
    except (TypeError, ValueError):
        return "not a number: %r" % (v,)
    if not v > 0:
        return "wave height %r" % v
    ns = _Ns(st, v, st["hacc"])
    if ns is None:
        return None
    res = abs(ns * Delta(st["rho_rock"], st["rho_water"]) * st["Dn50"] - v)
    if res > 0.004 + 1e-4 * v:
        return "Hs=%r is not at the limit of stability: residual %.4f m" % (v, res)
    return None


def check_hacc(f, st):
    ns = st["Hs"] / (Delta(st["rho_rock"], st["rho_water"]) * st["Dn50"])
    step = st["Hs"] / 20
    lim = st["g"] * st["Tp"] ** 2 / (2 * math.pi)
    # first crossing of the required stability number on the documented coarse grid, in the model
    h = step
    a = _Ns(st, st["Hs"], h)
    if a is None or abs(a - ns) < 1e-9:
        return "skip"
    below = ns < a
    cross = None
    while h <= lim:
        h += step
        b = _Ns(st, st["Hs"], h)
        if b is None or abs(b - ns) < 1e-9:
            return "skip"
        if (ns < b) != below:
            cross = h
            break
    kind, v = engine.guarded(f, st)
    if kind == "exc":
        return "raised %s: %s" % (type(v).__name__, v)
    try:
        v = float(v)
    except (TypeError, ValueError):
        return "not a number: %r" % (v,)
    if cross is None:
        return None if v != v else "found depth %r, but the toe is stable (or unstable) at every depth" % v
    if v != v:
        return "no depth found, but stability changes at about %.3f m" % cross
    fine = min(step, 0.001)
    if not cross - step - 2 * fine <= v <= cross + 2 * fine:
        return "depth %r is not the first change of stability (%.4f..%.4f)" % (v, cross - step, cross)
    pts = [_Ns(st, st["Hs"], v + d * fine) for d in (-1.5, -1.0, -0.5, 0.0, 0.5)]
    if any(x is None for x in pts):
        return None
    d = [ns - x for x in pts]
    if (min(d) > 0 or max(d) < 0) and min(abs(x) for x in d) > 1e-3:
        return "depth %r is not at the limit of stability" % v
    return None


CASES = {"to_tak_Hs": ("calculate_significant_wave_height_Hs", LV, check_Hs),
         "to_tak_hacc": ("calculate_significant_depth_above_toe_hacc", LH, check_hacc)}


def job(name, part):
    fn, _, chk = CASES[name]
    r = Result(name)
    try:
        f = engine.impl(MOD, fn)
    except (engine.Missing, ImportError, SyntaxError) as e:
        r.violation("missing:" + name, {}, "the computation is not available: %r" % e)
        return r
    for st in part:
        r.states += 1
        r.transitions += len(st)
        d = chk(f, st)
        if d == "skip":
            r.undefined += 1
            continue
        r.validated += 1
        if d:
            r.violation("rt:" + name, st, "%s %s" % (name, d))
    return r


def jobs(tier):
    out = []
    for name, (fn, lv, _) in CASES.items():
        lv = lv[tier == "thorough"]
        allst = [dict(zip(lv, v)) for v in itertools.product(*lv.values())]
        for i in range(0, len(allst), 20):
            out.append(lambda n=name, p=allst[i:i + 20]: job(n, p))
    return out
