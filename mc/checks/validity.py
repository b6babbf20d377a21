"""Validity warnings: a result outside a documented validity range is announced, one inside is not."""
import math
import re
import warnings

from .. import cat, conf, engine
from ..ref import validity as VR
from ..ref.phys import Refused, Undef
from ..run import Result
from .base import Spec, batches, unstate
from .relate import Relation

PAT = re.compile(r"^Value of (.*) \((.*?)\) is outside of the validity range \((.*) - (.*?)\) for the (.*) formula\.$", re.S)


def emitted(rec):
    """[(label, formula, value, lo, hi)] of the recorded validity warnings, other texts"""
    out, other = [], []
    for w in rec:
        if not issubclass(w.category, UserWarning):
            continue
        m = PAT.match(str(w.message))
        if not m:
            other.append(str(w.message))
            continue
        nums = []
        for s in (m.group(2), m.group(3), m.group(4)):
            try:
                nums.append(float(s))
            except ValueError:
                nums.append(None)
        out.append((m.group(1), m.group(5), *nums))
    return out, other


def near(x, b, rel):
    return abs(b) != math.inf and abs(x - b) <= rel * max(abs(b), abs(x)) + (1e-12 if rel < 1e-6 else 1e-9)


def judge(rules, env, got, may, rel, lenient=False, count=None):
    """None or a description of the first disagreement"""
    env = VR.Env(env)
    by = {}
    for g in got:
        by.setdefault(g[:2], []).append(g)
    known = set(may)
    for rule in rules:
        known.add(rule.key)
        if rule.label.startswith("Impulsive"):
            v = rule.value(env)
            hit = rule.key in by
            if v is not None and bool(v) != hit and rule.key not in may:
                return "%s: %s" % (rule.label, "not announced" if v else "announced although it does not hold")
            continue
        v = rule.value(env)
        hits = by.get(rule.key, [])
        if v is None:
            if hits and not lenient and rule.key not in may:
                return "%s announced as out of range although it is not known here" % rule.label
            continue
        if not rule.exact and (near(v, rule.lo, rel) or near(v, rule.hi, rel)):
            continue
        out = v < rule.lo or v > rule.hi
        if out and not hits:
            return "%s = %r is outside %r - %r (%s) but nothing is announced" % (rule.label, v, rule.lo, rule.hi, rule.formula)
        if not out and hits and rule.key not in may and not lenient:
            return "%s = %r lies inside %r - %r (%s) but is announced as outside (%r)" % (
                rule.label, v, rule.lo, rule.hi, rule.formula, hits[0][2:])
        if out and rule.key not in may:
            if not any(h[2] is None or near(h[2], v, max(rel, 1e-7)) or (rel > 1e-6 and abs(h[2] - v) <= 1e-3) for h in hits):
                return "%s: announced value %r, actual value %r" % (rule.label, hits[0][2], v)
            if not any(h[3] is None or h[4] is None or (_b(h[3], rule.lo) and _b(h[4], rule.hi)) for h in hits):
                return "%s: announced range %r - %r, documented %r - %r" % (rule.label, hits[0][3], hits[0][4], rule.lo, rule.hi)
            if count is not None and not lenient and len(hits) != count:
                return "%s: announced %d times instead of %d" % (rule.label, len(hits), count)
    for k in by:
        if k not in known and not lenient:
            return "unexpected announcement %r" % (by[k][0],)
    return None


def _b(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(b))


def model(entry, st):
    """(value, aux) or None"""
    use = VR.USE[entry.id]
    m = conf.model(entry, st)
    if m[0] != "val" or m[2]:
        return None
    aux = {}
    if use[3]:
        try:
            entry.ref(**st, aux=aux)
        except (Refused, Undef) + conf.MATH_ERR:
            return None
    return m[1], aux


def environment(entry, st, mv):
    v, aux = mv
    try:
        return VR.USE[entry.id][1](st, v, aux)
    except (KeyError, Undef, Refused, TypeError) + conf.MATH_ERR:
        return None


class Validity(Relation):
    BUDGET = (3500, 40000)
    DENSE = (16, 60)
    assumptions = [
        "the documented ranges are those of the modules' validity checks at the pinned commit, transcribed in mc/ref/validity.py",
        "derived quantities within a relative 1e-9 of a bound (5e-3 for iteratively solved results) are not judged",
        "inputs lie on the bounded lattice described under bounds, extended with states 0.1 % on either side of every bound",
    ]

    def items(self):
        return [(e.id, e, None) for e in cat.ENTRIES if e.id in VR.USE]

    def visit(self, r, name, entry, payload, st):
        mv = model(entry, st)
        env = environment(entry, st, mv) if mv is not None else None
        if env is None:
            r.undefined += 1
            return
        f = self.missing(r, entry)
        if f is None:
            return
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            kind, got = engine.guarded(f, st)
        if kind == "exc":
            if entry.main:
                r.violation("exc:" + entry.id, st, "raised %s: %s" % (type(got).__name__, got))
            return
        r.validated += 1
        em, other = emitted(rec)
        may = VR.may_for(entry.id, st)
        berm = name.startswith("ru_") and (st.get("B_berm") not in (None, 0.0) or st.get("cot_alpha_up") is not None)
        bad = judge(VR.rules_for(entry.id, st), env, em, may, 5e-3 if entry.iterative else 1e-9, lenient=berm)
        if bad:
            r.violation("warn:" + entry.id, st, bad)
        if other or em:
            r.bump("announced")
        bad = self.others(entry, st, other)
        if bad:
            r.violation("note:" + entry.id, st, bad)

    @staticmethod
    def others(entry, st, other):
        rho = next((k for k in ("rho_armour", "rho_rock") if k in st), None)
        if entry.group in ("rock", "rear") and "M50" in st and st["M50"] == st["M50"] and st.get("Dn50", math.nan) != st.get("Dn50", math.nan):
            if rho and st[rho] == st[rho] and any("rho_armour is not provided" in o for o in other):
                return "announces a missing density although %s=%r was given" % (rho, st[rho])
            if rho == "rho_armour" and st[rho] != st[rho] and not any("rho_armour is not provided" in o for o in other):
                return "uses the default density without saying so"
        if entry.id in ("ot_taw_q", "ot_taw_q_diml", "ot_taw_Rc", "ot_taw_Rc_diml") and "sigma" in st:
            best = st.get("use_best_fit", False)
            if not best and st["sigma"] != 0 and not any(o.startswith("Sigma is only applicable") for o in other):
                return "sigma ignored for the design formula without saying so"
            if (best or st["sigma"] == 0) and any(o.startswith("Sigma is only applicable") for o in other):
                return "announces that sigma is ignored although it is not"
        return None

    # -------------------------------------------------------------------------------- states around the bounds
    def thresholds(self, entry):
        """for every base, input and rule: the states 0.1 % on either side of each crossing of a bound"""
        out, seen = [], set()
        for base in entry.bases:
            lat = engine.Lattice([base], entry.levels, 1, dense=16)
            for key in lat._keys(base):
                if isinstance(key, tuple):
                    continue
                lv = sorted(set(float(x) for x in lat._vals(base, key, True) + lat._vals(base, key, False) + [base[key]]
                                if engine.isnum(x) and x == x))
                if len(lv) < 2:
                    continue

                def q(rule, x):
                    st = dict(base)
                    st[key] = x
                    mv = model(entry, st)
                    env = environment(entry, st, mv) if mv is not None else None
                    return None if env is None else rule.value(VR.Env(env))
                vals = []
                for x in lv:
                    st = dict(base)
                    st[key] = x
                    mv = model(entry, st)
                    env = environment(entry, st, mv) if mv is not None else None
                    vals.append(None if env is None else VR.Env(env))
                for rule in VR.rules_for(entry.id, base):
                    if rule.label.startswith("Impulsive"):
                        continue
                    qs = [None if e is None else rule.value(e) for e in vals]
                    for b in (rule.lo, rule.hi):
                        if abs(b) == math.inf:
                            continue
                        for i in range(len(lv) - 1):
                            if qs[i] is None or qs[i + 1] is None or (qs[i] - b) * (qs[i + 1] - b) >= 0:
                                continue
                            x0, x1, s0 = lv[i], lv[i + 1], qs[i] - b
                            for _ in range(30):
                                xm = 0.5 * (x0 + x1)
                                qm = q(rule, xm)
                                if qm is None:
                                    break
                                if (qm - b) * s0 > 0:
                                    x0 = xm
                                else:
                                    x1 = xm
                            d = 1e-3 * abs(x0) or 1e-6
                            if entry.iterative:
                                d *= 10
                            for x in (x0 - d, x1 + d, x0 - 20 * d, x1 + 20 * d):
                                st = dict(base)
                                st[key] = x
                                h = (id(base), key, round(x, 12))
                                if h not in seen:
                                    seen.add(h)
                                    out.append(st)
        return out

    def tjob(self, entry):
        r = Result(entry.id)
        for st in self.thresholds(entry):
            r.states += 1
            r.transitions += 1
            r.bump("bound_states")
            self.visit(r, entry.id, entry, None, st)
        return r

    def extra(self, tier):
        jobs = []
        for _, e, _p in self.items():
            try:
                engine.load(e.mod)
            except Exception:  # noqa: BLE001
                pass
            jobs.append(lambda e=e: self.tjob(e))
        return jobs


# ------------------------------------------------------------------------------ the public validity checks themselves
NANF = float("nan")
OT, RU, TR = "hydraulic.wave_overtopping.", "hydraulic.wave_runup.", "hydraulic.wave_transmission."
RA, RE, TO, CO = "structural.stability_rock_armour.", "structural.stability_rock_rear.", "structural.stability_toe_berm.", \
    "structural.stability_concrete_armour."
# (module, function, rule groups, arguments with a value inside the ranges, fixed arguments)
DIRECT = [
    (OT + "deridder2024", "check_validity_range", ("dr24",),
     dict(h=4.0, Hm0=2.0, Hm0_HF=1.9, Hm0_LF=0.5, Tmm10=8.0, Tmm10_HF=7.0, Rc=4.0, cot_alpha=6.0, m_foreshore_slope=0.02, Dn50=1.0), {}),
    (OT + "deridder2026", "check_validity_range", ("dr26",),
     dict(h=3.5, Hm0=2.0, Hm0_HF=1.9, Hm0_LF=0.6, Tmm10=8.0, Tmm10_HF=7.0, Rc=3.0, Dn50=0.5, theta=20.0), {}),
    (OT + "eurotop2018", "check_validity_range_rubble_mound", ("e18rm",), dict(cot_alpha=1.5), {}),
    (OT + "taw2002", "check_validity_range", ("taw_ot",),
     dict(Hm0=2.0, Tmm10=6.0, beta=20.0, cot_alpha=3.0, cot_alpha_down=3.0, cot_alpha_up=4.0, gamma_f=0.9, gamma_b=0.8, gamma_beta=0.9,
          gamma_v=0.7), {}),
    (OT + "vangent2021_caisson", "check_validity_range", ("vg21",), dict(Hm0=2.0, Tmm10=7.0, beta=20.0, Rc=4.0, q_diml=1e-3), {}),
    (OT + "vangent2025", "check_validity_range", ("vg25",),
     dict(Hm0=2.0, Hm0_deep=2.0, Tmm10=7.0, beta=20.0, h=6.0, cot_alpha=2.0, Dn50=1.0, Rc=3.0, Ac=2.5, Gc=3.0, B_berm=4.0, db=0.5), {}),
    (RU + "taw2002", "check_validity_range", ("taw_ru",),
     dict(Hm0=2.0, Tmm10=6.0, gamma_f=0.9, gamma_b=0.8, gamma_beta=0.9, cot_alpha=3.0), {}),
    (TR + "briganti2003", "check_validity", ("bri",), dict(s0p=0.02, ksi_0p=3.0), {}),
    (TR + "dangremond1996", "check_validity", ("dan",), dict(Kt=0.4, s0p=0.03, Hsi_over_h=0.3, Rc_over_Hsi=0.5), {}),
    (TR + "vangent2023", "check_validity_range", ("vg23", "vg23p"), dict(Hm0=2.0, Tmm10=7.0, Rc=1.0, B=6.0), dict(structure_type="permeable")),
    (TR + "vangent2023", "check_validity_range", ("vg23", "vg23o"), dict(Hm0=2.0, Tmm10=7.0, Rc=-1.0, B=6.0), dict(structure_type="impermeable")),
    (TR + "vangent2023", "check_validity_range", ("vg23", "vg23o"), dict(Hm0=2.0, Tmm10=7.0, Rc=-1.0, B=6.0), dict(structure_type="perforated")),
    (TR + "vangent2024_setup", "check_validity_range", ("sui",), dict(Hm0=2.0, Tmm10=8.0, Rc=-1.0), dict(structure_type="impermeable")),
    (TR + "vangent2024_setup", "check_validity_range", ("sup",), dict(Hm0=2.0, Tmm10=8.0, Rc=-1.0, B=3.0, hc=4.0, Dn50=0.6),
     dict(structure_type="permeable")),
    ("structural.forces_caisson.goda1985", "check_validity_range", ("goda",),
     dict(beta=20.0, cota_seabed=50.0, Tmax=12.0, tup=5.0, Bup=12.0, h_s=10.0, B1=4.0), {}),
    ("structural.forces_crestwall.vangentvanderwerf2019", "check_validity", ("cw",), dict(Rc=3.5, Ac=2.5, Hm0=2.5, Fb=0.5, beta=20.0), {}),
    (CO + "accropode2_hudson1959", "check_validity_range", ("acc2",), dict(cot_alpha=1.4, seabed_slope_perc=5.0), {}),
    (CO + "accropode_hudson1959", "check_validity_range", ("acc",), dict(cot_alpha=1.4, seabed_slope_perc=5.0), {}),
    (CO + "core_loc_hudson1959", "check_validity_range", ("cl",), dict(cot_alpha=1.4, seabed_slope_perc=5.0), {}),
    (CO + "cubes_double_layer_vandermeer1988", "check_validity_range", ("cube2",),
     dict(Hs=4.0, Tm=9.0, rho_armour=2400.0, N_waves=2000, cot_alpha=1.5), {}),
    (RA + "etemadshahidi2020", "check_validity_range", ("ets20",),
     dict(Hs=2.0, Tmm10=7.0, N_waves=2000, cot_alpha=3.0, P=0.4, S=3.0, Dn50=0.8, Dn50_core=0.2, rho_armour=2650.0, rho_water=1000.0), {}),
    (RA + "jumelet2024", "check_validity_range", ("jum",), dict(Hs=2.0, Tmm10=7.0, N_waves=2000, cot_alpha=8.0), {}),
    (RA + "kramerburcharth2004_lowcrested", "check_validity_range", ("kb",), dict(Rc=0.5, Dn50=1.0), {}),
    (RA + "scaravaglione2025", "check_validity_range", ("sca",),
     dict(Hm0=2.0, Tmm10=6.5, N_waves=2000, cot_alpha=2.0, P=0.45, Dn50=0.6, Dn50_core=0.3, rho_armour=2650.0, rho_water=1000.0), {}),
    (RA + "vandermeer1988", "check_validity_range", ("vdm88",),
     dict(Hs=2.0, H2p=2.6, Tp=7.0, N_waves=2000, cot_alpha=3.0, P=0.4, rho_armour=2650.0), {}),
    (RA + "vandermeer1988_modified", "check_validity_range", ("vdmm",),
     dict(Hs=2.0, H2p=2.6, Tmm10=7.0, N_waves=2000, cot_alpha=3.0, P=0.4, Dn50=0.8, rho_armour=2650.0, rho_water=1000.0), {}),
    (RE + "vangent2007", "check_validity_range", ("re07",),
     dict(Rc=2.0, Rc2_front=0.5, Rc2_rear=1.0, Gc=1.5, Dn50=0.2, B_element=2.0, h=10.0, Hs=2.0, Tmm10=6.0, z1p=3.5, S=5.0, N_waves=2000), {}),
    (RE + "vangentpozueta2004", "check_validity_range", ("rep",),
     dict(Rc=2.0, Rc_rear=3.0, cot_phi=3.0, gamma_f=0.9, Dn50=0.2, rho_rock=2650.0, rho_water=1000.0, Bc=3.0, Hs=2.0, Tmm10=7.0, z1p=3.5,
          S=5.0, N_waves=2000), {}),
    (TO + "etemadshahidi2021", "check_validity", ("ets21",),
     dict(Hs=2.0, Tmm10=7.0, h=5.0, ht=3.0, Bt=2.0, Dn50=0.5, m=0.03, Nod=1.0, cot_alpha_armour_slope=1.7, rho_armour=2700.0, rho_water=1000.0), {}),
    (TO + "gerding1993", "check_validity", ("ger",), dict(ht=3.0, h=5.0, Dn50=0.5), {}),
    (TO + "takahashi1990_caisson", "check_validity", ("tak",), dict(Ns=3.0, Bt=3.0), {}),
    (TO + "vandermeer1998", "check_validity", ("vdm98",), dict(Hs=2.0, ht=3.0, h=5.0, Dn50=0.5, Nod=1.0, Delta=1.6), {}),
    (TO + "vangentvanderwerf2014", "check_validity", ("vgw",), dict(Hs=2.0, tt=1.0, ht=5.0, cot_alpha_armour_slope=1.7), {}),
]
FACT = (0.01, 0.3, 0.7, 0.9, 1.1, 1.4, 2.5, 12.0)


def bound_values(rules, base, key):
    """values of an argument at, just inside and just outside every bound that depends on it (the other arguments at base)"""
    out = []
    for rule in rules:
        for b in (rule.lo, rule.hi):
            if abs(b) == math.inf:
                continue
            if rule.exact:
                if rule.fn(VR.Env({k: _Tag(k, v) for k, v in base.items()})).name == key:
                    out += [b, b * (1 + 1e-6) if b else 1e-9, b * (1 - 1e-6) if b else -1e-9]
                continue
            grid = [base[key] * 10 ** (i / 4 - 3) for i in range(25)]
            grid = [-g for g in reversed(grid)] + grid if key in ("Rc", "db", "Rc_over_Hsi", "Kt", "Ns") else grid
            prev = None
            for x in grid:
                q = rule.value(VR.Env(dict(base, **{key: x})))
                if prev is not None and q is not None and prev[1] is not None and (q - b) * (prev[1] - b) < 0:
                    x0, x1, s0 = prev[0], x, prev[1] - b
                    for _ in range(60):
                        xm = 0.5 * (x0 + x1)
                        qm = rule.value(VR.Env(dict(base, **{key: xm})))
                        if qm is None:
                            break
                        if (qm - b) * s0 > 0:
                            x0 = xm
                        else:
                            x1 = xm
                    out += [x0 * (1 + 1e-6), x0 * (1 - 1e-6)]
                prev = (x, q)
    return out


class _Tag(float):
    def __new__(cls, name, v):
        o = float.__new__(cls, v)
        o.name = name
        return o


def direct_call(r, idx, kw):
    mod, fn, groups, base, fixed = DIRECT[idx]
    try:
        f = engine.impl(mod, fn)
    except (engine.Missing, ImportError, SyntaxError):
        r.undefined += 1
        return
    import numpy as np
    r.states += 1
    r.transitions += 1
    call = dict(kw, **fixed)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        kind, got = engine.guarded(f, call)
    name = "%s.%s" % (mod.split(".")[-1], fn)
    st = {"i": idx, "kw": engine.jsonable(kw)}
    if kind == "exc":
        if isinstance(got, TypeError) and "unexpected keyword" in str(got):
            r.undefined += 1
            return
        r.violation("chk:" + name, st, "%s raised %s: %s" % (name, type(got).__name__, got))
        return
    r.validated += 1
    em, _ = emitted(rec)
    rules = [q for g in groups for q in VR.RULES[g]]
    arr = [k for k, v in kw.items() if isinstance(v, np.ndarray)]
    n = len(kw[arr[0]]) if arr else 1
    if n == 1 and not arr:
        env = dict(kw)
        if mod.split(".")[-1] in ("etemadshahidi2020", "scaravaglione2025", "vandermeer1988_modified", "etemadshahidi2021"):
            env.setdefault("rho_water", 1025.0)
        bad = judge(rules, env, em, (), 1e-9, count=1)
    else:
        bad = None
        for rule in rules:
            want, sure = 0, True
            for i in range(n):
                env = {k: (float(v[i]) if k in arr else v) for k, v in kw.items()}
                q = rule.value(VR.Env(env))
                if q is None:
                    continue
                if not rule.exact and (near(q, rule.lo, 1e-9) or near(q, rule.hi, 1e-9)):
                    sure = False
                want += q < rule.lo or q > rule.hi
            hits = [e for e in em if e[:2] == rule.key]
            if not sure:
                continue
            # a quantity that does not depend on the array is judged once
            if (want == 0) != (not hits) or (want != n and want != len(hits)):
                bad = "%s: %d of %d values out of range, %d announced" % (rule.label, want, n, len(hits))
                break
    if bad:
        r.violation("chk:" + name, st, "%s: %s" % (name, bad))


def direct_job(idx, tier):
    import itertools
    import numpy as np
    mod, fn, groups, base, fixed = DIRECT[idx]
    r = Result("%s.%s#%d" % (mod.split(".")[-1], fn, idx))
    rules = [q for g in groups for q in VR.RULES[g]]
    names = list(base)
    for n in range(len(names) + 1):                      # every subset of arguments
        for sub in itertools.combinations(names, n):
            direct_call(r, idx, {k: base[k] for k in sub})
            if len(names) <= (9 if tier == "quick" else 13):
                direct_call(r, idx, {k: base[k] * 40.0 for k in sub})
    lv = {}
    for k in names:
        lv[k] = sorted(set([base[k] * f for f in FACT] + bound_values(rules, base, k) + [0.0, -base[k]]))
        if k in ("Hm0", "Hs", "Dn50", "h", "Tmm10", "Tm", "Tp", "Ac", "Bup", "rho_armour", "rho_water", "Nod", "Delta", "Hm0_HF", "Tmm10_HF",
                 "cot_alpha", "rho_rock", "gamma_f"):
            lv[k] = [x for x in lv[k] if x > 0]
    for k in names:                                       # every level of every argument, alone, with all others, and in pairs
        for x in lv[k]:
            direct_call(r, idx, dict(base, **{k: x}))
            direct_call(r, idx, {k: x})
            if float(x).is_integer():
                direct_call(r, idx, dict(base, **{k: int(x)}))
    for a, b in itertools.combinations(names, 2):
        la, lb = (lv[a], lv[b]) if tier == "thorough" else (lv[a][::3], lv[b][::3])
        for x in la:
            for y in lb:
                direct_call(r, idx, dict(base, **{a: x, b: y}))
    for k in names:                                       # arrays: one announcement per value out of range
        vs = [x for x in lv[k] if x == x]
        for sel in (vs[:4], vs[-4:], vs[::3][:4], [base[k], vs[0]], [vs[-1], base[k]], [base[k], base[k]],
                    [vs[0], vs[0], base[k], vs[0], base[k]], [vs[-1]] * 6, [vs[-1], base[k]] * 8, vs + vs[::-1]):
            direct_call(r, idx, dict(base, **{k: np.array(sel, dtype=float)}))
        if k == "N_waves":
            direct_call(r, idx, dict(base, **{k: np.array([100, 2000, 30000])}))
    if not r.samples:
        r.samples.append({"args": engine.jsonable(base)})
    return r


def utility_job():
    """the range check itself: every order of a value and its bounds, scalars, integers and arrays"""
    import itertools
    import numpy as np
    r = Result("check_variable_validity_range")
    try:
        f = engine.impl("core_utility", "check_variable_validity_range")
    except (engine.Missing, ImportError, SyntaxError):
        return r
    vals = (-2.5, -1, 0.0, 0.3, 1, 2.0, 7.5, float("nan"))
    far = (math.inf, -math.inf, 1e9, -1e9, 1e-9, -1e-9, 0.3 - 1e-9, 0.3 + 1e-9, 2.0 - 1e-9, 2.0 + 1e-9, -1 - 1e-9, -1 + 1e-9, 1e-300, 1e300)

    def one(v, lo, hi, flat):
        r.states += 1
        r.transitions += 1
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            kind, got = engine.guarded(f, dict(variable_name="X (a)", formula_name="F (1)", values=v, min_value=lo, max_value=hi))
        st = {"util": [engine.jsonable(v), lo, hi]}
        if kind == "exc":
            r.violation("util", st, "raised %r" % got)
            return
        r.validated += 1
        want = [not (x < lo or x > hi) for x in flat]
        if [bool(x) for x in np.ravel(got)] != want:
            r.violation("util", st, "returned %r, expected %r" % (got, want))
        em, _ = emitted(rec)
        if [e[2] for e in em] != [float(x) for x, w in zip(flat, want) if not w] or any((e[3], e[4]) != (lo, hi) for e in em):
            r.violation("util", st, "announced %r" % (em,))
        if any(e[:2] != ("X (a)", "F (1)") for e in em):
            r.violation("util", st, "announced under the wrong name: %r" % (em,))
    for lo, hi in itertools.product((-1, 0.0, 0.3, 2.0, -math.inf), (-1, 0.0, 0.3, 2.0, math.inf)):
        for v in vals + far:
            one(v, lo, hi, [v])
            one(np.float64(v), lo, hi, [v])
            one(np.array([v]), lo, hi, [v])
            if v == v and abs(v) < 1e9 and float(v).is_integer():
                one(int(v), lo, hi, [v])
                one(np.int32(v), lo, hi, [v])
        for c in list(itertools.product((-2.5, 0.3, 7.5), repeat=5)) + [vals * 3, vals[::-1] * 2, far, far[::-1], vals + far, (7.5,) * 40, (0.3, 7.5) * 25]:
            one(np.array(c, dtype=float), lo, hi, list(c))
        for n in (2, 3):
            for c in itertools.product(vals, repeat=n):
                one(np.array(c, dtype=float), lo, hi, list(c))
                one(list(c), lo, hi, list(c))
    return r


_extra0 = Validity.extra


def _extra(self, tier):
    jobs = _extra0(self, tier)
    for i, d in enumerate(DIRECT):
        try:
            engine.load(d[0])
        except Exception:  # noqa: BLE001
            pass
        jobs.append(lambda i=i: direct_job(i, tier))
    jobs.append(utility_job)
    return jobs


Validity.extra = _extra
