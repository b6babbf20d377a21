"""P20: equivalent ways to give the inputs, and refusal of inputs that do not determine a result.

In every state of a lattice the computation is executed once as it stands and once in every equivalent form that the reference
model confirms (the model gives the same result for both).  Separately, every subset of inputs up to a size is left out."""
import itertools
import json
import math
import os

import numpy as np

from .. import cat, conf, engine
from ..ref import overtop as O, runup as R
from ..run import Result
from .base import unstate
from .relate import Relation
from .relate2 import fin, iouts, outs

NAN = float("nan")
SIGS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sigs.json")
_sigs = None


def sig(entry):
    global _sigs
    if _sigs is None:
        _sigs = json.load(open(SIGS))
    return [(p[0], len(p) > 1, (NAN if p[1] == "nan" else p[1]) if len(p) > 1 else None) for p in _sigs[entry.id]]


def model(entry, st):
    try:
        m = conf.model(entry, st)
    except TypeError as e:
        if "argument" in str(e):
            return ("missing",)
        return ("undef",)
    return m


NUMBERS = ("all inputs as floats", "whole numbers as integers", "inputs as numpy floats", "inputs as numpy numbers")


def number_forms(st):
    """the same numbers in another representation"""
    yield "all inputs as floats", {k: float(v) if engine.isnum(v) else v for k, v in st.items()}
    ints = {k: int(v) if engine.isnum(v) and v == v and abs(v) != math.inf and float(v).is_integer() else v for k, v in st.items()}
    yield "whole numbers as integers", ints
    yield "inputs as numpy floats", {k: np.float64(v) if engine.isnum(v) else v for k, v in st.items()}
    yield "inputs as numpy numbers", {k: (np.int64(v) if isinstance(v, int) else np.float64(v)) if engine.isnum(v) else v
                                      for k, v in ints.items()}


GOVERNED = [       # the first, when given, decides; the others then have no influence (used where the model confirms it)
    ("gamma_beta", {"beta": (12.0, -55.0)}), ("gamma_b", {"B_berm": (3.0, 12.0), "db": (-0.7, 1.1)}), ("gamma_b", {"B_berm": (3.0, 0.0)}),
    ("gamma_f", {"Dn50": (0.4, 1.7)}), ("cot_alpha_up", {"cot_alpha": (1.7, 6.0)}), ("cot_alpha", {"cot_alpha_up": (2.0, 5.0)}),
    ("cot_alpha", {"cot_alpha_down": (2.0, 5.0)}),
]


def given(st, n):
    return engine.isnum(st.get(n)) and st[n] == st[n]


def named_forms(entry, st):
    """documented alternatives (each is used only if the model confirms that it is equivalent here)"""
    names = {p[0] for p in sig(entry)}
    rho = st.get("rho_armour", st.get("rho_rock"))
    if "Dn50" in st and "M50" in names and engine.isnum(rho):
        s = dict(st)
        s["M50"] = rho * s.pop("Dn50") ** 3
        yield "rock mass instead of diameter", s
    if "M50" in st and "Dn50" in names and engine.isnum(rho) and st["M50"] > 0:
        s = dict(st)
        s["Dn50"] = (s.pop("M50") / rho) ** (1 / 3)
        yield "rock diameter instead of mass", s
    rc = st.get("rho_core", rho)
    if "Dn50_core" in st and "M50_core" in names and engine.isnum(rc):
        s = dict(st)
        s["M50_core"] = rc * s.pop("Dn50_core") ** 3
        yield "core rock mass instead of diameter", s
    if "M50_core" in st and "Dn50_core" in names and engine.isnum(rc) and st["M50_core"] > 0:
        s = dict(st)
        s["Dn50_core"] = (s.pop("M50_core") / rc) ** (1 / 3)
        yield "core rock diameter instead of mass", s
    for d, m in (("Dn50", "M50"), ("Dn50_core", "M50_core")):        # a given diameter governs
        if given(st, d) and m in names and not given(st, m):
            for f in (1.0, 0.4, 3.0):
                yield "%s next to %s" % (m, d), dict(st, **{m: f * 2600.0 * st[d] ** 3})
    for gov, others in GOVERNED:
        if given(st, gov) and all(n in names for n in others):
            for k in (0, 1):
                yield "%s next to %s" % (", ".join(others), gov), dict(st, **{n: v[k] for n, v in others.items()})
    for a in ("beta", "theta"):
        if engine.isnum(st.get(a)) and st[a] == st[a] and st[a] != 0:
            yield "waves from the other side", dict(st, **{a: -st[a]})
    b = st.get("beta")
    if engine.isnum(b) and b == b and "gamma_beta" in names and not ("gamma_beta" in st and st["gamma_beta"] == st["gamma_beta"]):
        seen = set()
        for f in (lambda: R.gamma_beta_linear(b, 0.0022, 80.0), lambda: R.gamma_beta_linear(b, 0.0033, 80.0),
                  lambda: R.gamma_beta_eurotop(b, st.get("gamma_f", 1.0), .0022, .0063, .6, 80.0),
                  lambda: R.gamma_beta_eurotop(b, st.get("gamma_f", 1.0), .0033, .0063, .6, 80.0),
                  lambda: O.vg25_gamma_beta(b, 0.35)):
            try:
                g = f()
            except Exception:  # noqa: BLE001
                continue
            if g in seen:
                continue
            seen.add(g)
            s = {k: v for k, v in st.items() if k != "beta"}
            s["gamma_beta"] = g
            yield "influence factor instead of the angle", s
            yield "influence factor next to the angle", dict(st, gamma_beta=g)
    c = st.get("cot_alpha")
    if engine.isnum(c) and c == c and "cot_alpha_down" in names and "cot_alpha_down" not in st:
        s = {k: v for k, v in st.items() if k != "cot_alpha"}
        s.update(cot_alpha_down=c, cot_alpha_up=c)
        yield "equal lower and upper slope instead of one", s
        if "B_berm" not in st:
            yield "equal slopes and no berm", dict(s, B_berm=0.0, db=0.0)
    if "B_berm" in names and st.get("B_berm") == 0 and "gamma_b" in names and "gamma_b" not in st:
        s = {k: v for k, v in st.items() if k not in ("B_berm", "db")}
        yield "no berm instead of a berm without width", s
        yield "berm factor 1 instead of a berm without width", dict(s, gamma_b=1.0)
    if "gamma_v" in names and "gamma_v" not in st:
        yield "no crest wall influence", dict(st, gamma_v=1.0)
    if "gamma_star" in names and "gamma_star" not in st:
        yield "no wall influence", dict(st, gamma_star=1.0)


def default_forms(entry, st, each):
    full = dict(st)
    for n, has, d in sig(entry):
        if not has:
            continue
        if n not in st:
            if each:
                yield "%s given as its default" % n, dict(st, **{n: d})
            full[n] = d
        elif st[n] == d or (st[n] != st[n] and d != d):
            yield "default %s left out" % n, {k: v for k, v in st.items() if k != n}
    if len(full) > len(st):
        yield "all defaults given", full


CROSS = {  # other computation, same quantity
    "cu_xb_HM": ("cu_xb_HV", "M", "V"), "cu_xp_HM": ("cu_xp_HV", "M", "V"),
    "cu_xb_HV": ("cu_xb_HM", "V", "M"), "cu_xp_HV": ("cu_xp_HM", "V", "M"),
}


class Equiv(Relation):
    BUDGET = (500, 12000)
    OA = (130, 1400)
    DENSE = (4, 24)
    BATCH = 400
    LEAVE = (2, 3)
    every = False
    assumptions = [
        "two forms are compared where the reference model gives the same result for both", "parameter order and defaults: mc/sigs.json, "
        "committed", "results agree within a relative 1e-9 (2e-3 where an iteration with a stopping tolerance is involved)"]

    def items(self):
        return [(e.id, e, None) for e in cat.ENTRIES]

    # ---- equivalent forms
    def visit(self, r, name, entry, payload, st):
        m0 = model(entry, st)
        if m0[0] != "val" or m0[2]:
            r.undefined += 1
            return
        try:
            o0 = outs(m0[1])
        except (conf.Bad, TypeError, ValueError):
            r.undefined += 1
            return
        f = self.missing(r, entry)
        if f is None:
            return
        a = iouts(f, st)
        if isinstance(a, Exception):
            if entry.main:
                r.violation("form:" + name, st, "%s failed with %r" % (name, a))
            return
        forms = [(w, s, entry) for w, s in itertools.chain(number_forms(st), default_forms(entry, st, self.every or st in entry.bases), named_forms(entry, st))]
        if name in CROSS and engine.isnum(st.get("rho_armour")):
            e2, old, new = CROSS[name]
            s = dict(st)
            x = s.pop(old)
            s[new] = x / st["rho_armour"] if new == "V" else x * st["rho_armour"]
            forms.append(("%s instead of %s" % (new, old), s, cat.BY_ID[e2]))
        for what, s, e2 in forms:
            if what in NUMBERS:
                m1 = m0
            else:
                m1 = model(e2, {k: (v.item() if isinstance(v, np.generic) else v) for k, v in s.items()})
            if m1[0] != "val" or m1[2]:
                r.undefined += 1
                continue
            try:
                o1 = outs(m1[1])
            except (conf.Bad, TypeError, ValueError):
                r.undefined += 1
                continue
            if not self.equal(o0, o1, 1e-11):
                r.undefined += 1
                continue
            g = f if e2 is entry else self.missing(r, e2)
            if g is None:
                continue
            b = iouts(g, s)
            r.validated += 1
            if isinstance(b, TypeError) and not entry.main:
                continue                      # a helper may change its interface
            if isinstance(b, Exception):
                r.violation("form:" + name, st, "%s: %s: fails with %r (otherwise %r)" % (name, what, b, a))
            elif not self.equal(a, b, 2e-3 if entry.iterative else 1e-9):
                r.violation("form:" + name, st, "%s: %s: %r instead of %r" % (name, what, b, a))
        if entry.main:
            args, rest = [], dict(st)
            for n, _, d in sig(entry):
                if n not in rest:
                    break
                args.append(rest.pop(n))
            if len(args) > 1:
                b = iouts(lambda **k: f(*args, **k), rest)
                r.validated += 1
                if isinstance(b, Exception) or not self.equal(a, b, 1e-12):
                    r.violation("pos:" + name, st, "%s: by position in the documented order: %r instead of %r" % (name, b, a))
            args = []
            for n, has, d in sig(entry):      # every parameter by position, defaults included
                if n in st:
                    args.append(st[n])
                elif has:
                    args.append(d)
                else:
                    args = None
                    break
            if args:
                b = iouts(lambda **k: f(*args), {})
                r.validated += 1
                if isinstance(b, Exception) or not self.equal(a, b, 1e-12):
                    r.violation("pos:" + name, st, "%s: all inputs by position, defaults included: %r instead of %r" % (name, b, a))

    @staticmethod
    def equal(a, b, tol):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if x != y:
                    return False
            elif fin(x) and fin(y):
                if abs(float(x) - float(y)) > tol * max(abs(float(x)), abs(float(y))) + 1e-13:
                    return False
            elif not (x == y or (x != x and y != y)):
                return False
        return True

    # ---- leaving inputs out
    def leave_job(self, entry, lat, n):
        r = Result(entry.id + "/left out")
        try:
            f = engine.impl(entry.mod, entry.fn)
        except engine.Missing:
            if entry.main:
                r.violation("missing:" + entry.id, {}, "the computation is not available")
            return r
        seen = set()
        opt = {p: d for p, has, d in sig(entry) if has}
        for b in lat.blocks():
            if b[2]:
                continue
            for st in lat.states(b):
                keys = [k for k in st if k != "return_dict"]
                if not b[1]:                   # everything that has a default, at its default
                    drop = tuple(x for x in keys if x in opt)
                    if len(drop) > n:
                        self.leave_one(r, entry, f, {x: v for x, v in st.items() if x not in drop}, drop)
                    same = tuple(x for x in drop if st[x] == opt[x])
                    if len(same) > n and same != drop:
                        self.leave_one(r, entry, f, {x: v for x, v in st.items() if x not in same}, same)
                top = n if not b[1] else min(n, 2 if lat.k > 1 else 1)
                for k in range(1, top + 1):
                    for drop in itertools.combinations(keys, k):
                        s = {x: v for x, v in st.items() if x not in drop}
                        h = tuple(sorted((x, repr(v)) for x, v in s.items()))
                        if h in seen:
                            continue
                        seen.add(h)
                        self.leave_one(r, entry, f, s, drop)
                        if r.full():
                            return r
        return r

    @staticmethod
    def undetermined(v):
        v = v[0] if isinstance(v, (tuple, list)) and v else v
        try:
            v = conf.to_scalar(v)
        except (conf.Bad, TypeError, ValueError):
            return False
        return v is None or v != v

    def leave_one(self, r, entry, f, s, drop):
        r.states += 1
        r.transitions += len(drop)
        m = model(entry, s)
        if m[0] == "missing":
            need = {n for n, has, _ in sig(entry) if not has}
            if not need & set(drop):
                r.undefined += 1
                return
            r.refused += 1
            r.validated += 1
            kind, got = engine.guarded(f, s)
            if kind == "ok":
                r.violation("need:" + entry.id, s, "%s: %s is left out, and the result is %r" % (entry.id, ", ".join(drop), got))
            return
        if m[0] == "undef":
            r.undefined += 1
            return
        r.validated += 1
        if self.undetermined(m[1]):           # nothing to report, or a refusal
            kind, got = engine.guarded(f, s)
            r.refused += kind == "exc"
            if kind == "ok" and not self.undetermined(got):
                r.violation("need:" + entry.id, s, "%s: without %s no result is determined, but it is %r" % (entry.id, ", ".join(drop), got))
            return
        w, d = conf.check_state(entry, f, s)
        r.refused += w == "refused"
        if w == "viol":
            r.violation("leave:" + entry.id, s, "%s without %s: %s" % (entry.id, ", ".join(drop), d))

    def jobs(self, tier):
        t = self.every = tier == "thorough"
        out = super().jobs(tier) + CROSSED.jobs(tier)
        for e in cat.ENTRIES:
            lv = {k: (v if t or len(v) < 3 else [v[0], v[-1]]) for k, v in e.levels.items()}
            lat = engine.Lattice(e.bases, lv, 1, dense=0)
            out.append(lambda e=e, lat=lat: self.leave_job(e, lat, self.LEAVE[t]))
        return out

    def bounds(self, tier):
        t = tier == "thorough"
        return {"equivalent forms": "%d states budget per computation" % self.BUDGET[t],
                "other computations of the same quantity": CROSSED.bounds(tier),
                "left out": "every subset of up to %d inputs of every base, of one input of every neighbour of a base" % self.LEAVE[t]}

    def replay(self, v):
        if v["case"].endswith("/left out"):
            e = cat.BY_ID[v["case"].split("/")[0]]
            r = Result(v["case"])
            self.leave_one(r, e, engine.impl(e.mod, e.fn), unstate(v["state"]), ("(see recorded)",))
            return r.viols[0]["detail"] if r.viols else None
        if " = " in v["case"]:
            return CROSSED.replay(v)
        return super().replay(v)


def first(n):
    return lambda o: o[:n]


class Cross(Relation):
    """the same quantity from another computation: dimensional and dimensionless, percentage and cotangent, direct and in steps"""
    BUDGET = (4000, 60000)
    DENSE = (16, 80)
    OA = (1400, 12500)
    BATCH = 2000

    def items(self):
        out = []

        def add(a, b, st, sel=first(1), what=""):
            if a in cat.BY_ID and b in cat.BY_ID:
                out.append(("%s = %s" % (a, b), cat.BY_ID[a], (cat.BY_ID[b], st, sel, what)))

        def same(st):
            return dict(st), lambda o: o

        def scaled(power):
            def f(st):
                H = st["Hm0"] if "Hm0" in st else st["Hm0_HF"]
                fac = math.sqrt(st.get("g", 9.81) * H ** 3) if power == "q" else H
                more = {}
                if "theta" in st:             # the dimensionless De Ridder (2026) freeboard takes the factor
                    more["gamma_beta"] = outs(conf.model(cat.BY_ID["ot_dr26_gbeta"], {"theta": st["theta"]})[1])[0]
                return dict(st, **more), lambda o: [o[0] * fac] + list(o[1:])
            return f
        for e in cat.ENTRIES:
            d = cat.BY_ID.get(e.id + "_diml")
            if d is not None:
                add(e.id, d.id, scaled("q" if "_q" in e.id else "L"), first(2), "dimensional and dimensionless form")
        for x in ("xb", "xp"):
            add("cu_%s_sp" % x, "cu_%s_sb" % x, lambda st: ({"cot_alpha": 100.0 / st["perc_slope"]}, lambda o: o), what="percentage and cotangent")
            add("cu_%s_sb" % x, "cu_%s_sp" % x, lambda st: ({"perc_slope": 100.0 / st["cot_alpha"]}, lambda o: o), what="percentage and cotangent")
            add("cu_%s_M" % x, "cu_%s_V" % x, lambda st: (dict(st), lambda o, r=st["rho_armour"]: [o[0] * r]), what="mass and volume")
        for q in ("unit_mass_M", "significant_wave_height_Hs"):
            add("cu_cube1_%s_failure" % q, "cu_cube1_%s_start_of_damage" % q, lambda st: (dict(st, Ns=st.get("Ns", 3.5)), lambda o: o),
                what="stability number of failure")
        for q in "MH":
            add("rk_hud_%s0" % q, "rk_hud_%s" % q, lambda st: (dict(st, damage_percentage=0.0), lambda o: o), what="no damage")
        for q in ("fh", "fv"):
            def steps(st):
                z = cat.BY_ID["ru_vg_zX"]
                run = {"H": st["Hm0"], "Tmm10": st["Tmm10"], "cot_alpha": st["cot_alpha"],
                       "gamma": st.get("gamma_f", 0.45) * st.get("gamma_beta", 1.0), "c0": st.get("c0", 1.45), "c1": st.get("c1", 5.0)}
                z2p = outs(conf.model(z, run)[1])[0]
                return dict(st, z2p=z2p), lambda o: o
            add("cw_" + q, "cw_%sz" % q, steps, what="force in one step and from the run-up")
        add("go_fr", "go_pf", same, first(4), "with and without safety factors")
        for m in ("z1p", "z2p", "z10p"):
            co = {"z1p": (1.45, 5.1), "z2p": (1.35, 4.7), "z10p": (1.1, 4.0)}[m]
            add("ru_vg_" + m, "ru_vg_zX", lambda st, co=co: (
                dict(st, H=st.get("Hm0", st.get("Hs")), c0=st.get("c0", co[0]), c1=st.get("c1", co[1])), lambda o: o), what="general run-up formula")
        return out

    def visit(self, r, name, entry, payload, st):
        e2, build, sel, what = payload
        m0 = model(entry, st)
        if m0[0] != "val" or m0[2]:
            r.undefined += 1
            return
        try:
            s, post = build({k: v for k, v in st.items()})
            names = {p[0] for p in sig(e2)}
            s = {k: v for k, v in s.items() if k in names}
            m1 = model(e2, s)
            ok = m1[0] == "val" and not m1[2] and Equiv.equal(sel(outs(m0[1])), sel(post(outs(m1[1]))), 1e-9)
        except (KeyError, conf.Bad, TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError):
            ok = False
        if not ok:
            r.undefined += 1
            return
        f, g = self.missing(r, entry), self.missing(r, e2)
        if f is None or g is None:
            return
        a, b = iouts(f, st), iouts(g, s)
        r.validated += 1
        if isinstance(b, Exception) and not e2.main:
            return
        if isinstance(a, Exception) or isinstance(b, Exception):
            r.violation("cross:" + name, st, "%s (%s): %r and %r" % (name, what, a, b))
        elif not Equiv.equal(sel(a), sel(post(b)), 2e-3 if entry.iterative else 1e-8):
            r.violation("cross:" + name, st, "%s (%s): %r is not %r" % (name, what, sel(a), sel(post(b))))


CROSSED = Cross("P20")
LEFT = Equiv("P20")
