"""P18 Froude scaling, P19 monotonicity, P22 conservatism, P23 limits."""
import json
import math
import os

from .. import cat, conf, engine
from ..run import Result
from .base import batches, unstate
from .relate import Relation, ival, mval


def outs(v):
    """numbers of a result, in order (None for what is not a number)"""
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in outs(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in outs(y)]
    if isinstance(v, str) or v is None:
        return [v]
    return [conf.to_scalar(v)]


def mouts(entry, st):
    m = conf.model(entry, st)
    if m[0] != "val" or m[2]:
        return None
    try:
        return outs(m[1])
    except (conf.Bad, TypeError, ValueError):
        return None


def iouts(f, st):
    kind, v = engine.guarded(f, st)
    if kind == "exc":
        return v
    try:
        return outs(v)
    except (conf.Bad, TypeError, ValueError) as e:
        return e


def fin(x):
    return x is not None and not isinstance(x, str) and x == x and abs(x) != math.inf


# ------------------------------------------------------------------------------------------------ Froude scaling
class Froude(Relation):
    BUDGET = (3000, 40000)
    DENSE = (8, 40)
    OA = (1400, 12500)
    SCALES = (1 / 32.0, 7.5, 400.0)
    assumptions = [
        "lengths scale with s, times with sqrt(s), discharges with s^1.5, masses and volumes with s^3, forces with s^2, moments with s^3; "
        "densities, angles, slopes and coefficients stay", "claimed in the states in which the reference model scales; iterative results "
        "are compared within the model's own deviation plus a relative 1e-3"]

    def items(self):
        return [(e.id, e, None) for e in cat.ENTRIES if e.out is not None]

    @staticmethod
    def scaled(st, s):
        out = {}
        for k, v in st.items():
            d = cat.DIM.get(k, 0.0)
            out[k] = v * s ** d if d and engine.isnum(v) else v
        return out

    def visit(self, r, name, entry, payload, st):
        m0 = mouts(entry, st)
        if m0 is None:
            r.undefined += 1
            return
        exps = entry.out if isinstance(entry.out, tuple) else (entry.out,)
        if len(m0) != len(exps):
            r.undefined += 1
            return
        f = self.missing(r, entry)
        if f is None:
            return
        a = None
        for s in self.SCALES:
            s2 = self.scaled(st, s)
            m1 = mouts(entry, s2)
            if m1 is None:
                r.undefined += 1
                continue
            dev, ok = 0.0, True
            for x, y, d in zip(m0, m1, exps):
                if not fin(x) or not fin(y):
                    ok = ok and (x != x) == (y != y) if not isinstance(x, str) and x is not None else ok
                    continue
                want = float(x) * s ** d
                t = abs(float(y) - want) / max(abs(want), 1e-30) if want or y else 0.0
                dev = max(dev, t)
            if not ok or dev > 2e-3:
                r.undefined += 1
                continue
            if a is None:
                a = iouts(f, st)
                if isinstance(a, Exception):
                    r.undefined += 1
                    return
            b = iouts(f, s2)
            r.validated += 1
            if isinstance(b, Exception):
                r.violation("froude:" + name, dict(st), "%s: fails with %r when everything is scaled by %g" % (name, b, s))
                return
            tol = 1e-8 + 2 * dev + (1e-3 if entry.iterative else 0.0)
            for i, (x, y, d) in enumerate(zip(a, b, exps)):
                if not fin(x) or not fin(y) or i >= len(m0) or not fin(m0[i]):
                    continue
                want = float(x) * s ** d
                if abs(float(y) - want) > tol * max(abs(want), abs(float(y))) + 1e-13 * s ** d:
                    r.violation("froude:" + name, dict(st), "%s: result %d is %r, and %r instead of %r when everything is scaled by %g"
                                % (name, i, x, y, want, s))
                    return


# ------------------------------------------------------------------------------------------------ monotonicity
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "monotone.json")


def chain(entry, base, key, n):
    """increasing levels of an input (angles from 0 upwards)"""
    cur = base.get(key)
    lv = [x for x in entry.levels.get(key, []) if engine.isnum(x) and x == x]
    if not engine.isnum(cur) or cur != cur:
        return []
    pts = sorted(set(float(x) for x in lv + [cur]))
    if key in ("beta", "theta"):
        pts = [x for x in pts if x >= 0]
    if len(pts) < 2:
        return []
    out = list(pts)
    per = max(0, (n - len(pts)) // (len(pts) - 1))
    for a, b in zip(pts, pts[1:]):
        out += [a + (b - a) * i / (per + 1) for i in range(1, per + 1)]
    return sorted(set(out))


def direction(vals, tol):
    """set of directions a sequence is compatible with"""
    up = all(b >= a - tol * max(abs(a), abs(b)) - 1e-14 for a, b in zip(vals, vals[1:]))
    dn = all(b <= a + tol * max(abs(a), abs(b)) + 1e-14 for a, b in zip(vals, vals[1:]))
    return up, dn


class Monotone(Relation):
    BUDGET = (60, 700)          # contexts per entry
    POINTS = (12, 40)
    BATCH = 8
    DENSE = (0, 0)
    OA = (300, 1400)
    assumptions = [
        "the table mc/monotone.json lists (computation, input, direction); a chain is judged as a whole where the reference model moves in the "
        "listed direction along it, and step by step in the direction of the reference model elsewhere", "tolerance: relative 1e-9, 2e-3 for iterative results"]

    def items(self):
        if not hasattr(self, "_t"):
            self._t = json.load(open(TABLE))
        return [(e.id, e, dict({k: 0 for k in e.levels if not isinstance(k, tuple)}, **self._t.get(e.id, {}))) for e in cat.ENTRIES]

    def contexts(self, entry, tier, oa=True):
        t = tier == "thorough"
        lv = {}
        for k, v in entry.levels.items():
            lv[k] = v if t else ([v[0], v[len(v) // 2], v[-1]] if len(v) > 3 else v)
        lat = engine.Lattice(entry.bases, lv, 1, dense=0, oa=self.OA[t] if oa else 0, least=True)
        return lat

    def lattice(self, entry, payload, tier):
        lat = self.contexts(entry, tier)
        self._n = self.POINTS[tier == "thorough"]
        return lat

    def job(self, name, entry, payload, lat, blocks):
        r = Result(name)
        for b in blocks:
            if b[2] is True:
                continue
            for st in lat.states(b):
                self.visit(r, name, entry, payload, st, skip=() if b[2] else b[1], deep=not b[2] and not b[1], listed=bool(b[2]))
                if r.full():
                    return r
        return r

    def visit(self, r, name, entry, payload, st, skip=(), deep=False, listed=False):
        f = self.missing(r, entry)
        if f is None:
            return
        for key, d in payload.items():
            if key in skip or key not in st or (listed and not d):
                continue
            pts = chain(entry, st, key, getattr(self, "_n", 12) * (6 if deep else 1))
            if len(pts) < 2:
                continue
            xs, ms = [], []
            for x in pts:
                m = mval(entry, dict(st, **{key: x}))
                if m is not None:
                    xs.append(x)
                    ms.append(m)
            if len(xs) < 2:
                r.undefined += 1
                continue
            steps = not d or not direction(ms, 1e-9)[0 if d > 0 else 1]     # no direction of the whole chain: that of each step
            if steps and all(abs(b - a) <= 1e-6 * max(abs(a), abs(b)) for a, b in zip(ms, ms[1:])):
                r.undefined += 1
                continue
            vs, used = [], []
            for x in xs:
                v = ival(f, dict(st, **{key: x}))
                if isinstance(v, Exception) or v != v:
                    if steps:
                        vs.append(float("nan"))
                        used.append(x)
                    continue
                vs.append(v)
                used.append(x)
            r.states += len(vs)
            r.transitions += max(0, len(vs) - 1)
            r.validated += len(vs)
            tol = 2e-3 if entry.iterative else 1e-9
            if steps:
                for i in range(len(vs) - 1):
                    dm = ms[i + 1] - ms[i]
                    size = max(abs(ms[i]), abs(ms[i + 1]), abs(vs[i]), abs(vs[i + 1]))
                    if abs(dm) > 1e-6 * size and (vs[i + 1] - vs[i]) * (1 if dm > 0 else -1) < -tol * size:
                        r.violation("mono:%s:%s" % (name, key), dict(st), "%s must %s with %s here, but goes from %r at %r to %r at %r"
                                    % (name, "rise" if dm > 0 else "fall", key, vs[i], used[i], vs[i + 1], used[i + 1]))
                        break
            elif not direction(vs, tol)[0 if d > 0 else 1]:
                i = next(i for i in range(len(vs) - 1) if not direction(vs[i:i + 2], tol)[0 if d > 0 else 1])
                r.violation("mono:%s:%s" % (name, key), dict(st), "%s must not %s with %s, but goes from %r at %r to %r at %r"
                            % (name, "fall" if d > 0 else "rise", key, vs[i], used[i], vs[i + 1], used[i + 1]))
            elif not r.samples:
                r.samples.append({"input": key, "direction": d, "chain": engine.jsonable(used), "results": engine.jsonable(vs)})

    def bounds(self, tier):
        return {"table": "mc/monotone.json", "contexts": "every base, every base with one other input changed, and the rows of an orthogonal array (strength 2) over all inputs (there only inputs with a listed direction)",
                "chain points per input": self.POINTS[tier == "thorough"], "chain points per input at a base": 6 * self.POINTS[tier == "thorough"]}


def make_table(min_strict=0.05):
    """derive the table from the reference model alone: directions that hold on every chain of the quick contexts"""
    spec = Monotone("P19")
    table = {}
    for e in cat.ENTRIES:
        row = {}
        lat = spec.contexts(e, "quick", oa=False)
        for key in e.levels:
            if isinstance(key, tuple):
                continue
            n = up = dn = strict = 0
            for b in lat.blocks():
                if b[2] or key in b[1]:
                    continue
                for st in lat.states(b):
                    ms = [mval(e, dict(st, **{key: x})) for x in chain(e, st, key, 12)]
                    ms = [m for m in ms if m is not None]
                    if len(ms) < 2:
                        continue
                    u, d = direction(ms, 1e-9)
                    n += 1
                    up += u
                    dn += d
                    strict += not (u and d)
            if n and strict > min_strict * n:
                # directions with isolated exceptions in the formula itself are kept; those chains are not judged
                if up >= 0.97 * n:
                    row[key] = 1
                elif dn >= 0.97 * n:
                    row[key] = -1
        if row:
            table[e.id] = row
    return table


# ------------------------------------------------------------------------------------------------ conservatism
class Conservative(Relation):
    SMALL = (700, 12500)
    BUDGET = (6000, 80000)
    DENSE = (12, 60)
    OA = (2500, 30000)
    assumptions = ["claimed in the states in which the published coefficients themselves are on the safe side (reference model)"]
    #        entry ids, switch, safe value, other value, sign: +1 the safe version is not smaller
    SWITCH = [
        ("ot_taw_q ot_taw_q_diml ot_e18_q ot_e18_q_diml ot_e18rm_q ot_e18rm_q_diml ot_e07_q ot_e07_q_diml", "use_best_fit", False, True, 1),
        ("ot_taw_Rc ot_taw_Rc_diml ot_e18_Rc ot_e18_Rc_diml ot_e18rm_Rc ot_e18rm_Rc_diml ot_e07_Rc ot_e07_Rc_diml", "use_best_fit", False, True, 1),
        ("ru_taw_z2p ru_taw_z2p_diml ru_eur_z2p ru_eur_z2p_diml", "use_best_fit", False, True, 1),
        ("ot_vg25_q ot_vg25_q_diml ot_vg25_Rc ot_vg25_Rc_diml", "design_calculation", True, False, 1),
        ("ot_vg25_q ot_vg25_q_diml ot_vg25_Rc ot_vg25_Rc_diml", "include_influence_wind", True, False, 1),
    ]
    #        safe entry, other entry, sign, [(inputs taken over, extra inputs)]
    ORDER = [
        ("ru_vg_z1p", "ru_vg_z2p", 1, "Hs Tmm10 gamma cot_alpha", [{}]),
        ("ru_vg_z10p", "ru_vg_z2p", -1, "Hs Tmm10 gamma cot_alpha", [{}]),
        ("cu_cube1_unit_mass_M_start_of_damage", "cu_cube1_unit_mass_M_failure", 1, "*", [{}]),
        ("cu_cube1_significant_wave_height_Hs_start_of_damage", "cu_cube1_significant_wave_height_Hs_failure", -1, "*", [{}]),
        ("rk_hud_M0", "rk_hud_M", 1, "*", [dict(damage_percentage=d) for d in (5, 10, 20, 40)]),
        ("rk_hud_H0", "rk_hud_H", -1, "*", [dict(damage_percentage=d) for d in (5, 10, 20, 40)])]
    #        0.1% force, input that carries the 2% force
    GIVEN = [("cw_fh01", "FH2p"), ("cw_fv01", "FV2p")]

    def items(self):
        out = []
        for ids, sw, safe, other, sign in self.SWITCH:
            for i in ids.split():
                e = cat.BY_ID[i]
                if any(sw in b for b in e.bases):
                    out.append((i + "/" + sw, e, ("switch", sw, safe, other, sign)))
        for i in ("ot_taw_q", "ot_taw_q_diml", "ot_taw_Rc", "ot_taw_Rc_diml"):
            out.append((i + "/sigma", cat.BY_ID[i], ("sigma",)))
        for a, b, sign, keys, more in self.ORDER:
            out.append((a + "/" + b, cat.BY_ID[a], ("order", cat.BY_ID[b], sign, keys.split(), more)))
        for a, key in self.GIVEN:
            out.append((a + "/" + key, cat.BY_ID[a], ("given", key)))
        return out

    def lattice(self, entry, payload, tier):
        t = tier == "thorough"
        bases = entry.bases
        if payload[0] == "switch":
            bases = [b for b in bases if b.get(payload[1]) == payload[2]]
        if payload[0] == "sigma":
            bases = [b for b in bases if b.get("use_best_fit")]
        return engine.pick_radius(bases, entry.levels, self.BUDGET[t], dense=self.DENSE[t], oa=self.OA[t])

    def visit(self, r, name, entry, p, st):
        if p[0] == "switch":
            if st.get(p[1]) != p[2]:
                return
            cases = [(entry, st, entry, dict(st, **{p[1]: p[3]}), p[4], "%s=%r and %s=%r" % (p[1], p[2], p[1], p[3]))]
        elif p[0] == "sigma":
            s = st.get("sigma")
            if not engine.isnum(s):
                return
            cases = [(entry, dict(st, sigma=s - d), entry, st, 1, "sigma=%g and %g" % (s - d, s)) for d in (0.5, 1, 3)]
        elif p[0] == "given":
            m, x = mval(entry, st), st.get(p[1])
            if m is None or not engine.isnum(x) or m < x:
                r.undefined += 1
                return
            f = self.missing(r, entry)
            if f is None:
                return
            v = ival(f, st)
            r.validated += 1
            if isinstance(v, Exception) or not v >= x - 1e-9 * abs(x):
                r.violation("safe:" + name, st, "%s: 0.1%% force %r is smaller than the 2%% force %r" % (name, v, x))
            return
        else:
            from .relate import accepts
            ok, req = accepts(p[1]), p[3]
            s1 = dict(st) if req == ["*"] else {k: v for k, v in st.items() if k in req}
            if req != ["*"] and any(k not in st or st[k] != st[k] for k in req):
                return
            cases = []
            for extra in p[4]:
                st2 = dict({k: v for k, v in s1.items() if k in ok}, **extra)
                cases.append((entry, s1, p[1], st2, p[2], "%s and %s" % (entry.id, p[1].id)))
        for ea, sa, eb, sb, sign, what in cases:
            ma, mb = mval(ea, sa), mval(eb, sb)
            if ma is None or mb is None or sign * (ma - mb) < -1e-12 * max(abs(ma), abs(mb)):
                r.undefined += 1
                continue
            f, g = self.missing(r, ea), self.missing(r, eb)
            if f is None or g is None:
                return
            a, b = ival(f, sa), ival(g, sb)
            if isinstance(a, Exception) or isinstance(b, Exception):
                r.violation("safe:" + name, st, "%s: fails with %r" % (name, a if isinstance(a, Exception) else b))
                return
            r.validated += 1
            tol = 1e-9 * max(abs(a), abs(b)) + 1e-14
            if ea.iterative:
                tol += 0.5 * min(abs(ma - mb), 1e-3 * max(abs(a), abs(b))) + 1e-4 * max(abs(a), abs(b))
            if not sign * (a - b) >= -tol:
                r.violation("safe:" + name, st, "%s: %r is less safe than %r (%s)" % (name, a, b, what))


# ------------------------------------------------------------------------------------------------ limits
INF = math.inf
LIMITS = {}


def _lim(ids, lo, hi, idx=0):
    for i in ids.split():
        LIMITS.setdefault(i, []).append((idx, lo, hi))


_lim("ru_taw_gb", 0.6, 1.0)
_lim("ru_taw_gbeta ot_taw_gbeta ru_eur_gbeta ot_e18_gbeta ot_dr26_gbeta ot_vg25_gbeta cw_gb cw_gF cw_gFH cw_gFV", -INF, 1.0)
_lim("ot_taw_gv", 0.65, 1.0)
_lim("tr_dan_permeable tr_dan_impermeable", 0.075, 0.8)
_lim("tr_bri", 0.05, 0.93)
_lim("tr_vg23 tr_goda", 0.0, 1.0)
_lim("rk_jum_Fp", 0.0, 1.0)


class Limits(Relation):
    SMALL = (1400, 12500)
    BUDGET = (8000, 100000)
    DENSE = (16, 80)
    OA = (2500, 30000)
    assumptions = ["limits are claimed in the states in which the reference model satisfies them"]

    def items(self):
        return [(e.id, e, LIMITS.get(e.id, [])) for e in cat.ENTRIES if e.out is not None]

    def visit(self, r, name, entry, payload, st):
        m = conf.model(entry, st)
        if m[0] != "val":
            r.undefined += 1
            return
        try:
            mo = outs(m[1])
        except (conf.Bad, TypeError, ValueError):
            r.undefined += 1
            return
        f = self.missing(r, entry)
        if f is None:
            return
        kind, got = engine.guarded(f, st)
        if kind == "exc":
            if entry.main:
                r.violation("limit:" + name, st, "%s raised %s: %s" % (name, type(got).__name__, got))
            return
        try:
            a = outs(got)
        except (conf.Bad, TypeError, ValueError) as e:
            r.violation("limit:" + name, st, "%s: %s" % (name, e))
            return
        r.validated += 1
        if len(a) != len(mo):
            r.violation("limit:" + name, st, "%s returns %d values instead of %d" % (name, len(a), len(mo)))
            return
        for i, (x, y) in enumerate(zip(a, mo)):
            if isinstance(y, (str, type(None))) or isinstance(x, (str, type(None))):
                continue
            if isinstance(y, bool):
                if bool(x) != y and not conf.agrees(entry, st, got) and len(mo) == 2:
                    r.violation("flag:" + name, st, "%s reports %r as governing regime, the smaller of the two regimes says %r (%r)" % (name, bool(x), y, m[1]))
                continue
            if fin(y) and not fin(x):
                r.violation("limit:" + name, st, "%s: result %d is %r for finite inputs (model %r)" % (name, i, x, y))
                return
            if fin(y) and y >= 0 and x < -1e-9 * max(1.0, abs(y)):
                r.violation("limit:" + name, st, "%s: result %d is negative: %r (model %r)" % (name, i, x, y))
                return
            if len(mo) == 2 and isinstance(mo[1], bool) and i == 0 and fin(y) and entry.group in ("runup", "ot_taw", "ot_eur"):
                # the governing result is the smaller of the two regimes
                if x > y * (1 + 1e-9) + 1e-13 and not conf.agrees(entry, st, got):
                    r.violation("min:" + name, st, "%s: %r exceeds the smaller of the two regimes %r" % (name, x, y))
                    return
        for idx, lo, hi in payload:
            if idx < len(mo) and fin(mo[idx]) and lo <= mo[idx] <= hi and not (lo - 1e-9 <= a[idx] <= hi + 1e-9):
                r.violation("limit:" + name, st, "%s: %r lies outside %r - %r" % (name, a[idx], lo, hi))
