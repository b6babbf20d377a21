"""Relational properties: round trips, dimensional (Froude) consistency, monotonicity, conservatism, bounds.

Every relation is first evaluated on the reference model.  Where the model itself does not satisfy it in a state (clipped,
saturated or regime-switching states, rounded published coefficients) nothing, or only what the model satisfies, is claimed
there; everywhere else the implementation must satisfy it.
"""
import inspect
import math

from .. import cat, conf, engine
from ..run import Result
from .base import Spec, batches, unstate


def first(v):
    """leading number of a result"""
    if isinstance(v, (tuple, list)):
        v = v[0]
    return float(conf.to_scalar(v))


def mval(entry, st):
    """leading number of the model result, or None when the model makes no claim / is refused / is not finite"""
    m = conf.model(entry, st)
    if m[0] != "val":
        return None
    try:
        x = first(m[1])
    except (conf.Bad, TypeError, ValueError):
        return None
    return x if x == x and abs(x) != math.inf else None


def ival(f, st):
    """leading number of the implementation result or an exception/None"""
    kind, v = engine.guarded(f, st)
    if kind == "exc":
        return v
    try:
        return first(v)
    except (conf.Bad, TypeError, ValueError) as e:
        return e


def accepts(entry):
    """inputs the (documented) interface of an entry has"""
    names = set()
    for b in entry.bases:
        names.update(b)
    for k in entry.levels:
        names.update(k if isinstance(k, tuple) else (k,))
    return names


class Relation(Spec):
    """explores lattices of one or more entries, calling self.visit(result, item, state)"""
    BUDGET = (8000, 80000)
    BATCH = 1500
    DENSE = (24, 120)
    OA = (5000, 30000)
    kmax = None
    SMALL = None            # rows of the orthogonal array at laboratory scale (quick, thorough)

    def items(self):
        """list of (name, entry, payload)"""
        raise NotImplementedError

    def visit(self, r, name, entry, payload, st):
        raise NotImplementedError

    def lattice(self, entry, payload, tier):
        t = tier == "thorough"
        return engine.pick_radius(entry.bases, entry.levels, self.BUDGET[t], kmax=self.kmax, dense=self.DENSE[t], oa=self.OA[t])

    def job(self, name, entry, payload, lat, blocks):
        r = Result(name)
        for b in blocks:
            k = len(b[1])
            for st in lat.states(b):
                r.states += 1
                r.transitions += k
                self.visit(r, name, entry, payload, st)
                if r.full():
                    return r
                if not r.samples and k and r.validated:
                    r.samples.append({"state": engine.jsonable(st)})
        return r

    extra = None

    def jobs(self, tier):
        jobs = list(self.extra(tier)) if self.extra else []
        for name, entry, payload in self.items():
            try:
                engine.load(entry.mod)
            except Exception:  # noqa: BLE001
                pass
            lat = self.lattice(entry, payload, tier)
            for bl in batches(lat, self.BATCH):
                jobs.append(lambda n=name, e=entry, p=payload, lat=lat, bl=bl: self.job(n, e, p, lat, bl))
            if self.SMALL:
                bs, lv = cat.rescaled(entry)
                small = engine.Lattice([b for i, b in enumerate(bs) if entry.bases[i] in lat.bases], {k: lv[k] for k in lat.levels if k in lv}, 1,
                                       dense=self.DENSE[tier == "thorough"] // 3, oa=self.SMALL[tier == "thorough"])
                for bl in batches(small, self.BATCH):
                    jobs.append(lambda n=name, e=entry, p=payload, lat=small, bl=bl: self.job(n, e, p, lat, bl))
        return jobs

    def bounds(self, tier):
        out = {}
        for name, entry, payload in self.items():
            lat = self.lattice(entry, payload, tier)
            qt = [engine.pick_oa(len(lat._keys(b)), lat.oa) for b in lat.bases]
            out[name] = "%d bases of %s, Hamming radius %d, orthogonal arrays (levels, strength) %s" % (
                len(lat.bases), entry.id, lat.k, sorted(set(x for x in qt if x)))
        if self.SMALL:
            out["laboratory scale"] = "every base and level scaled by 1:40 after Froude: radius 1, sweeps, orthogonal arrays of up to %d rows" % self.SMALL[
                tier == "thorough"]
        return out

    def replay(self, v):
        for name, entry, payload in self.items():
            if name == v["case"]:
                r = Result(name)
                self.visit(r, name, entry, payload, unstate(v["state"]))
                return r.viols[0]["detail"] if r.viols else None
        return "n/a"

    def missing(self, r, entry):
        """the function, or None after recording that it is not there"""
        try:
            return engine.impl(entry.mod, entry.fn)
        except (engine.Missing, ImportError, SyntaxError) as e:
            if entry.main:
                r.violation("missing:" + entry.id, {}, "the computation is not available: %r" % e)
            return None


# ------------------------------------------------------------------------------------------------ round trips
class Pair:
    def __init__(self, fwd, inv, solved, out, fixed=None, move=None, ren=None):
        self.fwd, self.inv, self.solved, self.out = cat.BY_ID[fwd], cat.BY_ID[inv], solved, out
        self.fixed = fixed or {}
        self.move = move           # optional function(state, forward value) -> inverse state or None
        self.ren = ren or {}
        self.name = fwd + ">" + inv

    def inverse_state(self, st, val):
        if self.move is not None:
            return self.move(st, val)
        ok = accepts(self.inv)
        out = {}
        for k, v in st.items():
            if k == self.solved:
                continue
            if k in self.fixed:
                if v != self.fixed[k]:
                    return None
                continue
            k = self.ren.get(k, k)
            if k not in ok:
                return None
            out[k] = v
        out[self.out] = val
        return out


class RoundTrip(Relation):
    SMALL = (1400, 12500)
    assumptions = [
        "a round trip is claimed where it holds in the reference model, up to the model's own deviation (rounded published "
        "coefficients) plus a relative 1e-6 (1e-3 where a documented iteration with a stopping tolerance is involved)",
        "inputs lie on the bounded lattice described under bounds",
    ]
    BUDGET = (12000, 150000)

    def __init__(self, pid, pairs):
        super().__init__(pid)
        self._pairs = pairs

    def items(self):
        return [(p.name, p.fwd, p) for p in self._pairs()]

    def visit(self, r, name, entry, p, st):
        x = st.get(p.solved)
        if not engine.isnum(x) or x != x:
            return
        mf = mval(entry, st)
        if mf is None or not 1e-25 < abs(mf) < 1e25:
            r.undefined += 1
            return
        si = p.inverse_state(st, mf)
        if si is None:
            r.undefined += 1
            return
        mi = mval(p.inv, si)
        if mi is None or abs(mi - x) > 0.05 * abs(x) + 1e-9:
            r.undefined += 1            # not invertible here (clipped or other regime)
            return
        it = max(entry.iterative, p.inv.iterative)
        # sensitivity of the inverse to the rounding/iteration error of the forward result, from the model
        around = [mval(p.inv, p.inverse_state(st, mf * (1 + s * (1e-3 if it else 1e-9)))) for s in (1, -1)]
        if None in around:
            r.undefined += 1            # edge of what can be inverted
            return
        sens = abs(around[0] - mi)
        f, g = self.missing(r, entry), self.missing(r, p.inv)
        if f is None or g is None:
            return
        r.validated += 1
        y = ival(f, st)
        if isinstance(y, Exception):
            r.violation("rt:" + name, st, "%s: forward computation failed with %r (model %r)" % (name, y, mf))
            return
        si = p.inverse_state(st, y)
        z = ival(g, si)
        if isinstance(z, Exception):
            r.violation("rt:" + name, st, "%s: inverse computation failed with %r for %r" % (name, z, si))
            return
        tol = 1.5 * abs(mi - x) + sens + (1e-3 if it else 1e-6) * abs(x) + (1e-3 if it else 1e-9)
        if not abs(z - x) <= tol:
            r.violation("rt:" + name, st, "%s: started from %s=%r, computed %r, the inverse gives back %r (model gives back %r)"
                        % (name, p.solved, x, y, z, mi))


def pairs_overtopping():
    P = []
    for a, b in (("ot_taw_q", "ot_taw_Rc"), ("ot_e18_q", "ot_e18_Rc"), ("ot_e18rm_q", "ot_e18rm_Rc"),
                 ("ot_dr24_q24", "ot_dr24_Rc24"), ("ot_dr24_q26", "ot_dr24_Rc26"), ("ot_dr26_q28", "ot_dr26_Rc28"),
                 ("ot_dr26_q32", "ot_dr26_Rc32"), ("ot_vg21_q", "ot_vg21_Rc"), ("ot_vg25_q", "ot_vg25_Rc")):
        P.append(Pair(a, b, "Rc", "q"))
        P.append(Pair(b, a, "q", "Rc"))
    P.append(Pair("ot_e07_q", "ot_e07_Rc", "Rc", "q", fixed={"g": 9.81}))
    P.append(Pair("ot_e07_Rc", "ot_e07_q", "q", "Rc"))
    return P


def _m(k, f):
    return lambda st, v: f(dict(st), v)


def pairs_structural():
    P = []

    def both(a, b, ka, kb, **kw):
        P.append(Pair(a, b, ka, kb, **kw))
        P.append(Pair(b, a, kb, ka, **kw))
    both("rk_hud_M0", "rk_hud_H0", "Hs", "M50")
    both("rk_hud_M", "rk_hud_H", "Hs", "M50")
    for pre, t in (("vdm88", "Tm"), ("vdmm", "Tmm10")):
        both("rk_%s_S" % pre, "rk_%s_Dn" % pre, "Dn50", "S")

        def to_hs(st, v):
            st = dict(st)
            h = st.pop("Hs")
            st["ratio_H2p_Hs"] = st.pop("H2p") / h
            st["S"] = v
            return st if "M50" in st or "Dn50" in st else None

        def to_s(st, v):
            st = dict(st)
            if st.pop("g", 9.81) != 9.81:
                return None
            st.pop("S")
            st["Hs"] = v
            st["H2p"] = v * st.pop("ratio_H2p_Hs")
            return st
        P.append(Pair("rk_%s_S" % pre, "rk_%s_Hs" % pre, "Hs", "S", move=to_hs))
        P.append(Pair("rk_%s_Hs" % pre, "rk_%s_S" % pre, "S", "Hs", move=to_s))
    both("rk_vdm21_S", "rk_vdm21_Dn", "Dn50", "S")
    both("rk_vdm21_S", "rk_vdm21_Hs", "Hs", "S", fixed={"g": 9.81})
    both("rk_ets_S", "rk_ets_Dn", "Dn50", "S", fixed={"rho_water": 1025.0})
    both("rk_ets_S", "rk_ets_Hs", "Hs", "S", fixed={"rho_water": 1025.0, "g": 9.81})
    both("rk_jum_S", "rk_jum_Dn", "Dn50", "S", fixed={"rho_water": 1025.0})
    both("rk_jum_S", "rk_jum_Hs", "Hs", "S", fixed={"rho_water": 1025.0, "g": 9.81})
    both("rk_sca_S", "rk_sca_Dn", "Dn50", "S")
    both("rk_sca_S", "rk_sca_H", "Hm0", "S", fixed={"g": 9.81})
    both("rk_kb_Hs", "rk_kb_Dn", "Dn50", "Hs")
    both("rk_kb_Hs", "rk_kb_Rc", "Rc", "Hs")
    for s in ("accropode2", "accropode", "core_loc", "cubes_double_layer", "cubipod", "tetrapod"):
        both("cu_%s_M" % s, "cu_%s_H" % s, "Hs", "M")
    for s in ("start_of_damage", "failure"):
        both("cu_cube1_unit_mass_M_" + s, "cu_cube1_significant_wave_height_Hs_" + s, "Hs", "M")

    def cube_s(st, v):
        st = dict(st)
        st["s0m"] = 2 * math.pi * st["Hs"] / (9.81 * st.pop("Tm") ** 2)
        st.pop("Nod")
        st["Dn"] = v
        return st
    P.append(Pair("cu_cube2_Dn", "cu_cube2_Nod", "Nod", "Dn", move=cube_s))
    both("cu_cube2_Nod", "cu_cube2_H", "Hs", "Nod")
    for p in ("xb", "xp"):
        both("cu_%s_V" % p, "cu_%s_HV" % p, "Hs", "V")
        both("cu_%s_M" % p, "cu_%s_HM" % p, "Hs", "M")
    both("to_ets_Nod", "to_ets_Dn", "Dn50", "Nod")
    both("to_ets_Nod", "to_ets_H", "Hs", "Nod")
    for p in ("ger", "vdm"):
        both("to_%s_Nod" % p, "to_%s_Dn" % p, "Dn50", "Nod")
        both("to_%s_Nod" % p, "to_%s_H" % p, "Hs", "Nod")
        both("to_%s_Nod" % p, "to_%s_ht" % p, "ht", "Nod")
    both("to_vgw_Nod", "to_vgw_Dn", "Dn50", "Nod")
    both("re_vg07_S", "re_vg07_Dn", "Dn50", "S", fixed={"rho_rock": 2650.0})
    both("re_vg07_S", "re_vg07_H", "Hs", "S")
    both("re_vgp_S", "re_vgp_Dn", "Dn50", "S")
    both("re_vgp_S", "re_vgp_H", "Hs", "S")
    both("cp_M50", "cp_Dn50", "Dn50", "M50")
    both("cp_S", "cp_Nod", "Nod", "S")
    return P
