"""P25: computations that solve their formula by iteration, over starting values, tolerances and iteration limits."""
import warnings

from .. import cat, conf, engine, nd
from ..ref import rear as RR, runup as R
from ..ref.phys import Undef
from ..run import Result
from . import conform
from .arrays import Arrays
from .base import unstate
from .conform import Conform

NAN = float("nan")
TOL = [1e-2, 1e-4, 1e-6, 1e-9]
ENTRIES = []
BY_ID = {}


def I(id, mod, fn, ref, bases, levels, out=0.0, **kw):
    e = cat.Entry(id, "iter", mod, fn, ref, bases, out, levels=levels, **kw)
    ENTRIES.append(e)
    BY_ID[id] = e


def from_cat(id, src, solver, bases=None):
    """the catalogue entry `src` with the solver's own inputs added; the physical inputs on three levels"""
    e = cat.BY_ID[src]
    lv = {}
    for k, v in e.levels.items():
        if isinstance(k, tuple) or k.startswith("c"):
            continue
        nums = [x for x in v if engine.isnum(x) and x == x]
        lv[k] = v if len(v) <= 3 or len(nums) < 3 else [nums[1], nums[len(nums) // 2], nums[-2]]
    lv["cot_alpha"] = e.levels.get("cot_alpha", [2.0])
    lv.update(solver)
    lim = [k for k in solver if k.startswith("max_iter")]
    bs = [dict(b, **dict({k: v[0] for k, v in solver.items()}, **{x: n})) for b in (bases or e.bases) for x in lim for n in solver[x]]
    lv.update({x: [] for x in lim})             # a whole number: a configuration, not a level
    lv = {k: v for k, v in lv.items() if any(k in b for b in bs)}
    for b in bs:
        for k in b:
            lv.setdefault(k, [])
    I(id, e.mod, e.fn, e.ref, bs, lv, out=e.out, iterative=e.iterative or 1e-5)


MI = [1000, 400]
from_cat("it_ets_Dn", "rk_ets_Dn", dict(tolerance=TOL[::-1], max_iter=MI, Cp_init=[0.5, 0.05, 0.9, 2.0, 10.0]))
from_cat("it_jum_Hs", "rk_jum_Hs", dict(tolerance=[1e-3, 1e-2, 1e-6, 1e-9], max_iter=MI, smm10_init=[0.03, 0.003, 0.01, 0.06]))
from_cat("it_kb_Dn", "rk_kb_Dn", dict(tolerance=TOL[::-1], max_iter=MI, Ns_init=[2.0, 0.8, 1.3, 3.0, 6.0]))
from_cat("it_kb_Rc", "rk_kb_Rc", dict(tolerance=TOL[::-1], max_iter=MI, Rc_Dn50_init=[-1.0, -3.0, -0.2, 0.5, 2.0]))
from_cat("it_ets21_H", "to_ets_H", dict(max_iter=MI, smm10_init=[0.03, 0.003, 0.01, 0.06]))
from_cat("it_re07_H", "re_vg07_H", dict(tolerance=TOL[::-1], max_iterations=[10000, 500, 40, 5, 1]))
from_cat("it_rep_H", "re_vgp_H", dict(tolerance=TOL[::-1], max_iterations=[10000, 500, 40, 5, 1]))
from_cat("it_vg25_Rc", "ot_vg25_Rc_diml", dict(tolerance=TOL[::-1], max_iter=MI),
         bases=[b for b in cat.BY_ID["ot_vg25_Rc_diml"].bases if b["include_influence_wind"]])

_zb = [dict(Hm0=2.0, Tmm10=6.5, cot_alpha_down=4.0, cot_alpha_up=3.0, B_berm=0.0, db=0.0, gamma_f=1.0, gamma_beta=0.9),
       dict(Hm0=1.5, Tmm10=5.0, cot_alpha_down=3.0, cot_alpha_up=2.5, B_berm=5.0, db=-0.5, gamma_f=0.6, gamma_beta=1.0),
       dict(Hm0=2.5, Tmm10=9.0, cot_alpha_down=2.0, cot_alpha_up=3.5, B_berm=8.0, db=1.0, gamma_f=0.5, gamma_beta=0.8)]


def _z2p(default, best):
    def ref(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c1=default[0], c2=default[1], c3=default[2],
            c4=default[3], use_best_fit=False, tolerance=1e-4, max_iter=1000):
        c = best((c1, c2, c3, c4)) if use_best_fit else (c1, c2, c3, c4)
        return R.z2p_for_slope(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, c, tolerance, max_iter)
    return ref


def _gb(default, best):
    def ref(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c1=default[0], c2=default[1], c3=default[2], c4=default[3],
            use_best_fit=False, gamma_f=1.0):
        c = best((c1, c2, c3, c4)) if use_best_fit else (c1, c2, c3, c4)
        return R.gamma_b_two_pass(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_f, gamma_beta, c)
    return ref


for _p, _m, _d, _f in (("taw", "taw2002", (1.75, 4.3, 1.6, 1.0), R.TAW_RU_FIT), ("eur", "eurotop2018", (1.75, 4.3, 1.5, 1.07), R.EUR_RU_FIT)):
    _c = dict(zip(("c1", "c2", "c3", "c4"), _d))
    _lv = dict({k: cat.alt(v) for k, v in _c.items()}, tolerance=TOL[::-1], max_iter=[], use_best_fit=[False, True],
               cot_alpha_down=[1.0, 2.0, 3, 4.5], cot_alpha_up=[1.0, 2.0, 3, 4.5], db=[-1.5, -0.5, 0.0, 0.75, 2.0], B_berm=[0.0, 2.0, 6.0])
    I("it_%s_z2p" % _p, cat.RU + _m, "iteration_procedure_z2p", _z2p(_d, lambda c, f=_f: f),
      [dict(_zb[0], tolerance=1e-9, max_iter=1000)] + [dict(b, tolerance=1e-4) for b in _zb] + [dict(_zb[1], use_best_fit=False, **_c)],
      _lv, out=1.0, main=False, iterative=1e-4)
    _b = dict(Hm0=2.0, Tmm10=6.5, cot_alpha_average=3.5, B_berm=4.0, L_berm=18.0, db=0.5, gamma_beta=0.9)
    I("it_%s_gb" % _p, cat.RU + _m, "iteration_procedure_gamma_b", _gb(_d, lambda c, f=_f: f),
      [_b, dict(_b, db=-1.0, gamma_f=0.6, use_best_fit=False, **_c)],
      dict({k: cat.alt(v) for k, v in _c.items()}, use_best_fit=[False, True], cot_alpha_average=[1.5, 3.5, 6.0], L_berm=[0.0, 8.0, 18.0, 60.0]),
      main=False)


def warned(f, st):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        kind, v = engine.guarded(f, st)
    return kind, v, [str(x.message).lower() for x in w]


def tells(msgs):
    return any("iteration" in m or "converge" in m for m in msgs)


def announce(e, lat, blocks):
    """rear-side stability: a result that has not converged is announced, a converged one is not"""
    r = Result(e.id + "/announced")
    try:
        f = engine.impl(e.mod, e.fn)
    except (engine.Missing, ImportError, SyntaxError):
        r.bump("absent")
        return r
    for b in blocks:
        for st in lat.states(b):
            r.states += 1
            r.transitions += len(b[1])
            lim = st["max_iterations"]
            m = conf.model(e, st)
            if m[0] == "val":
                if lim > 1 and conf.model(e, dict(st, max_iterations=lim - 1))[0] == "undef":
                    r.undefined += 1            # settles in the very last pass: either is admissible
                    continue
                if lim == 1:
                    r.undefined += 1
                    continue
                want = False
            else:
                # no settled value within the limit although every pass is defined?
                if not defined(e, st):
                    r.undefined += 1
                    continue
                want = True
            kind, v, msgs = warned(f, st)
            r.validated += 1
            if kind == "exc":
                r.violation("it:" + e.id, st, "%s raised %s: %s" % (e.fn, type(v).__name__, v))
            elif tells(msgs) != want:
                r.violation("it:" + e.id, st, "%s %s although the iteration %s within %d passes" % (
                    e.fn, "is silent" if want else "announces that it has not converged",
                    "does not converge" if want else "converges", lim))
            if r.full():
                return r
    return r


def defined(e, st):
    """does the model run out of passes, each of them defined?"""
    try:
        nd.plain(lambda: e.ref(**st))
    except RR.NotSettled:
        return True
    except (Undef, ZeroDivisionError, OverflowError, ValueError):
        pass
    return False


conform.BUDGET["iter"] = (25000, 600000)
conform.OA["iter"] = (7000, 84000)


class Iterate(Conform):
    def __init__(self, pid):
        super().__init__(pid, "iter")

    def entries(self):
        return ENTRIES

    def jobs(self, tier):
        from .base import batches
        jobs = super().jobs(tier)
        arr = Arrays(self.pid)
        for e in ENTRIES:
            if e.id.endswith("_gb"):
                continue                        # two fixed passes, no iteration
            bis = range(len(e.bases)) if tier == "thorough" else sorted(set((0, len(e.bases) // 2, len(e.bases) - 1)))
            for bi in bis:                      # every element satisfies the formula
                jobs.append(lambda e=e, bi=bi: arr.job(e, bi, tier))
        for id in ("it_re07_H", "it_rep_H"):
            e = BY_ID[id]
            lat = engine.pick_radius(e.bases, e.levels, conform.BUDGET["iter"][tier == "thorough"])
            for bl in batches(lat, 4000):
                jobs.append(lambda e=e, lat=lat, bl=bl: announce(e, lat, bl))
        return jobs

    def replay(self, v):
        case = v["case"]
        if case.endswith("/announced"):
            e = BY_ID[case[:-10]]
            return str(warned(engine.impl(e.mod, e.fn), unstate(v["state"]))[1:])
        e = BY_ID.get(case)
        if e is None or "call" in v["state"]:
            return "n/a"
        verdict, detail = conf.check_state(e, engine.impl(e.mod, e.fn), unstate(v["state"]))
        return detail if verdict == "viol" else None
