"""P01-P12: every public computation refines the reference model on the whole bounded input lattice."""
from .. import cat, conf, engine
from ..run import Result
from . import equiv
from .base import Spec, batches, unstate

# coarse-state budget per entry: the largest Hamming radius whose lattice fits is explored completely
BUDGET = {
    "ot_taw": (60000, 400000), "ot_eur": (60000, 400000), "ot_new": (150000, 1500000), "runup": (60000, 400000),
    "transmission": (400000, 4000000), "goda": (250000, 2500000), "crestwall": (300000, 3000000), "rock": (100000, 1200000),
    "concrete": (200000, 2000000), "toe": (200000, 2000000), "rear": (100000, 1200000), "core": (400000, 4000000),
}

# rows of the orthogonal array per base
OA = {"ot_taw": (12500, 84000), "ot_eur": (7000, 84000), "runup": (12500, 84000), "ot_new": (12500, 84000), "transmission": (84000, 280000),
      "goda": (29000, 280000), "crestwall": (84000, 280000), "rock": (29000, 84000), "concrete": (84000, 280000), "toe": (29000, 280000),
      "rear": (84000, 280000), "core": (280000, 280000)}
SMALL = (1400, 29000)


def explore(entry, lat, blocks):
    r = Result(entry.id)
    try:
        f = engine.impl(entry.mod, entry.fn)
    except (engine.Missing, ImportError, SyntaxError) as e:
        if entry.main:
            r.violation("missing:" + entry.id, {}, "the computation is not available: %r" % e)
        else:
            r.bump("helper_absent")
        return r
    for b in blocks:
        k = len(b[1])
        for st in lat.states(b):
            r.states += 1
            r.transitions += k
            verdict, detail = conf.check_state(entry, f, st)
            if verdict == "undef":
                r.undefined += 1
                continue
            r.validated += 1
            if verdict == "refused":
                r.refused += 1
            elif verdict == "viol":
                if not entry.main and detail.startswith("raised TypeError") and "argument" in detail:
                    r.bump("helper_absent")
                    return r
                r.violation("conf:" + entry.id, st, "%s.%s %s" % (entry.mod, entry.fn, detail))
                if r.full():
                    return r
            if len(r.samples) < 1 and k:
                r.samples.append({"function": entry.fn, "state": engine.jsonable(st), "verdict": verdict})
    return r


class Conform(Spec):
    assumptions = [
        "the reference model in mc/ref (written from the documented formulas, scalar, independent of the implementation) is right",
        "inputs lie on the bounded lattice described under bounds; between lattice points nothing is claimed",
        "relative tolerance 1e-7 (iterative solvers: between the stopped and the converged iterate)",
    ]

    def __init__(self, pid, group):
        super().__init__(pid)
        self.group = group
        self.extra_jobs = []

    def entries(self):
        return [e for e in cat.ENTRIES if e.group == self.group]

    def jobs(self, tier):
        jobs = []
        budget = BUDGET[self.group][tier == "thorough"]
        for e in self.entries():
            try:
                engine.load(e.mod)
            except Exception:  # noqa: BLE001  (reported by the job)
                pass
            lat = engine.pick_radius(e.bases, e.levels, budget, dense=48 if tier == "quick" else 200, oa=OA[self.group][tier == "thorough"])
            for bl in batches(lat, 4000):
                jobs.append(lambda e=e, lat=lat, bl=bl: explore(e, lat, bl))
            # the same at laboratory scale
            bs, lvs = cat.rescaled(e)
            small = engine.Lattice(bs, lvs, 1, dense=8 if tier == "quick" else 48, oa=SMALL[tier == "thorough"])
            for bl in batches(small, 4000):
                jobs.append(lambda e=e, lat=small, bl=bl: explore(e, lat, bl))
            # the same with inputs left to their defaults
            lv = {k: (v if len(v) < 3 else [v[0], v[-1]]) for k, v in e.levels.items()}
            part = engine.Lattice(e.bases, lv, 1, dense=0)
            for bi in range(len(e.bases)):
                one = engine.Lattice([e.bases[bi]], part.levels, 1, dense=0)
                jobs.append(lambda e=e, one=one: equiv.LEFT.leave_job(e, one, 1))
        for x in self.extra_jobs:
            jobs.extend(x(tier))
        return jobs

    def bounds(self, tier):
        budget = BUDGET[self.group][tier == "thorough"]
        out = {}
        for e in self.entries():
            lat = engine.pick_radius(e.bases, e.levels, budget, oa=OA[self.group][tier == "thorough"])
            qt = [engine.pick_oa(len(lat._keys(b)), lat.oa) for b in e.bases]
            out[e.id] = "%d bases, Hamming radius %d over %d inputs + dense single-input sweeps + orthogonal arrays (levels, strength) %s" % (
                len(e.bases), lat.k, len(e.levels), sorted(set(x for x in qt if x)))
        out["laboratory scale"] = "every base and level scaled by 1:40 after Froude: radius 1, sweeps, orthogonal arrays of up to %d rows" % SMALL[
            tier == "thorough"]
        out["left out"] = "each single input of every base and of its neighbours, and all inputs with a default, left to the default"
        return out

    def replay(self, v):
        if v["case"].endswith("/left out"):
            return equiv.LEFT.replay(v)
        e = cat.BY_ID.get(v["case"])
        if e is None:
            return "n/a"
        verdict, detail = conf.check_state(e, engine.impl(e.mod, e.fn), unstate(v["state"]))
        return detail if verdict == "viol" else None
