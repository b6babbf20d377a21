"""P26: where a formula has no real value (root or logarithm of a negative number) the computation never returns a number."""
import numpy as np

from .. import cat, engine, nd
from ..ref.phys import NoReal
from ..run import Result
from .base import Spec, batches, unstate

BUDGET = (20000, 400000)
OA = (2500, 29000)


def no_real(entry, st):
    try:
        nd.plain(lambda: entry.ref(**st))
    except NoReal:
        return True
    except Exception:  # noqa: BLE001  (no claim here; P01-P12 decide the rest)
        pass
    return False


def is_number(v):
    """does the (first) result contain an ordinary or a complex number?"""
    while isinstance(v, (tuple, list)) and v:
        v = v[0]
    if v is None or isinstance(v, (str, dict)):
        return False
    a = np.asarray(v)
    if a.dtype.kind == "c":
        return True
    try:
        return bool(np.isfinite(a.astype(float)).any())
    except (TypeError, ValueError):
        return False


def explore(e, lat, blocks):
    r = Result(e.id)
    try:
        f = engine.impl(e.mod, e.fn)
    except (engine.Missing, ImportError, SyntaxError):
        r.bump("absent")
        return r
    for b in blocks:
        for st in lat.states(b):
            r.states += 1
            r.transitions += len(b[1])
            if not no_real(e, st):
                r.undefined += 1
                continue
            kind, v = engine.guarded(f, st)
            r.validated += 1
            if kind == "exc":
                if not e.main and isinstance(v, TypeError) and "argument" in str(v):
                    r.bump("absent")
                    return r
                r.refused += 1
            elif is_number(v):
                r.violation("noreal:" + e.id, st, "%s.%s returned %r where the formula has no real value" % (e.mod, e.fn, v))
                if r.full():
                    return r
            if not r.samples:
                r.samples.append({"function": e.fn, "state": engine.jsonable(st), "outcome": repr(v)[:200]})
    return r


class NoNumber(Spec):
    assumptions = ["the reference model in mc/ref is right about where the formula takes a root or logarithm of a negative number",
                   "inputs lie on the bounded lattice described under bounds", "the first result of the computation is meant"]

    def entries(self):
        return cat.ENTRIES

    def lattice(self, e, tier):
        t = tier == "thorough"
        return engine.pick_radius(e.bases, e.levels, BUDGET[t], dense=(20, 100)[t], oa=OA[t])

    def jobs(self, tier):
        jobs = []
        for e in self.entries():
            try:
                engine.load(e.mod)
            except Exception:  # noqa: BLE001
                pass
            lat = self.lattice(e, tier)
            for bl in batches(lat, 4000):
                jobs.append(lambda e=e, lat=lat, bl=bl: explore(e, lat, bl))
            bs, lv = cat.rescaled(e)
            small = engine.Lattice(bs, lv, 1, dense=8, oa=OA[tier == "thorough"])
            for bl in batches(small, 4000):
                jobs.append(lambda e=e, lat=small, bl=bl: explore(e, lat, bl))
        return jobs

    def bounds(self, tier):
        return {"entries": len(cat.ENTRIES), "lattice": "largest Hamming radius with at most %d states per entry, dense single-input sweeps, "
                "orthogonal arrays; the same with radius 1 at laboratory scale (1:40)" % BUDGET[tier == "thorough"]}

    def replay(self, v):
        e = cat.BY_ID.get(v["case"])
        if e is None:
            return "n/a"
        kind, got = engine.guarded(engine.impl(e.mod, e.fn), unstate(v["state"]))
        return repr(got) if kind != "exc" and is_number(got) else None
