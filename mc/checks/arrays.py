"""P16: product exploration of scalar and array executions of the implementation."""
import itertools
import json
import os

import numpy as np

from .. import cat, conf, engine
from ..run import Result
from . import equiv
from .base import Spec

PLAIN = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "plain.json")))

SOLVER = ("tolerance", "max_iter", "max_iterations", "Cp_init", "smm10_init", "Ns_init", "Rc_Dn50_init", "g", "use_best_fit",
          "c1", "c2", "c3", "c4", "c5", "c_pl", "c_s")


def plain(e, key):
    """documented as a plain number (coefficient, g, switch): no claim for arrays"""
    return key in (SOLVER if e.group == "iter" else PLAIN.get(e.id, ()))


def nums(e, base, key):
    """usable levels of an input at a base, the base value first"""
    if plain(e, key) or not engine.isnum(base.get(key)) or base[key] != base[key]:
        return []
    out = [base[key]]
    for v in e.levels.get(key, []):
        if engine.isnum(v) and v == v and v not in out:
            out.append(v)
    return out


def thin(lv, n):
    if len(lv) <= n:
        return lv
    rest = sorted(lv[1:])
    step = (len(rest) - 1) / (n - 2) if n > 2 else 1
    pick = sorted(set(int(round(i * step)) for i in range(n - 1)))
    return [lv[0]] + [rest[i] for i in pick if i < len(rest)]


def element(got, i, n):
    """what the array result says about element i"""
    if isinstance(got, dict):
        return {k: element(v, i, n) for k, v in got.items()}
    if isinstance(got, (tuple, list)):
        return tuple(element(v, i, n) for v in got)
    if got is None or isinstance(got, str):
        return got
    a = np.asarray(got)
    if a.dtype.kind in "US":
        return str(a.reshape(-1)[i if a.size > 1 else 0])
    if a.size == 1:
        return a.reshape(-1)[0]
    if a.shape != (n,):
        raise conf.Bad("result of shape %s for arrays of length %d" % (a.shape, n))
    return a[i]


def equal(a, b, rtol):
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and equal(v, b[k], rtol) for k, v in a.items())
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(equal(x, y, rtol) for x, y in zip(a, b))
    if a is None or isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    x, y = conf.to_scalar(a), conf.to_scalar(b)
    if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)):
        return bool(x) == bool(y)
    return conf.close(float(x), float(y), rtol)


class Arrays(Spec):
    assumptions = [
        "one-dimensional arrays of equal length; elements for which the scalar computation is undefined or refused in the model "
        "are left out", "element-wise agreement to a relative 1e-9; iterative results between the stopped and the converged iterate",
    ]
    LV = (4, 7)

    def entries(self):
        return cat.ENTRIES

    def scalar(self, ctx, st):
        """scalar outcome of the implementation, or None where no claim is made"""
        e, f, cache = ctx
        key = tuple(sorted((k, repr(v)) for k, v in st.items()))
        if key not in cache:
            m = conf.model(e, st)
            if m[0] != "val":
                cache[key] = None
            else:
                kind, got = engine.guarded(f, st)
                cache[key] = None if kind == "exc" else (got,)
        return cache[key]

    def compare(self, r, ctx, rows, keys, note, dtype=float):
        """rows: scalar states that differ only in `keys`; run them as arrays. A row with a nan in one of them is a missing
        record: it has to leave the other rows alone."""
        e, f, _ = ctx
        ok = []
        for st in rows:
            if any(st[k] != st[k] for k in keys):
                ok.append((st, (None,)))
                continue
            s = self.scalar(ctx, st)
            if s is None:
                r.undefined += 1
                continue
            ok.append((st, s[0]))
        if all(any(st[k] != st[k] for k in keys) for st, _ in ok):
            return
        n = len(ok)
        call = dict(ok[0][0])
        for k in keys:
            call[k] = np.array([st[k] for st, _ in ok], dtype=dtype)
            if note == "views":
                call[k] = np.repeat(call[k][::-1], 2)[::-2]
        r.states += n
        r.transitions += n
        kind, got = engine.guarded(f, call)
        shown = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in call.items()}
        sig = "arr:" + e.id
        if kind == "exc":
            r.violation(sig, {"call": shown, "dtype": np.dtype(dtype).name},
                        "%s (%s): arrays for %s raised %s: %s" % (e.id, note, ", ".join(keys), type(got).__name__, got))
            return
        r.validated += n
        for i, (st, want) in enumerate(ok):
            if any(st[k] != st[k] for k in keys):
                continue
            try:
                g = element(got, i, n)
                if equal(want, g, 1e-9) or conf.agrees(e, st, g, conf.RTOL if e.iterative else 1e-9) or (e.iterative >= 1e-3 and equal(want, g, e.iterative)):
                    continue
                bad = "element %d is %r, the scalar call gives %r" % (i, g, want)
            except (conf.Bad, TypeError, ValueError, IndexError) as x:
                bad = str(x)
            r.violation(sig, {"call": shown, "dtype": np.dtype(dtype).name}, "%s (%s): arrays for %s: %s" % (e.id, note, ", ".join(keys), bad))
            break
        if not r.samples:
            r.samples.append({"arrays": list(keys), "length": n, "call": engine.jsonable(shown)})

    def job(self, e, bi, tier):
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError) as x:
            if e.main:
                r.violation("missing:" + e.id, {}, "the computation is not available: %r" % x)
            return r
        base = e.bases[bi]
        ctx = (e, f, {})
        if self.scalar(ctx, base) is None and not e.main:
            return r
        lv = {k: nums(e, base, k) for k in e.levels if not isinstance(k, tuple)}
        lv = {k: v for k, v in lv.items() if len(v) > 1}
        keys = list(lv)
        n = self.LV[tier == "thorough"]
        for k in keys:
            full = lv[k]
            self.compare(r, ctx, [dict(base, **{k: v}) for v in sorted(full)], [k], "rising")
            self.compare(r, ctx, [dict(base, **{k: v}) for v in sorted(full, reverse=True)], [k], "falling")
            for v in (full[0], full[-1]):
                self.compare(r, ctx, [dict(base, **{k: v})], [k], "length 1")
            for a, b in itertools.permutations(thin(full, n + 1), 2):
                self.compare(r, ctx, [dict(base, **{k: a}), dict(base, **{k: b})], [k], "two elements")
            lo, hi = min(full), max(full)
            ints = sorted(set(int(x) for x in full if float(x).is_integer()) | set(
                i for i in (int(lo) + 1, int(lo) + 2, int((lo + hi) / 2)) if lo <= i <= hi and hi > 2))
            if len(ints) > 1:
                self.compare(r, ctx, [dict(base, **{k: v}) for v in ints], [k], "integers", dtype=int)
            if r.full():
                return r
            for a, b in itertools.permutations(thin(full, 3), 2):       # repeated values, and many of them
                for pat in ((a, a, b), (a, b, a), (a, a), (a, b) * 5, (a,) * 7 + (b,), (b,) + (a,) * 12, (a, b, b, a) * 16):
                    self.compare(r, ctx, [dict(base, **{k: v}) for v in pat], [k], "repeats")
            self.compare(r, ctx, [dict(base, **{k: v}) for v in full * (1 + 150 // len(full))], [k], "long")
        required = [k for k, has, _ in equiv.sig(e) if not has and k in lv] if e.group != "iter" else []
        for k in required:                  # missing records
            full = sorted(thin(lv[k], n))
            at = [dict(base, **{k: v}) for v in full]
            gap = dict(base, **{k: float("nan")})
            for i in range(len(full) + 1):
                self.compare(r, ctx, at[:i] + [gap] + at[i:], [k], "a missing record")
            for v in at:
                self.compare(r, ctx, [gap, v], [k], "a missing record")
                self.compare(r, ctx, [v, gap, gap], [k], "missing records")
            if len(required) > 1:
                rows = [dict(base, **{j: v}) for j in required for v in thin(lv[j], 3)]
                self.compare(r, ctx, rows[:2] + [gap] + rows[2:], required, "a missing record")
            if r.full():
                return r
        for a, b in itertools.combinations(keys, 2):
            rows = [dict(base, **{a: x, b: y}) for x in thin(lv[a], n) for y in thin(lv[b], n)]
            self.compare(r, ctx, rows, [a, b], "product")
            if r.full():
                return r
        # every numeric input an array; the rows leave the base in one input at a time
        allk = [k for k in base if k in lv]
        rows = [base] + [dict(base, **{k: v}) for k in allk for v in lv[k][1:]]
        if allk:
            self.compare(r, ctx, rows, allk, "all inputs")
            self.compare(r, ctx, rows[::-1], allk, "all inputs, reversed")
            self.compare(r, ctx, [base], allk, "all inputs, length 1")
        if len(allk) > 1:
            # every pair of levels of every two inputs, all inputs varied at once (orthogonal array), in one array and in pieces
            lat = engine.Lattice([base], {k: lv[k] for k in allk}, 0, dense=0, oa=(400, 2500)[tier == "thorough"])
            oa = [st for b in lat.blocks() if isinstance(b[2], tuple) for st in lat.states(b)]
            self.compare(r, ctx, oa, allk, "orthogonal array")
            self.compare(r, ctx, oa[::-1], allk, "orthogonal array, reversed")
            self.compare(r, ctx, oa[::4], allk, "views")
            if bi == 0:
                self.compare(r, ctx, oa * (1 + 2100 // len(oa)), allk, "very long")
            for n0 in (2, 3, 5, 16):
                for i in range(0, min(len(oa), 40 * n0), n0):
                    self.compare(r, ctx, oa[i:i + n0], allk, "piece of the orthogonal array")
            half = allk[::2]
            for ks in (half, [k for k in allk if k not in half]):
                self.compare(r, ctx, [dict(base, **{k: st[k] for k in ks}) for st in oa[::3]], ks, "half of the inputs")
            if r.full():
                return r
            for one in allk:
                rest = [k for k in allk if k != one]
                rows = [base] + [dict(base, **{k: v}) for k in rest for v in thin(lv[k], 4)[1:]]
                self.compare(r, ctx, rows, rest, "all inputs but " + one)
            # neighbouring bases with the same other settings as further rows
            other = [b for j, b in enumerate(e.bases) if set(b) == set(base) and all(
                b[k] == base[k] or (b[k] != b[k] and base[k] != base[k]) for k in b if k not in allk) and
                all(engine.isnum(b[k]) and b[k] == b[k] for k in allk)]
            if len(other) > 1:
                self.compare(r, ctx, other, allk, "all bases")
                self.compare(r, ctx, other[::-1], allk, "all bases, reversed")
        return r

    def jobs(self, tier):
        jobs = []
        for e in self.entries():
            try:
                engine.load(e.mod)
            except Exception:  # noqa: BLE001
                pass
            for bi in range(len(e.bases)):
                jobs.append(lambda e=e, bi=bi: self.job(e, bi, tier))
        return jobs

    def bounds(self, tier):
        return {"entries": len(cat.ENTRIES), "levels per input in products": self.LV[tier == "thorough"],
                "array states": "every input alone (rising, falling, length 1, every ordered pair of levels, integers, repeats, long, missing records at every position of a required input), every pair of inputs "
                "(product of levels in one array), views with strides, more than 2000 elements, all inputs, all but one, all bases as rows, orthogonal arrays of strength 2 in one array and in pieces"}

    def replay(self, v):
        e = cat.BY_ID.get(v["case"])
        call = v["state"].get("call")
        if e is None or call is None:
            return "n/a"
        keys = [k for k, x in call.items() if isinstance(x, list)]
        n = len(call[keys[0]])
        call = {k: [float("nan") if y == "nan" else y for y in x] if k in keys else x for k, x in call.items()}
        rows = [{k: (x[i] if k in keys else (float("nan") if x == "nan" else x)) for k, x in call.items()} for i in range(n)]
        r = Result(e.id)
        self.compare(r, (e, engine.impl(e.mod, e.fn), {}), rows, keys, "replay", dtype=np.dtype(v["state"].get("dtype", "float")))
        return r.viols[0]["detail"] if r.viols else None
