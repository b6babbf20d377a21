"""Explicit-state exploration engine.

A *model* (catalogue entry) is a function of the toolbox with a bounded input lattice: a set of
base states (regime x configuration), for every input an ordered set of levels, and a Hamming
radius k.  The explored state space of the entry is

    { every assignment that differs from some base in at most k inputs (coarse levels) }
  u { every assignment that differs from some base in one input (dense levels) }
  u { the rows of an orthogonal array of strength t over q levels per input: every combination of levels of
      every t inputs occurs, with all other inputs varied at the same time (Bush's construction over GF(q)) }

States are enumerated in a fixed order, never sampled.  Two states that differ in one input by
adjacent levels are joined by a transition.  Every state is replayed on the real code.
"""
import itertools
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "deltares_coastal_structures_toolbox.functions"
CALL_TIMEOUT = 20.0
sys.dont_write_bytecode = True


class Missing(Exception):
    """a public function (or parameter) the property is about is not there"""


class CallTimeout(Exception):
    pass


_mods = {}


def load(mod):
    import importlib
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if mod not in _mods:
        m = importlib.import_module(PKG + "." + mod)
        f = os.path.realpath(m.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("imported %s from %s, not from %s" % (mod, f, REPO))
        _mods[mod] = m
    return _mods[mod]


def impl(mod, fn):
    m = load(mod)
    f = getattr(m, fn, None)
    if f is None:
        raise Missing("%s.%s" % (mod, fn))
    return f


def _on_alarm(signum, frame):
    raise CallTimeout()


def guarded(f, kw):
    """call f(**kw) with warnings silenced, a time limit, and floating point noise ignored.
    Returns ('ok', value) or ('exc', exception)."""
    signal.setitimer(signal.ITIMER_REAL, CALL_TIMEOUT)
    try:
        return ("ok", f(**kw))
    except CallTimeout as e:
        return ("exc", e)
    except Exception as e:  # noqa: BLE001
        return ("exc", e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# ---- lattices ---------------------------------------------------------------------------------
def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def dense_levels(levels, n=48):
    nums = sorted(set(float(v) for v in levels if isnum(v) and v == v and abs(v) != math.inf))
    if len(nums) < 2:
        return []
    out = list(nums)
    # split the widest (in rank-scale) gaps first: plain recursive bisection
    gaps = [(b - a, a, b) for a, b in zip(nums, nums[1:])]
    per = max(1, (n - len(nums)) // len(gaps))
    for _, a, b in gaps:
        for i in range(1, per + 1):
            out.append(a + (b - a) * i / (per + 1))
    out.append(nums[-1] + 0.37 * (nums[-1] - nums[-2]))
    for v in nums:                   # just off every coarse level (thresholds sit on levels)
        if v != 0:
            out.append(v * (1 + 1e-4))
            out.append(v * (1 - 1e-4))
    return sorted(set(out))


PRIMES = (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)


def pick_oa(nkeys, budget, qmax=23, least=False):
    """(q, t): strongest array, then most levels, that has at most `budget` rows and room for nkeys inputs"""
    best = None
    for t in (4, 3, 2):
        if t > max(nkeys, 2):
            continue
        for q in PRIMES:
            if q <= qmax and q + 1 >= nkeys and q > t and q ** t <= budget and (q >= 11 or t == 2):
                best = (q, t)
                if least:
                    break
        if best:
            return best
    return None


def oa_row(q, t, i, n):
    """row i of the orthogonal array: values of the polynomial with coefficients = digits of i, and its leading coefficient"""
    co = []
    for _ in range(t):
        co.append(i % q)
        i //= q
    out = []
    for x in range(min(n, q)):
        v = 0
        for c in reversed(co):
            v = (v * x + c) % q
        out.append(v)
    if n > q:
        out.append(co[-1])
    return out


def spread(levels, q):
    """exactly q values for an input: its coarse levels and points between them (numbers), or its levels repeated"""
    nums = sorted(set(v for v in levels if isnum(v) and v == v and abs(v) != math.inf), key=float)
    other = [v for v in levels if v not in nums]
    if len(nums) < 2 or len(nums) + len(other) < 3:
        return [levels[i % len(levels)] for i in range(q)]
    out = list(nums)
    while len(out) + len(other) < q:
        pos = [abs(v) for v in nums if v]
        top = math.log(max(pos) / min(pos)) or 1.0

        def score(i):
            a, b = out[i], out[i + 1]
            return (b - a) / (out[-1] - out[0]) + (abs(math.log(b / a)) / top if a * b > 0 else 0.0)
        i = max(range(len(out) - 1), key=lambda i: (score(i), -i))
        out.insert(i + 1, out[i] + 0.47 * (out[i + 1] - out[i]))
    out += other
    if len(out) > q:
        out = [out[round(j * (len(out) - 1) / (q - 1))] for j in range(q)]
    return out


class Lattice:
    """bases: list of dict; levels: dict input -> list of coarse levels;
    fixed groups: inputs that move together may be given as tuple keys."""

    def __init__(self, bases, levels, k, dense=48, dense_over=None, cap=None, oa=0, least=False):
        self.least = least
        self.oa = oa               # rows of the orthogonal array per base (upper bound), 0: none
        self.bases = bases
        self.levels = levels
        self.k = k
        self.dense_n = dense
        self.dense_over = dense_over or {}

    def _keys(self, base):
        ks = []
        for key in self.levels:
            names = key if isinstance(key, tuple) else (key,)
            if all(n in base for n in names):
                ks.append(key)
        return ks

    def blocks(self):
        """independent enumeration blocks: (base index, tuple of varied keys)"""
        for bi, base in enumerate(self.bases):
            ks = self._keys(base)
            for r in range(0, self.k + 1):
                for combo in itertools.combinations(ks, r):
                    yield (bi, combo, False)
            for key in ks:
                yield (bi, (key,), True)
            qt = pick_oa(len(ks), self.oa, least=self.least) if self.oa else None
            if qt:
                n = qt[0] ** qt[1]
                for lo in range(0, n, 600):
                    yield (bi, tuple(ks), (qt[0], qt[1], lo, min(n, lo + 600)))

    def _vals(self, base, key, dense):
        if isinstance(key, tuple):
            cur = tuple(base[n] for n in key)
            return [v for v in self.levels[key] if tuple(v) != cur]
        cur = base[key]
        if dense:
            lv = self.dense_over.get(key)
            if lv is None:
                lv = dense_levels(self.levels[key] + ([cur] if isnum(cur) else []), self.dense_n)
            coarse = self.levels[key]
            return [v for v in lv if v not in coarse and v != cur]
        return [v for v in self.levels[key] if not (v == cur and type(v) is type(cur)) and not (v != v and cur != cur)]

    def states(self, block):
        bi, combo, dense = block
        base = self.bases[bi]
        if not combo:
            yield dict(base)
            return
        if isinstance(dense, tuple):
            q, t, lo, hi = dense
            lists = []
            for k in combo:
                if isinstance(k, tuple):
                    lists.append([self.levels[k][i % len(self.levels[k])] for i in range(q)])
                else:
                    cur = base[k]
                    lists.append(spread(self.levels[k] + ([cur] if isnum(cur) and cur not in self.levels[k] and cur == cur else []), q))
            for i in range(lo, hi):
                row = oa_row(q, t, i, len(combo))
                st = dict(base)
                for k, lv, j in zip(combo, lists, row):
                    if isinstance(k, tuple):
                        st.update(zip(k, lv[j]))
                    else:
                        st[k] = lv[j]
                yield st
            return
        lists = [self._vals(base, k, dense) for k in combo]
        for vals in itertools.product(*lists):
            st = dict(base)
            for key, v in zip(combo, vals):
                if isinstance(key, tuple):
                    for n, x in zip(key, v):
                        st[n] = x
                else:
                    st[key] = v
            yield st

    def size(self, block):
        bi, combo, dense = block
        if isinstance(dense, tuple):
            return dense[3] - dense[2]
        n = 1
        for k in combo:
            n *= len(self._vals(self.bases[bi], k, dense))
        return n

    def count(self):
        return sum(self.size(b) for b in self.blocks())


def pick_radius(bases, levels, budget, kmax=None, **kw):
    """largest Hamming radius whose state count stays within the budget"""
    best = Lattice(bases, levels, 1, **kw)
    top = kmax or len(levels)
    for k in range(2, top + 1):
        n = 0
        for b in bases:
            l1 = Lattice([b], levels, k, **kw)
            sizes = [len(l1._vals(b, key, False)) for key in l1._keys(b)]
            # elementary symmetric polynomials
            e = [1] + [0] * k
            for s in sizes:
                for j in range(k, 0, -1):
                    e[j] += e[j - 1] * s
            n += sum(e)
            if n > budget:
                break
        if n > budget:
            break
        best = Lattice(bases, levels, k, **kw)
    return best


# ---- parallel driver ----------------------------------------------------------------------------
def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return {"array": [jsonable(v) for v in x.tolist()], "dtype": str(x.dtype)}
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != math.inf else repr(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)


_JOBS = None


def _worker_init():
    signal.signal(signal.SIGALRM, _on_alarm)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


def _run_job(i):
    try:
        return i, _JOBS[i]()
    except Exception:  # noqa: BLE001  (a crash of the checker itself must be visible)
        return i, {"crash": traceback.format_exc()}


def run_jobs(jobs, procs=None):
    """jobs: list of callables returning a dict of counters {'n':..,'viol':[...], ...}"""
    global _JOBS
    _JOBS = jobs
    procs = procs or min(8, os.cpu_count() or 1)
    res = [None] * len(jobs)
    if procs == 1 or len(jobs) == 1:
        _worker_init()
        for i in range(len(jobs)):
            res[i] = _run_job(i)[1]
        return res
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=_worker_init) as pool:
        for i, r in pool.imap_unordered(_run_job, range(len(jobs)), chunksize=1):
            res[i] = r
    return res


class Tally(dict):
    def add(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
