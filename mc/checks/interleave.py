"""P24: two calls in flight at the same time.

A schedule with one preemption: call A is stopped before one of its source lines, call B runs completely in another thread, A goes on.  All such points of A
are explored (every source line A executes in the toolbox, up to a number of repetitions per line).  Schedules with two preemptions: A is
stopped at a function boundary, B runs up to one of its function boundaries, A runs to its end, B runs to its end; explored with two real
threads under a controlled scheduler.  Both results must be those of the calls on their own.
"""
import os
import pickle
import sys
import threading

import numpy as np

from .. import cat, conf, engine
from ..run import Result
from .base import Spec
from .history import array_ops, copy, freeze, isolated, same, show, thunk

REPEAT = 2        # visits of one source line that are separate preemption points
BLOCKED = 5       # s


def in_repo(code):
    return code.co_filename.startswith(engine.REPO)


class Stop:
    """runs f(**kw), calling hook() just before the k-th visited preemption point; counts the points"""

    def __init__(self, lines=True):
        self.lines = lines
        self.n = 0
        self.at = None
        self.hook = None
        self.seen = {}

    def point(self, frame, event):
        key = (frame.f_code.co_filename, frame.f_lineno, event)
        c = self.seen.get(key, 0)
        if c >= REPEAT:
            return
        self.seen[key] = c + 1
        if self.n == self.at:
            self.hook()
        self.n += 1

    def local(self, frame, event, arg):
        if event == "line" and self.lines or event == "return" and not self.lines:
            self.point(frame, event)
        return self.local

    def trace(self, frame, event, arg):
        if not in_repo(frame.f_code):
            return None
        if not self.lines:
            self.point(frame, "call")
        return self.local

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return fn()
        finally:
            sys.settrace(old)


def one(a, b, k):
    """A stopped at point k, B completely, A to its end -> (outcome A, outcome B, number of points of A)"""
    s = Stop()
    s.at = k
    out = []
    th = threading.Thread(target=lambda: out.append(freeze(b())), daemon=True)

    def hook():
        th.start()
        th.join(BLOCKED)            # B waits for something A holds: a legal schedule, A goes on
    s.hook = hook
    ra = freeze(s.run(a))
    if th.ident is not None:
        th.join(30)
        if not out:
            out.append(("exc", "no answer"))
    return ra, (out[0] if out else None), s.n


def fresh(a, b, k):
    """the same schedule in a forked process that made no call before"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(one(a, b, k)))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (("exc", "no answer"), None, 0)


class Sched:
    """two threads, strictly one at a time; plan = (points of A before the first switch, points of B before the second)"""

    def __init__(self, a, b, i, j):
        self.fn = (a, b)
        self.stop = (i, j)
        self.sem = (threading.Semaphore(0), threading.Semaphore(0))
        self.done = [False, False]
        self.switched = [False, False]
        self.out = [None, None]

    def body(self, t):
        self.sem[t].acquire()
        s = Stop(lines=False)
        s.at = self.stop[t]

        def hook():
            self.switched[t] = True
            if not self.done[1 - t]:
                self.sem[1 - t].release()
                self.sem[t].acquire()
        s.hook = hook
        try:
            self.out[t] = freeze(s.run(self.fn[t]))
        except BaseException as e:  # noqa: BLE001
            self.out[t] = ("exc", type(e).__name__)
        self.done[t] = True
        if not self.done[1 - t]:
            self.sem[1 - t].release()

    def run(self):
        th = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in (0, 1)]
        for t in th:
            t.start()
        self.sem[0].release()
        for t in th:
            t.join(30)
        return self.out, self.switched


def globals_of_toolbox():
    """printed form of everything the toolbox's modules hold"""
    out = []
    for name, m in sorted(sys.modules.items()):
        if not getattr(m, "__file__", None) or not m.__file__.startswith(engine.REPO):
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or isinstance(v, type(sys)):
                continue
            if callable(v):
                w = getattr(v, "__wrapped__", v)
                cells = [c.cell_contents for c in (getattr(w, "__closure__", None) or ())] if not isinstance(v, type) else []
                info = v.cache_info() if hasattr(v, "cache_info") else None
                v = (sorted((a, repr(b)) for a, b in getattr(v, "__dict__", {}).items() if a != "__wrapped__" and not a.startswith("__")),
                     getattr(w, "__defaults__", None), getattr(w, "__kwdefaults__", None), cells, info)
            out.append((name, k, repr(v)))
    return out


def leaves_trace(f, kw):
    """does the first call in a process change what the toolbox's modules hold?  (Decided in a forked process.)"""
    def run():
        before = globals_of_toolbox()
        plain(f, kw)()
        return ("ok", before != globals_of_toolbox())
    return isolated([run])[0] != ("ok", False)


def plain(f, kw):
    """call without the alarm based time limit (signals only reach the main thread)"""
    def run():
        args = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
        try:
            return ("ok", f(**args))
        except Exception as e:  # noqa: BLE001
            return ("exc", e)
    return run


class Interleave(Spec):
    assumptions = [
        "preemption happens between source lines of the toolbox (one-preemption schedules) or at its function boundaries "
        "(two-preemption schedules); numpy calls are atomic", "at most %d visits of one line are separate preemption points" % REPEAT,
    ]

    def partners(self, e):
        """(A, B) argument sets of one computation that differ in many inputs"""
        good = [b for b in e.bases if conf.model(e, b)[0] == "val"]
        out = []
        for bi, base in enumerate(good):
            other = dict(base)
            lat = engine.Lattice([base], e.levels, 1)
            for key in lat._keys(base):
                vals = [v for v in lat._vals(base, key, False)]
                for v in vals[len(vals) // 2:] + vals[:len(vals) // 2]:
                    st = dict(other)
                    if isinstance(key, tuple):
                        st.update(zip(key, v))
                    else:
                        st[key] = v
                    if conf.model(e, st)[0] == "val":
                        other = st
                        break
            out.append((base, other))
            out.append((base, good[(bi + 1) % len(good)]))
        seen, res = set(), []
        for a, b in out:
            key = (repr(sorted(a.items())), repr(sorted(b.items())))
            if key not in seen and key[0] != key[1]:
                seen.add(key)
                res.append((a, b))
        return res

    def array_partners(self, e, tier):
        """the same with arrays of equal length for all numeric inputs and for single inputs"""
        out = []
        n = len(e.bases)
        for bi in sorted(set((0, n - 1))) if tier == "quick" else range(n):
            ops = array_ops(e, bi)
            if not ops:
                continue
            ops[-1] = {k: (v * np.array([1.0, 1.01]) if isinstance(v, np.ndarray) else v) for k, v in ops[-1].items()}
            for a in [ops[-1]] + (ops[:-1] if tier != "quick" else ops[:2]):
                b = {k: (v[::-1] * 1.03 if isinstance(v, np.ndarray) else v) for k, v in a.items()}
                out.append((a, b))
        return out

    def fresh_job(self, e):
        """one preemption, in a process in which nothing has been computed yet"""
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError):
            return r
        good = [b for b in e.bases if conf.model(e, b)[0] == "val"]
        # where a call leaves nothing behind, a process that computed before is the same as one that did not
        for a, b in self.partners(e)[:1] + [(b, b) for b in good if leaves_trace(f, b)]:
            ref = isolated([thunk(f, a), thunk(f, b)])
            n, k = None, 0
            while n is None or k < n:
                ra, rb, cnt = fresh(plain(f, a), plain(f, b), k)
                n = cnt if n is None else max(n, cnt)
                r.states += 1
                r.transitions += 2
                r.validated += 1
                r.bump("schedules from a fresh process")
                self.judge(r, e.id, e.id, a, b, (k,), ref, ra, rb)
                k += 1
                if r.nviol > 4:
                    return r
        return r

    def job(self, e, lo, hi, tier, arrays=False):
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError):
            return r
        pairs = [(a, e.id, f, b) for a, b in (self.array_partners(e, tier) if arrays else self.partners(e))]
        for a, bid, g, b in pairs[lo:hi]:
            ref = isolated([thunk(f, a), thunk(g, b)])
            A, B = plain(f, a), plain(g, b)
            n, k = None, 0
            while n is None or k < n:
                ra, rb, cnt = one(A, B, k)
                n = cnt if n is None else max(n, cnt)
                r.states += 1
                r.transitions += 2
                r.validated += 1
                self.judge(r, e.id, bid, a, b, (k,), ref, ra, rb)
                k += 1
                if r.nviol > 4:
                    return r
            # two preemptions at function boundaries
            na = self.points(A)
            nb = self.points(B)
            cap = 6 if tier == "quick" else 16
            for i in self.spread(na, cap):
                for j in self.spread(nb, cap):
                    (ra, rb), sw = Sched(A, B, i, j).run()
                    r.states += 1
                    r.transitions += 3
                    r.validated += 1
                    self.judge(r, e.id, bid, a, b, (i, j), ref, ra, rb)
                    if r.nviol > 4:
                        return r
            if not r.samples:
                r.samples.append({"A": engine.jsonable(a), "B": engine.jsonable(b), "preemption_points": n, "two_preemption_points": [na, nb]})
        return r

    @staticmethod
    def spread(n, cap):
        return sorted(set(int(i * n / cap) for i in range(cap)) if n > cap else range(n))

    @staticmethod
    def points(fn):
        s = Stop(lines=False)
        s.run(fn)
        return s.n

    def judge(self, r, aid, bid, a, b, sched, ref, ra, rb):
        for who, kw, got, want in (("the interrupted call", a, ra, ref[0]), ("the call in between", b, rb, ref[1])):
            if got is None:
                continue
            if got[0] != want[0] or not same(got[1], want[1]):
                r.violation("race:" + aid, {"A": show(a), "B": show(b), "B_is": bid, "schedule": list(sched)},
                            "%s (with %s in flight): %s returned %r instead of %r" % (aid, bid, who, got[1], want[1]))

    def jobs(self, tier):
        jobs = []
        bymod = {}
        for e in cat.ENTRIES:
            try:
                engine.load(e.mod)
            except Exception:  # noqa: BLE001
                pass
            bymod.setdefault(e.mod, []).append(e)
        engine._worker_init()
        # these workers only fork: they never compute anything themselves
        for r in engine.run_jobs([lambda e=e: self.fresh_job(e) for e in cat.ENTRIES]):
            jobs.append(lambda r=r: r)
        for e in cat.ENTRIES:
            jobs.append(lambda e=e: self.job(e, 0, 1000, tier, arrays=True))
            n = len(self.partners(e))
            cap = 6 if tier == "quick" else 40
            others = [o for o in bymod[e.mod] if o is not e][:4 if tier == "quick" else 40]
            for lo in range(0, min(n, cap), 3):
                jobs.append(lambda e=e, lo=lo: self.job(e, lo, lo + 3, tier))
            jobs.append(lambda e=e, n=n, o=others: self.job2(e, n, tier, o))
        return jobs

    def job2(self, e, n, tier, others):
        """the pairs with other computations of the same module"""
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError):
            return r
        good = [b for b in e.bases if conf.model(e, b)[0] == "val"]
        if not good:
            return r
        a = good[0]
        for o in others:
            try:
                g = engine.impl(o.mod, o.fn)
            except (engine.Missing, ImportError, SyntaxError):
                continue
            if conf.model(o, o.bases[-1])[0] != "val":
                continue
            b = o.bases[-1]
            ref = isolated([thunk(f, a), thunk(g, b)])
            A, B = plain(f, a), plain(g, b)
            n, k = None, 0
            while n is None or k < n:
                ra, rb, cnt = one(A, B, k)
                n = cnt if n is None else max(n, cnt)
                r.states += 1
                r.transitions += 2
                r.validated += 1
                self.judge(r, e.id, o.id, a, b, (k,), ref, ra, rb)
                k += 1
                if r.nviol > 4:
                    return r
        return r

    def bounds(self, tier):
        return {"start": "processes that computed before and (one preemption) processes that did not", "arguments": "scalars and arrays",
                "preemptions": "1 (every source line of A executed in the toolbox, at most %d visits per line) and 2 (function boundaries)" % REPEAT,
                "pairs": "two argument sets of one computation per base; each computation against others of its module"}
