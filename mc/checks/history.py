"""P17: call histories.  Every ordered pair of operations (and longer histories containing them) is executed on the implementation and
each result compared with the result of the same operation in a process of its own."""
import decimal
import gc
import locale
import logging
import os
import pickle
import random
import signal
import sys
import warnings

import numpy as np

from .. import cat, conf, engine
from ..run import Result
from .base import Spec, batches


def isolated(fns):
    """outcomes of the given thunks, each in a forked process of its own"""
    out = []
    for fn in fns:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                data = pickle.dumps(freeze(fn()))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
            except BaseException:  # noqa: BLE001
                code = 1
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else ("exc", "no answer"))
    return out


def freeze(res):
    """picklable copy of a guarded outcome"""
    kind, v = res
    if kind == "exc":
        return ("exc", type(v).__name__)
    return ("ok", copy(v))


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return tuple(copy(x) for x in v)
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, np.generic):
        return v.item()
    return v


def arrays_of(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, dict):
        return [a for x in v.values() for a in arrays_of(x)]
    if isinstance(v, (tuple, list)):
        return [a for x in v for a in arrays_of(x)]
    return []


def without(v, passed):
    if isinstance(v, dict):
        return {k: without(x, passed) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return tuple(without(x, passed) for x in v)
    if isinstance(v, np.ndarray) and any(v.shape == p.shape and np.array_equal(v, p) for p in passed):
        return None
    return v


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or isinstance(a, str):
        return a == b
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        return bool(np.all((x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= 1e-12 * np.maximum(np.abs(x), np.abs(y)))))
    except TypeError:
        return repr(a) == repr(b)


ERRSTATE = dict(divide="warn", over="warn", under="ignore", invalid="warn")      # what a fresh process has


def fresh_process():
    """numeric error handling and warning filters in which a change by the code under test shows"""
    np.seterr(**ERRSTATE)
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message=".*")


def world():
    """global state a computation has no business changing"""
    s = np.random.get_state()
    return {"numeric error handling": tuple(sorted(np.geterr().items())),
            "warning filters": repr(warnings.filters), "showwarning": id(warnings.showwarning),
            "numpy random state": (int(s[2]), hash(s[1].tobytes())), "random state": hash(random.getstate()),
            "working directory": os.getcwd(), "print options": repr(sorted(np.get_printoptions().items(), key=str)),
            "environment": hash(tuple(sorted(os.environ.items()))), "recursion limit": sys.getrecursionlimit(),
            "locale": locale.setlocale(locale.LC_ALL), "decimal context": repr(decimal.getcontext()),
            "umask": umask(), "log level": (logging.root.level, logging.root.disabled, logging.root.manager.disable),
            "search path": tuple(sys.path), "trace": (sys.gettrace() is None, sys.getprofile() is None),
            "signal": repr(signal.getsignal(signal.SIGINT)), "gc": gc.isenabled()}


def umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def thunk(f, kw):
    return lambda: engine.guarded(f, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})


def state_ops(e, bi, ndeep):
    """operations around one base: the base, one change per input, and minute changes"""
    base = e.bases[bi]
    ops = [dict(base)]
    lat = engine.Lattice([base], e.levels, 1)
    for key in lat._keys(base):
        vals = lat._vals(base, key, False)
        for v in ([vals[len(vals) // 2]] if ndeep < 2 else vals[::max(1, len(vals) // ndeep)])[:ndeep] if vals else []:
            st = dict(base)
            if isinstance(key, tuple):
                st.update(zip(key, v))
            else:
                st[key] = v
            ops.append(st)
        if not isinstance(key, tuple) and isinstance(base[key], float) and base[key] == base[key]:
            st = dict(base)
            st[key] = base[key] * (1 + 1e-5) if base[key] else 1e-5
            ops.append(st)
    return ops


def array_ops(e, bi):
    """calls with arrays: one input each, and all numeric inputs"""
    from .arrays import nums, plain
    base = e.bases[bi]
    out, allk = [], {}
    for k in e.levels:
        if isinstance(k, tuple) or plain(e, k):
            continue
        lv = [v for v in nums(e, base, k) if conf.model(e, dict(base, **{k: v}))[0] == "val"]
        if len(lv) > 1:
            out.append(dict(base, **{k: np.array(lv[:3], dtype=float)}))
            allk[k] = np.array([base[k], base[k]], dtype=float)
    if allk and conf.model(e, base)[0] == "val":
        out.append(dict(base, **allk))
    return out


def tour(n):
    """a walk that contains every ordered pair (i, j) of 0..n-1 as consecutive operations"""
    seq = []
    for i in range(n):
        seq += [i, i]
        for j in range(i + 1, n):
            seq += [j, i]
    return seq


def show(kw):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}


class History(Spec):
    assumptions = [
        "an operation is one call of a public computation with one set of arguments; its reference outcome is the outcome of the same "
        "call in a forked process that made no other call", "single-threaded histories (interleavings are explored under P24)",
    ]

    def walk(self, r, ops, seq, ref, label):
        """ops: list of (name, f, kw); execute the history, compare each outcome with the isolated one"""
        fresh_process()
        w0 = world()
        prev = None
        for step, i in enumerate(seq):
            name, f, kw = ops[i]
            got = freeze(thunk(f, kw)())
            r.states += 1
            r.transitions += 1
            r.validated += 1
            if got[0] != ref[i][0] or not same(got[1], ref[i][1]):
                before = show(ops[prev][2]) if prev is not None else None
                r.violation("hist:" + name, {"then": name, "args": show(kw), "after": ops[prev][0] if prev is not None else None,
                                             "after_args": before, "history_length": step},
                            "%s: outcome %r after %d earlier calls, %r on its own" % (name, got[1], step, ref[i][1]))
                if r.full() or r.nviol > 3:
                    return
            if step % 16 == 0 or step < 64 or step == len(seq) - 1:
                w = world()
                if w != w0:
                    r.violation("world:" + name, {"then": name, "args": show(kw)},
                                "%s changed global state: %s" % (name, ", ".join(k for k in w if w[k] != w0[k])))
                    w0 = w
            prev = i
        if len(r.samples) < 1 and len(seq) > 2:
            r.samples.append({"history": label, "operations": len(ops), "length": len(seq), "first": engine.jsonable(show(ops[seq[0]][2]))})

    def entry_job(self, e, bi, tier):
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError):
            return r
        sts = state_ops(e, bi, 1 if tier == "quick" else 3)
        ops = [(e.id, f, st) for st in sts] + [(e.id, f, kw) for kw in array_ops(e, bi)[-1:]]
        if tier == "quick" and len(ops) > 40:
            ops = ops[:40]
        fresh_process()
        ref = isolated([thunk(f, kw) for _, _, kw in ops])
        keep = [i for i in range(len(ops)) if ref[i] != ("exc", "CallTimeout")]      # no answer within the time limit: no operation
        ops, ref = [ops[i] for i in keep], [ref[i] for i in keep]
        self.walk(r, ops, tour(len(ops)), ref, "all ordered pairs of calls of one computation")
        return r

    def sweep_job(self, e, lat, blocks):
        """a long history through many states of one computation and back again: each state is visited with two different pasts,
        has one outcome, and none of them leaves a trace in the process"""
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError):
            return r
        fresh_process()
        sts = [st for b in blocks for st in lat.states(b)]
        w0 = world()
        first = []
        for d in (1, -1):
            for n, st in enumerate(sts[::d]):
                r.states += 1
                r.transitions += 1
                got = freeze(engine.guarded(f, st))
                if n % 64 == 63 or n == len(sts) - 1:
                    w = world()
                    if w != w0:
                        r.violation("world:" + e.id, show(st), "%s changed global state: %s (within the last 64 calls)"
                                    % (e.id, ", ".join(k for k in w if w[k] != w0[k])))
                        w0 = w
                if d == 1:
                    first.append(got)
                    continue
                r.validated += 1
                was = first[len(sts) - 1 - n]
                if ("exc", "CallTimeout") in (was, got):
                    r.undefined += 1
                elif got[0] != was[0] or not same(got[1], was[1]):
                    r.violation("hist:" + e.id, {"then": e.id, "args": show(st)},
                                "%s: outcome %r the first time, %r later in the same process" % (e.id, was[1], got[1]))
                    if r.full():
                        return r
        return r

    def alias_job(self, e, tier):
        """arguments are not modified, results share no storage with arguments or later results"""
        r = Result(e.id)
        try:
            f = engine.impl(e.mod, e.fn)
        except (engine.Missing, ImportError, SyntaxError):
            return r
        for bi in range(len(e.bases)):
            for kw in array_ops(e, bi):
                r.states += 1
                r.transitions += 3
                arrs = {k: v for k, v in kw.items() if isinstance(v, np.ndarray)}
                mine = {k: (v.copy() if k in arrs else v) for k, v in kw.items()}
                kind, res = engine.guarded(f, mine)
                sig = "alias:" + e.id
                for k, v in arrs.items():
                    if mine[k].shape != v.shape or mine[k].dtype != v.dtype or not np.array_equal(mine[k], v):
                        r.violation(sig, {"args": show(kw)}, "%s modified its argument %s: %r became %r" % (e.id, k, v, mine[k]))
                if kind == "exc":
                    continue
                r.validated += 1
                passed = [v for v in arrs.values()]
                if any(a.shape == v.shape and np.array_equal(a, v) for a in arrays_of(res) for v in passed):
                    res = without(res, passed)          # an input handed through unchanged is not a result
                keep = copy(res)
                if True:
                    for k in arrs:                      # the caller goes on using its arrays
                        mine[k][...] = mine[k] * 1.37 + 0.011
                    if not same(keep, copy(res)):
                        r.violation(sig, {"args": show(kw)}, "%s: result changes when the caller changes its own input array later" % e.id)
                        continue
                for k, v in arrs.items():               # ... and fills them with the next cases
                    mine[k][...] = v[::-1] if not np.array_equal(v, v[::-1]) else v * 1.01
                refilled = freeze(engine.guarded(f, mine))
                new = freeze(engine.guarded(f, {k: (v.copy() if k in arrs else v) for k, v in mine.items()}))
                if refilled[0] != new[0] or not same(refilled[1], new[1]):
                    r.violation(sig, {"args": show(kw)}, "%s: outcome %r for an array given before with other contents, %r for a new array"
                                % (e.id, refilled[1], new[1]))
                    continue
                again = {k: (v * 1.01 if k in arrs else v) for k, v in kw.items()}
                engine.guarded(f, again)
                if not same(keep, copy(res)):
                    r.violation(sig, {"args": show(kw)}, "%s: a later call changed an earlier result" % e.id)
                    continue
                for a in arrays_of(res):                # the caller changes the result it was given
                    if a.flags.writeable and a.dtype.kind == "f":
                        a[...] = -77.0
                kind2, res2 = engine.guarded(f, {k: (v.copy() if k in arrs else v) for k, v in kw.items()})
                res2 = without(res2, passed) if kind2 == "ok" else res2
                if kind2 != "ok" or not same(keep, copy(res2)):
                    r.violation(sig, {"args": show(kw)}, "%s: changing a returned array changes later results" % e.id)
                ro = {k: (v.copy() if k in arrs else v) for k, v in kw.items()}
                for k in arrs:
                    ro[k].flags.writeable = False
                kind3, res3 = engine.guarded(f, ro)
                res3 = without(res3, passed) if kind3 == "ok" else res3
                if kind3 != "ok" or not same(keep, copy(res3)):
                    r.violation(sig, {"args": show(kw)}, "%s: different outcome for read-only input arrays: %r" % (e.id, res3))
        return r

    def cross_ops(self):
        out = []
        for e in cat.ENTRIES:
            try:
                f = engine.impl(e.mod, e.fn)
            except (engine.Missing, ImportError, SyntaxError):
                continue
            bis = sorted(set((0, len(e.bases) - 1)))
            for bi in bis[:1] if not e.main else bis:
                if conf.model(e, e.bases[bi])[0] != "undef":
                    out.append((e.id, f, e.bases[bi]))
        return out

    def cross_job(self, lo, hi):
        """every operation of the block before and after every operation of the whole catalogue"""
        r = Result("all computations")
        ops, ref = self.cross
        seq = []
        for i in range(lo, min(hi, len(ops))):
            for j in range(len(ops)):
                seq += [i, j]
            seq.append(i)
        self.walk(r, ops, seq, ref, "operation %d..%d alternating with all %d operations" % (lo, hi, len(ops)))
        return r

    def long_job(self, stride):
        """one long history through the whole catalogue, in another order"""
        r = Result("all computations")
        ops, ref = self.cross
        n = len(ops)
        seq = [(k * stride) % n for k in range(n)] if np.gcd(stride, n) == 1 else list(range(n))
        self.walk(r, ops, (seq + seq[::-1]) * 3, ref, "whole catalogue forward and backward")
        return r

    def jobs(self, tier):
        jobs = []
        for e in cat.ENTRIES:
            try:
                engine.load(e.mod)
            except Exception:  # noqa: BLE001
                pass
        engine._worker_init()
        fresh_process()
        ops = self.cross_ops()
        self.cross = (ops, isolated([thunk(f, kw) for _, f, kw in ops]))
        n = len(ops)
        step = 6
        for lo in range(0, n, step):
            jobs.append(lambda lo=lo: self.cross_job(lo, lo + step))
        for s in (1, 7, 11, 29):
            jobs.append(lambda s=s: self.long_job(s))
        for e in cat.ENTRIES:
            nb = len(e.bases)
            bis = sorted(set((0, nb // 2, nb - 1))) if tier == "quick" else range(nb)
            for bi in bis:
                jobs.append(lambda e=e, bi=bi: self.entry_job(e, bi, tier))
            jobs.append(lambda e=e: self.alias_job(e, tier))
            t = tier == "thorough"
            lat = engine.pick_radius(e.bases, e.levels, (4000, 60000)[t], dense=(10, 48)[t], oa=(130, 5000)[t])
            for bl in batches(lat, 4000):
                jobs.append(lambda e=e, lat=lat, bl=bl: self.sweep_job(e, lat, bl))
        return jobs

    def bounds(self, tier):
        return {"pairs": "all ordered pairs of the operations around each explored base (the base, one change per input, a relative 1e-5 "
                "change per input, an array call); all ordered pairs of the catalogue's operations; whole catalogue in several orders",
                "sweeps": "every state of a smaller lattice per computation, once forward and once backward in one process",
                "aliasing": "every base, every single input as array, and all inputs as arrays; the same array objects refilled with other contents"}
