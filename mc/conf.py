"""Conformity of the implementation to the reference model, state by state."""
import math

import numpy as np

from . import engine, nd
from .ref import rock
from .ref.phys import Refused, Undef

RTOL = 1e-7
ATOL = 1e-12


class Bad(Exception):
    pass


def to_scalar(x):
    a = np.asarray(x)
    if a.dtype == object or a.dtype.kind in "USO":
        raise Bad("not a number: %r" % (x,))
    if a.size != 1:
        raise Bad("expected a single value for scalar input, got shape %s" % (a.shape,))
    return a.reshape(-1)[0]


def close(a, b, rtol=RTOL, atol=ATOL):
    if a != a or b != b:
        return a != a and b != b
    if abs(a) == math.inf or abs(b) == math.inf:
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same(got, want, rtol=RTOL, atol=ATOL):
    """compare an implementation result with a model result, structurally"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            raise Bad("expected a dictionary")
        for k, v in want.items():
            if k not in got:
                raise Bad("result %r missing" % k)
            if not same(got[k], v, rtol, atol):
                return False
        return True
    if isinstance(want, (tuple, list)):
        if not isinstance(got, (tuple, list)) or len(got) != len(want):
            raise Bad("expected %d results" % len(want))
        return all(same(g, w, rtol, atol) for g, w in zip(got, want))
    if isinstance(want, str):
        return str(got) == want
    if isinstance(want, bool):
        return bool(to_scalar(got)) == want
    return close(float(to_scalar(got)), float(want), rtol, atol)


def gap(a, b):
    """largest absolute difference of two model results (None if incomparable)"""
    if isinstance(a, (tuple, list)):
        g = [gap(x, y) for x, y in zip(a, b)]
        return None if any(x is None for x in g) else max(g + [0.0])
    if isinstance(a, bool) or isinstance(b, bool):
        return 0.0
    d = abs(a - b)
    return d if d == d else None


def near_iter(got, a, b, slack):
    """got within the band spanned by the stopped and the converged iteration (elementwise)"""
    if isinstance(a, (tuple, list)):
        if not isinstance(got, (tuple, list)) or len(got) != len(a):
            raise Bad("expected %d results" % len(a))
        return all(near_iter(g, x, y, slack) for g, x, y in zip(got, a, b))
    if isinstance(a, bool):
        return bool(to_scalar(got)) in (a, b)
    g = float(to_scalar(got))
    tol = 2.0 * abs(a - b) + slack * max(abs(a), abs(b)) + ATOL
    return abs(g - a) <= tol or abs(g - b) <= tol


MATH_ERR = (ZeroDivisionError, OverflowError, ValueError)


def model(entry, st):
    """('val', v, ambiguous) | ('refuse', cls) | ('undef',)"""
    try:
        v, amb = nd.plain(lambda: entry.ref(**st))
    except Refused as e:
        return ("refuse", e.cls)
    except Undef:
        return ("undef",)
    except MATH_ERR:
        return ("undef",)
    if isinstance(v, complex):
        return ("undef",)
    return ("val", v, amb)


def agrees(entry, st, got, rtol=RTOL):
    """does an implementation result agree with some admissible behaviour of the model?"""
    if same(got, model(entry, st)[1], rtol):
        return True
    for v in _all_outcomes(entry, st):
        if same(got, v, rtol):
            return True
    if entry.iterative:
        outs = list(_all_outcomes(entry, st))
        rock.SOLVER["tight"] = True
        try:
            tight = list(_all_outcomes(entry, st))
        finally:
            rock.SOLVER["tight"] = False
        for a in outs:
            for b in tight:
                if near_iter(got, a, b, 1e-7):
                    return True
        if not tight:
            return True  # no converged solution: no claim
    return False


def _all_outcomes(entry, st):
    res = []

    def f():
        try:
            return entry.ref(**st)
        except (Undef, Refused) + MATH_ERR:
            return None
    for v in nd.outcomes(f):
        if v is not None:
            res.append(v)
    return res


def check_state(entry, f, st):
    """None if the implementation agrees with the model in this state, else a description"""
    m = model(entry, st)
    if m[0] == "undef":
        return "undef", None
    kind, got = engine.guarded(f, st)
    if m[0] == "refuse":
        if kind == "exc" and isinstance(got, m[1]):
            return "refused", None
        return "viol", "input must be refused with %s, got %s" % (
            m[1].__name__, repr(got) if kind == "ok" else type(got).__name__ + ": " + str(got))
    want = m[1]
    if kind == "exc":
        if isinstance(got, engine.CallTimeout):
            return "viol", "did not terminate within %g s (model: %r)" % (engine.CALL_TIMEOUT, want)
        return "viol", "raised %s: %s (model: %r)" % (type(got).__name__, got, want)
    try:
        ok = same(got, want) or agrees(entry, st, got)
    except Bad as e:
        return "viol", "%s (model: %r)" % (e, want)
    except (TypeError, ValueError) as e:
        return "viol", "unusable result %r: %s (model: %r)" % (got, e, want)
    if ok:
        return "ok", None
    return "viol", "returned %r, model says %r" % (got, want)
