"""Bounded nondeterminism for the reference model.

The model is a transition system over exact formulas, the implementation computes in
floating point.  Where the model compares *derived* quantities (an Iribarren number with a
regime threshold, two candidate formulas of a minimum, ...) two correct floating point
evaluations may fall on different sides of the comparison.  Such a comparison is a
nondeterministic choice of the model: `lt(a, b)` has one successor when a and b are clearly
apart and two successors when they agree to REL.  `outcomes(fn)` enumerates every resolution
of the choices met on the way (depth first, so exhaustively), first the plain float one.

Comparisons of raw inputs with a constant (`cot_alpha >= 4`) are exact in any correct
implementation and are written with the ordinary operators.
"""
REL = 1e-9
ABS = 1e-12


class _Ctx:
    __slots__ = ("script", "pos", "log", "active")

    def __init__(self):
        self.script = ()
        self.pos = 0
        self.log = []


_c = _Ctx()


def choose(default):
    """A two-way choice; `default` is taken on the first (plain) run."""
    if _c.pos < len(_c.script):
        v = _c.script[_c.pos]
    else:
        v = 0
    _c.pos += 1
    _c.log.append(v)
    return default if v == 0 else (not default)


def near(a, b):
    d = abs(a - b)
    return d <= ABS or d <= REL * max(abs(a), abs(b))


def lt(a, b):
    v = a < b
    if a == a and b == b and near(a, b):
        return choose(v)
    return v


def le(a, b):
    v = a <= b
    if a == a and b == b and near(a, b):
        return choose(v)
    return v


def gt(a, b):
    return not le(a, b) if (a == a and b == b) else False


def ge(a, b):
    return not lt(a, b) if (a == a and b == b) else False


def min_flag(a, b):
    """(min(a, b), whether b was the smaller one) with an ambiguous flag on a tie."""
    if a != a or b != b:
        return float("nan"), False
    if near(a, b):
        return min(a, b), choose(b <= a)
    return (b, True) if b < a else (a, False)


def outcomes(fn):
    """Yield the result of fn() for every resolution of its ambiguous choices."""
    script = ()
    n = 0
    while True:
        _c.script = script
        _c.pos = 0
        _c.log = []
        yield fn()
        n += 1
        log = _c.log
        # next script: flip the last 0 to 1, drop what follows
        i = len(log) - 1
        while i >= 0 and log[i] == 1:
            i -= 1
        if i < 0 or n >= 256:
            return
        script = tuple(log[:i]) + (1,)


def plain(fn):
    """fn() with the plain float resolution; returns (result, was any choice met)."""
    _c.script = ()
    _c.pos = 0
    _c.log = []
    r = fn()
    return r, bool(_c.log)
