"""Elementary wave and rock physics (reference)."""
import math

from ..nd import choose, ge, gt, le, lt, min_flag  # noqa: F401

NAN = float("nan")
PI = math.pi


class Undef(Exception):
    """The formula has no value for this input (outside its mathematical domain): the model
    makes no claim here and the state is counted as 'no claim'."""


class NoReal(Undef):
    """even root, fractional power or logarithm of a negative number: the formula has no real value"""


class Refused(Exception):
    """The documented behaviour is to refuse the input with this exception class."""

    def __init__(self, cls):
        super().__init__(cls.__name__)
        self.cls = cls


def isnan(x):
    return x is None or x != x


def pw(a, b):
    """a**b over the reals; undefined for a negative base and fractional exponent."""
    if a != a or b != b:
        return NAN
    if a < 0 and b != int(b):
        raise NoReal
    if a == 0 and b < 0:
        raise Undef
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.inf


def ln(a):
    if a != a:
        return NAN
    if a < 0:
        raise NoReal
    if a == 0:
        raise Undef
    return math.log(a)


def exp(a):
    if a > 700:
        raise Undef
    return math.exp(a)


def sqrt(a):
    if a != a:
        return NAN
    if a < 0:
        raise NoReal
    return math.sqrt(a)


def div(a, b):
    if b == 0:
        raise Undef
    return a / b


def wave_steepness(H, T, g=9.81):
    return 2 * PI * H / (g * T * T)


def iribarren(H, T, cot_alpha, g=9.81):
    s = wave_steepness(H, T, g)
    if s <= 0 or cot_alpha == 0:
        raise Undef
    return (1.0 / cot_alpha) / math.sqrt(s)


def critical_iribarren(c_pl, c_s, P, cot_alpha):
    return pw((c_pl / c_s) * pw(P, 0.31) * sqrt(1.0 / cot_alpha), 1.0 / (P + 0.5))


def Delta(rho_rock, rho_water):
    return rho_rock / rho_water - 1.0


def stability_number(H, D, rho_rock, rho_water):
    return div(H, Delta(rho_rock, rho_water) * D)


def M50_from_Dn50(Dn50, rho_rock=2650.0):
    return rho_rock * Dn50 * Dn50 * Dn50


def Dn50_from_M50(M50, rho_rock=2650.0):
    v = M50 / rho_rock
    if v < 0:
        raise Undef
    return v ** (1.0 / 3.0)


def use_Dn50_or_M50(Dn50, M50, rho_rock):
    if isnan(Dn50) and isnan(M50):
        raise Refused(ValueError)
    if isnan(Dn50):
        return Dn50_from_M50(M50, 2650.0 if isnan(rho_rock) else rho_rock)
    return Dn50


def wave_number(T, h, g=9.81):
    """k from w^2 = g k tanh(k h): exact root by bisection then Newton."""
    w2 = (2 * PI / T) ** 2
    k0 = w2 / g
    # k >= k0 and k >= w/sqrt(g h)
    lo = max(k0, math.sqrt(w2 / (g * h))) * 0.999999
    hi = k0 / math.tanh(k0 * h) * 1.000001 if k0 * h > 1e-8 else lo * 1.1
    hi = max(hi, lo * 1.1)
    f = lambda k: g * k * math.tanh(k * h) - w2
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
        if hi - lo <= 1e-15 * hi:
            break
    return 0.5 * (lo + hi)


def local_wavelength(T, h, g=9.81):
    return 2 * PI / wave_number(T, h, g)


def S_from_Nod(Nod, G, nv):
    return div(Nod, G * (1 - nv))


def Nod_from_S(S, G, nv):
    return S * G * (1 - nv)


def solve_stability(Hs=None, Dn=None, Delta=None, Ns=None):
    missing = [n for n, v in (("Hs", Hs), ("Dn", Dn), ("Delta", Delta), ("Ns", Ns)) if v is None]
    if len(missing) != 1:
        raise Refused(ValueError)
    m = missing[0]
    val = {"Hs": lambda: Ns * Delta * Dn, "Dn": lambda: Hs / (Ns * Delta),
           "Delta": lambda: Hs / (Ns * Dn), "Ns": lambda: Hs / (Delta * Dn)}[m]()
    return (val, m)
