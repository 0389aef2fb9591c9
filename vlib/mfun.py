"""Independent definitions (mpmath) of the functions a model expression may use."""
import mpmath as mp

mp.mp.dps = 50
mpf = mp.mpf


def B(x):
    x = mpf(x)
    return mpf(1) if x == 0 else x / mp.expm1(x)


def dB(x):
    x = mpf(x)
    if abs(x) < mpf("1e-6"):
        return mpf(-1) / 2 + x / 6 - x ** 3 / 180 + x ** 5 / 5040
    if x > 2000:
        return mpf(0)
    e = mp.expm1(x)
    return (e - x * mp.exp(x)) / (e * e)


# W. B. Joyce and R. W. Dixon, Appl. Phys. Lett. 31, 354 (1977), and the degenerate expansion, continued at r = 8.46296036621705
JD = [1 / mp.sqrt(8), mpf("-4.9500897298752622e-3"), mpf("1.4838577128872821e-4"), mpf("-4.4256301190009895e-6")]
JD_BREAK = mpf(8.46296036621705)
JD_OFF = mpf(-0.0137050034663995)


def InvFermi(r):
    r = mpf(r)
    if r < JD_BREAK:
        return mp.log(r) + sum(c * r ** (i + 1) for i, c in enumerate(JD))
    return mp.sqrt((3 * mp.sqrt(mp.pi) / 4 * r) ** (mpf(4) / 3) - mp.pi ** 2 / 6) + JD_OFF


def dInvFermi(r):
    r = mpf(r)
    if r < JD_BREAK:
        return 1 / r + sum(c * (i + 1) * r ** i for i, c in enumerate(JD))
    k = 3 * mp.sqrt(mp.pi) / 4
    a = (k * r) ** (mpf(4) / 3)
    return a * mpf(4) / (3 * r) / (2 * mp.sqrt(a - mp.pi ** 2 / 6))


def solve_monotone(f, df, x, y, lo):
    """Newton on an increasing function, safeguarded to stay above lo"""
    for _ in range(200):
        s = (f(x) - y) / df(x)
        while x - s <= lo:
            s /= 2
        x -= s
        if abs(s) <= abs(x) * mpf(10) ** (-mp.mp.dps + 12):
            break
    return x


def Fermi(eta):
    eta = mpf(eta)
    x = mp.exp(eta) if eta < 1 else 4 / (3 * mp.sqrt(mp.pi)) * eta ** (mpf(3) / 2) + 1
    return solve_monotone(InvFermi, dInvFermi, x, eta, 0)


def dFermi(eta):
    return 1 / dInvFermi(Fermi(eta))


def fermi_integral(eta):
    """the integral itself: F_1/2 normalised by Gamma(3/2)"""
    return float(-mp.re(mp.polylog(mpf(3) / 2, -mp.exp(mpf(eta)))))


def erfc_inv(y):
    y = mpf(y)
    if y == 1:
        return mpf(0)
    if y > 1:
        return -erfc_inv(2 - y)
    x = mpf(mp.sqrt(-mp.log(y * mp.sqrt(mp.pi)))) if y < 0.3 else (1 - y) * mp.sqrt(mp.pi) / 2
    for _ in range(100):
        f = mp.erfc(x) - y
        d = -2 / mp.sqrt(mp.pi) * mp.exp(-x * x)
        s = f / d
        s = s / (1 + x * s)
        x -= s
        if abs(s) <= abs(x) * mpf(10) ** (-mp.mp.dps + 10):
            break
    return x


def erf_inv(y):
    y = mpf(y)
    if abs(y) < mpf("0.1"):
        x = y * mp.sqrt(mp.pi) / 2
        for _ in range(30):
            s = (mp.erf(x) - y) * mp.sqrt(mp.pi) / 2 * mp.exp(x * x)
            x -= s
            if abs(s) <= abs(x) * mpf(10) ** (-mp.mp.dps + 8):
                break
        return x
    return erfc_inv(1 - mpf(y)) if y > 0 else -erfc_inv(1 + mpf(y))


# G. Paasch and S. Scheinert, J. Appl. Phys. 107, 104501 (2010)
_H = {}


def gH(s):
    s = mpf(s)
    k = (s, mp.mp.dps)
    if k not in _H:
        _H[k] = mp.sqrt(2) / s * erfc_inv(mp.exp(-s * s / 2))
    return _H[k]


def gK(s):
    s = mpf(s)
    H = gH(s)
    return 2 * (1 - H / s * mp.sqrt(2 / mp.pi) * mp.exp(s * s / 2 * (1 - H * H)))


def gfi(z, s):
    z, s = mpf(z), mpf(s)
    S = s * s
    if z < -S:
        return mp.exp(S / 2 + z) / (mp.exp(gK(s) * (z + S)) + 1)
    return mp.erfc(-z / (s * mp.sqrt(2)) * gH(s)) / 2


def dgfi(z, s):
    z, s = mpf(z), mpf(s)
    S = s * s
    if z < -S:
        e = mp.exp(gK(s) * (z + S))
        g = mp.exp(S / 2 + z) / (e + 1)
        return g - g * gK(s) * e / (e + 1)
    H = gH(s)
    return H / (s * mp.sqrt(2 * mp.pi)) * mp.exp(-(z * H) ** 2 / (2 * S))


def gauss_fermi_integral(z, s):
    """the integral itself, by the trapezoidal rule (spectrally accurate here)"""
    import numpy as np
    x = np.linspace(-12 * s - s * s, 12 * s, 200001)
    v = np.exp(-x * x / (2 * s * s)) / (s * np.sqrt(2 * np.pi)) / (1 + np.exp(np.clip(x - z, -700, 700)))
    return float(v.sum() * (x[1] - x[0]))


def igfi(g, s):
    """bisection in the logarithm, then Newton"""
    g, s = mpf(g), mpf(s)
    lo, hi = mpf(-3000), mpf(3000)
    for _ in range(80):
        m = (lo + hi) / 2
        if gfi(m, s) < g:
            lo = m
        else:
            hi = m
    x = (lo + hi) / 2
    for _ in range(4):
        x -= (gfi(x, s) - g) / dgfi(x, s)
    return x


def digfi(g, s):
    return 1 / dgfi(igfi(g, s), s)


two_rpi = 2 / mp.sqrt(mp.pi)
bool_ = lambda v: mpf(1 if v else 0)

UNARY = {
    "abs": abs, "exp": mp.exp, "log": mp.log, "B": B, "dBdx": dB,
    "step": lambda x: bool_(x >= 0), "sgn": lambda x: mpf(1 if x >= 0 else -1),
    "acosh": mp.acosh, "asinh": mp.asinh, "atanh": mp.atanh, "cosh": mp.cosh, "sinh": mp.sinh, "tanh": mp.tanh,
    "erf": mp.erf, "erfc": mp.erfc, "erf_inv": erf_inv, "erfc_inv": erfc_inv,
    "derfdx": lambda x: two_rpi * mp.exp(-x * x), "derfcdx": lambda x: -two_rpi * mp.exp(-x * x),
    "derf_invdx": lambda x: mp.exp(erf_inv(x) ** 2) / two_rpi, "derfc_invdx": lambda x: -mp.exp(erfc_inv(x) ** 2) / two_rpi,
    "Fermi": Fermi, "dFermidx": dFermi, "InvFermi": InvFermi, "dInvFermidx": dInvFermi,
    "!": lambda x: bool_(x == 0), "vec_sum": None, "vec_max": None, "vec_min": None,
}
BINARY = {
    "gfi": gfi, "dgfidx": dgfi, "igfi": igfi, "digfidx": digfi, "min": min, "max": max,
    "&&": lambda a, b: bool_(a != 0 and b != 0), "||": lambda a, b: bool_(a != 0 or b != 0),
    "==": lambda a, b: bool_(a == b), "<": lambda a, b: bool_(a < b), "<=": lambda a, b: bool_(a <= b),
    ">": lambda a, b: bool_(a > b), ">=": lambda a, b: bool_(a >= b),
    "pow": lambda a, b: mp.power(a, b), "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
}
