"""Random model expressions, their value, their exact partial derivatives and a running bound of the rounding error.

An expression is a nested tuple: ("n", number), ("v", name), ("+", a, b, ...), ("*", a, b, ...), ("neg", a), ("/", a, b),
("^", a, number), ("pow", a, b), ("f", name, a, ...)."""
import math
import numpy as np

EPS = 2.3e-16
# type of the numbers: float, or object for mpmath numbers
F = float


def array(v):
    if F is float:
        return np.asarray(v, dtype=float)
    import mpmath as mp
    return np.vectorize(lambda x: x if isinstance(x, mp.mpf) else mp.mpf(float(x)), otypes=[object])(np.asarray(v, dtype=object))



class D:
    """value, bound of its rounding error in units of EPS, and the same for every partial derivative"""
    __slots__ = ("v", "e", "d")

    def __init__(self, v, e=None, d=None):
        self.v = array(v)
        self.e = np.abs(self.v) * 0.0 if e is None else e
        self.d = d or {}


def var(name, v):
    v = array(v)
    return D(v, None, {name: (np.ones_like(v), np.zeros_like(v))})


def const(v):
    return D(np.asarray(float(v)))


def add(*args):
    v = sum(a.v for a in args)
    mag = sum(np.abs(a.v) for a in args)
    e = sum(a.e for a in args) + len(args) * mag
    keys = {k for a in args for k in a.d}
    d = {}
    for k in keys:
        t = [a.d[k] for a in args if k in a.d]
        d[k] = (sum(x for x, _ in t), sum(y for _, y in t) + len(t) * sum(np.abs(x) for x, _ in t))
    return D(v, e, d)


def scale(a, c):
    return D(a.v * c, a.e * abs(c) + np.abs(a.v * c), {k: (x * c, y * abs(c) + np.abs(x * c)) for k, (x, y) in a.d.items()})


def mul2(a, b):
    v = a.v * b.v
    e = a.e * np.abs(b.v) + np.abs(a.v) * b.e + np.abs(v) + EPS * a.e * b.e
    d = {}
    for k in set(a.d) | set(b.d):
        x, y = 0.0, 0.0
        if k in a.d:
            p, q = a.d[k]
            x = x + p * b.v
            y = y + q * np.abs(b.v) + np.abs(p) * b.e + 2 * np.abs(p * b.v) + EPS * q * b.e
        if k in b.d:
            p, q = b.d[k]
            x = x + p * a.v
            y = y + q * np.abs(a.v) + np.abs(p) * a.e + 2 * np.abs(p * a.v) + EPS * q * a.e
        d[k] = (x, y)
    return D(v, e, d)


def mul(*args):
    out = args[0]
    for a in args[1:]:
        out = mul2(out, a)
    return out


def chain1(a, f, f1, f2, ulp=4.0, abs1=0.0, b1=None, b2=None):
    """f(a) with first and second derivative at a; abs1: absolute error granted for the derivative; b1, b2: bounds of the
    derivatives within the error of a, where they matter"""
    b1, b2 = np.abs(f1) if b1 is None else b1, np.abs(f2) if b2 is None else b2
    e = b1 * a.e + ulp * np.abs(f)
    d = {k: (f1 * x, b2 * a.e * np.abs(x) + b1 * y + ((2 + ulp) * np.abs(f1) + abs1) * np.abs(x)) for k, (x, y) in a.d.items()}
    return D(f, e, d)


def div(a, b):
    r = 1.0 / b.v
    return mul2(a, chain1(b, r, -r * r, 2 * r * r * r))


def powc(a, c):
    if c == int(c) and c >= 0:
        c = int(c)
        f = a.v ** c
        f1 = c * a.v ** (c - 1) if c >= 1 else 0 * a.v
        f2 = c * (c - 1) * a.v ** (c - 2) if c >= 2 else 0 * a.v
        w = np.abs(a.v) + EPS * a.e
        return chain1(a, f, f1, f2, 4.0 + c, b1=c * w ** (c - 1) if c >= 1 else 0 * w, b2=c * (c - 1) * w ** (c - 2) if c >= 2 else 0 * w)
    else:
        f, f1, f2 = a.v ** float(c), c * a.v ** float(c - 1), c * (c - 1) * a.v ** float(c - 2)
    return chain1(a, f, f1, f2, 4.0 + abs(c))


def pw(a, b):
    """a^b, a > 0"""
    l = chain1(a, np.log(a.v) if F is float else quad("log", a.v)[0], 1 / a.v, -1 / a.v ** 2)
    t = mul2(b, l)
    f = a.v ** b.v
    out = chain1(t, f, f, f)
    return out


def _B(x):
    with np.errstate(all="ignore"):
        s = np.abs(x) < 0.3
        xs = np.where(s, 1.0, x)
        e = np.expm1(xs)
        c = [1.0, -0.5, 1 / 12, 0, -1 / 720, 0, 1 / 30240, 0, -1 / 1209600, 0, 1 / 47900160, 0, -691 / 1307674368000]
        p0 = np.polynomial.polynomial.Polynomial(c)
        p1, p2 = p0.deriv(), p0.deriv(2)
        z = np.where(s, x, 0.0)
        f = np.where(s, p0(z), xs / e)
        f1 = np.where(s, p1(z), (e - xs * (e + 1)) / e ** 2)
        f2 = np.where(s, p2(z), (e + 1) * (xs * (e + 2) - 2 * e) / e ** 3)
        big = xs > 200
        g = np.exp(-np.where(big, xs, 200.0))
        f1, f2 = np.where(big, (1 - xs) * g, f1), np.where(big, (xs - 2) * g, f2)
    return f, f1, f2


def _erf(x):
    from scipy.special import erf
    g = 2 / math.sqrt(math.pi) * np.exp(-x * x)
    return erf(x), g, -2 * x * g


def _erfc(x):
    from scipy.special import erfc
    g = -2 / math.sqrt(math.pi) * np.exp(-x * x)
    return erfc(x), g, -2 * x * g


SMOOTH = {
    "exp": lambda x: (np.exp(x),) * 3,
    "log": lambda x: (np.log(x), 1 / x, -1 / x ** 2),
    "tanh": lambda x: (np.tanh(x), np.cosh(x) ** -2.0, -2 * np.tanh(x) * np.cosh(x) ** -2.0),
    "sinh": lambda x: (np.sinh(x), np.cosh(x), np.sinh(x)),
    "cosh": lambda x: (np.cosh(x), np.sinh(x), np.cosh(x)),
    "asinh": lambda x: (np.arcsinh(x), (1 + x * x) ** -0.5, -x * (1 + x * x) ** -1.5),
    "acosh": lambda x: (np.arccosh(x), (x * x - 1) ** -0.5, -x * (x * x - 1) ** -1.5),
    "atanh": lambda x: (np.arctanh(x), 1 / (1 - x * x), 2 * x / (1 - x * x) ** 2),
    "B": _B, "erf": _erf, "erfc": _erfc,
}


def quad(n, v):
    """value, first and second derivative of a function in mpmath"""
    import mpmath as mp
    g = {"exp": mp.exp, "log": mp.log, "tanh": mp.tanh, "sinh": mp.sinh, "cosh": mp.cosh, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh, "erf": mp.erf, "erfc": mp.erfc,
         "B": lambda x: x / mp.expm1(x) if x else mp.mpf(1)}[n]
    s = lambda x: 2 / mp.sqrt(mp.pi) * mp.exp(-x * x)

    def dB(x):
        if abs(x) < 1e-8:
            return -mp.mpf(1) / 2 + x / 6 - x ** 3 / 180
        e = mp.expm1(x)
        return (e - x * (e + 1)) / e ** 2
    g1 = {"exp": mp.exp, "log": lambda x: 1 / x, "tanh": lambda x: mp.sech(x) ** 2, "sinh": mp.cosh, "cosh": mp.sinh, "asinh": lambda x: 1 / mp.sqrt(1 + x * x), "acosh": lambda x: 1 / mp.sqrt(x * x - 1),
          "atanh": lambda x: 1 / (1 - x * x), "erf": s, "erfc": lambda x: -s(x), "B": dB}[n]
    vec = lambda h: np.vectorize(lambda x: h(mp.mpf(x)), otypes=[object])(v)
    # the second derivative only enters error bounds
    return vec(g), vec(g1), np.asarray(SMOOTH[n](np.asarray(v, dtype=float))[2], dtype=float)


# relative accuracy granted, in EPS
ULP = {"B": 8.0, "erf": 8.0, "erfc": 20.0, "acosh": 8.0, "atanh": 8.0, "sinh": 8.0, "cosh": 8.0, "tanh": 8.0, "asinh": 8.0}


def step_like(a, f):
    """a function that is locally constant"""
    return D(f, np.zeros_like(f))


def evaluate(t, env, logic_margin=None):
    """env: name -> D.  logic_margin: list receiving the distance to every point of non-smoothness met"""
    op = t[0]
    if op == "n":
        return const(t[1])
    if op == "v":
        return env[t[1]]
    a = [evaluate(x, env, logic_margin) if isinstance(x, tuple) else x for x in t[(2 if op == "f" else 1):]]
    if op == "+":
        return add(*a)
    if op == "*":
        return mul(*a)
    if op == "neg":
        return D(-a[0].v, a[0].e, {k: (-x, y) for k, (x, y) in a[0].d.items()})
    if op == "/":
        return div(a[0], a[1])
    if op == "^":
        return powc(a[0], a[1])
    if op == "pow":
        return pw(a[0], a[1])
    n = t[1]
    if n in SMOOTH:
        f, f1, f2 = SMOOTH[n](a[0].v) if F is float else quad(n, a[0].v)
        # the derivative of tanh may be formed as 1 - tanh^2
        return chain1(a[0], f, f1, f2, ULP.get(n, 4.0), 8.0 if n == "tanh" else 0.0)
    x = a[0].v

    def note(dist, err):
        if logic_margin is not None:
            logic_margin.append(np.min(np.abs(dist) - 1e3 * EPS * err))
    if n == "abs":
        note(x, a[0].e)
        s = np.where(x >= 0, 1.0, -1.0)
        return D(np.abs(x), a[0].e, {k: (s * p, q) for k, (p, q) in a[0].d.items()})
    if n == "step":
        note(x, a[0].e)
        return step_like(a[0], np.where(x >= 0, 1.0, 0.0))
    if n == "sgn":
        note(x, a[0].e)
        return step_like(a[0], np.where(x >= 0, 1.0, -1.0))
    if n == "!":
        return step_like(a[0], np.where(x == 0, 1.0, 0.0))
    if n in ("min", "max"):
        b = a[1]
        note(x - b.v, a[0].e + b.e)
        first = (x < b.v) if n == "min" else (x > b.v)
        return select(first, a[0], b)
    if n in ("<", "<=", ">", ">=", "==", "&&", "||"):
        y = a[1].v
        if n in ("&&", "||"):
            r = (x != 0) & (y != 0) if n == "&&" else (x != 0) | (y != 0)
        else:
            note(x - y, a[0].e + a[1].e)
            r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[n]
        return step_like(a[0], np.where(r, 1.0, 0.0))
    if n == "ifelse":
        return select(x != 0, a[1], a[2])
    if n == "if":
        return select(x != 0, a[1], const(0.0))
    if n == "dot2d":
        return add(mul(a[0], a[2]), mul(a[1], a[3]))
    if n in ("kahan3", "kahan4"):
        return add(*a)
    raise KeyError(n)


def select(c, a, b):
    d = {}
    for k in set(a.d) | set(b.d):
        p, q = a.d.get(k, (0.0, 0.0)), b.d.get(k, (0.0, 0.0))
        d[k] = (np.where(c, p[0], q[0]), np.where(c, p[1], q[1]))
    return D(np.where(c, a.v, b.v), np.where(c, a.e, b.e), d)


def names(t):
    if not isinstance(t, tuple):
        return set()
    if t[0] == "v":
        return {t[1]}
    return set().union(*[names(x) for x in t[1:]]) if len(t) > 1 else set()


def funcs(t):
    if not isinstance(t, tuple):
        return set()
    s = {t[1]} if t[0] == "f" else {t[0]}
    return s.union(*[funcs(x) for x in t[1:]])


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, tuple)) if isinstance(t, tuple) else 0


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t[0] == "v":
        return ("v", m.get(t[1], t[1])) if not isinstance(m.get(t[1]), tuple) else m[t[1]]
    return tuple(subst(x, m) for x in t)


def num(x, rng=None):
    if float(x) == int(x) and abs(x) < 1e6:
        s = str(int(x)) if (rng is None or rng.random() < 0.6) else "%.1f" % x
    else:
        s = repr(float(x))
    return s


def text(t, rng=None, prec=0):
    """source text; with rng, notation varies (parentheses, subtraction, unary minus, pow or ^)"""
    r = rng
    op = t[0]

    def par(s, need):
        return "(" + s + ")" if need or (r is not None and r.random() < 0.08) else s
    if op == "n":
        s = num(t[1], r)
        return par(s, t[1] < 0)
    if op == "v":
        return t[1]
    sp = " " if (r is None or r.random() < 0.7) else ""
    if op == "+":
        s = text(t[1], r, 1)
        for x in t[2:]:
            if isinstance(x, tuple) and x[0] == "neg":
                s += sp + "-" + sp + text(x[1], r, 2)
            else:
                s += sp + "+" + sp + text(x, r, 1)
        return par(s, prec > 1)
    if op == "*":
        s = text(t[1], r, 2)
        for x in t[2:]:
            if isinstance(x, tuple) and x[0] == "/" and x[1] == ("n", 1.0):
                s += sp + "/" + sp + text(x[2], r, 4)
            else:
                s += sp + "*" + sp + text(x, r, 3)
        return par(s, prec > 2)
    if op == "/":
        return par(text(t[1], r, 2) + sp + "/" + sp + text(t[2], r, 4), prec > 2)
    if op == "neg":
        return "(-" + text(t[1], r, 4) + ")"
    if op == "^":
        b = text(t[1], r, 5)
        c = num(t[2], r)
        if r is not None and r.random() < 0.4:
            return "pow(" + text(t[1], r) + "," + sp + c + ")"
        return par(b + "^" + (c if t[2] >= 0 else "(" + c + ")"), prec > 3)
    if op == "pow":
        if r is not None and r.random() < 0.5:
            return par(text(t[1], r, 5) + "^" + text(t[2], r, 5), prec > 3)
        return "pow(" + text(t[1], r) + "," + sp + text(t[2], r) + ")"
    n = t[1]
    if n == "!":
        return "(!" + text(t[2], r, 6) + ")"
    if n in ("<", "<=", ">", ">=", "==", "&&", "||"):
        return "(" + text(t[2], r, 5) + sp + n + sp + text(t[3], r, 5) + ")"
    return n + "(" + ("," + sp).join(text(x, r) for x in t[2:]) + ")"


FLOAT = ["exp", "log", "tanh", "sinh", "cosh", "asinh", "acosh", "atanh", "B", "erf", "erfc"]
EDGY = ["abs", "step", "sgn", "min", "max", "cmp", "ifelse", "if"]


def gen(rng, leaves, depth, smooth=True, p_const=0.2, functions=FLOAT, extra=()):
    """a random expression whose value stays moderate when the leaves do; parts of it may appear several times"""
    made = []

    def leaf():
        if rng.random() < p_const:
            return ("n", rng.choice([1.0, 2.0, 0.5, 3.0, -1.0, 0.25, -1.5, round(rng.uniform(0.1, 4), 3)]))
        return ("v", rng.choice(leaves))

    def g(k):
        if k <= 0 or rng.random() < 0.08:
            return leaf()
        if made and rng.random() < 0.12:
            t = rng.choice(made)
            if size(t) <= 3 * 2 ** k:
                return t
        t = g1(k)
        made.append(t)
        return t

    def g1(k):
        c = rng.random()
        if c < 0.22:
            return ("+",) + tuple(("neg", g(k - 1)) if (i and rng.random() < 0.35) else g(k - 1) for i in range(rng.choice([2, 2, 3])))
        if c < 0.44:
            return ("*",) + tuple(g(k - 1) for i in range(rng.choice([2, 2, 3])))
        if c < 0.50:
            return ("/", g(k - 1), ("+", ("n", 1.5), ("^", g(k - 2), 2.0)))
        if c < 0.53:
            return ("neg", g(k - 1))
        if c < 0.58:
            return ("^", g(k - 1), rng.choice([2.0, 3.0, 2.0, 1.0]))
        if c < 0.61:
            return ("^", ("+", ("n", 1.25), ("^", g(k - 2), 2.0)), rng.choice([-1.0, 0.5, -0.5, 1.5, -2.0]))
        if c < 0.64:
            return ("pow", ("+", ("n", 1.1), ("^", g(k - 2), 2.0)), ("f", "tanh", g(k - 2)) if "tanh" in functions else leaf())
        if c < 0.68 and extra:
            return rng.choice(extra)(g, k)
        if not smooth and c < 0.80:
            f = rng.choice(EDGY)
            if f in ("min", "max"):
                return ("f", f, g(k - 1), g(k - 1))
            if f == "cmp":
                return ("f", rng.choice(["<", "<=", ">", ">=", "=="]), g(k - 1), g(k - 1))
            if f in ("ifelse", "if"):
                t = ("f", rng.choice(["<", "<=", ">", ">="]), g(k - 1), g(k - 1))
                if rng.random() < 0.3:
                    t = ("f", rng.choice(["&&", "||"]), t, ("f", rng.choice(["<", ">"]), g(k - 2), g(k - 2)))
                if rng.random() < 0.2:
                    t = ("f", "!", t)
                made.extend([t] * 3)
                u = ("f", f, t) + tuple(g(k - 1) for _ in range(2 if f == "ifelse" else 1))
                if rng.random() < 0.3:
                    u = (rng.choice("+*"),) + tuple(rng.sample([u, ("+", t, g(k - 2)) if rng.random() < 0.5 else t], 2))
                return u
            return ("f", f, g(k - 1))
        f = rng.choice(functions)
        if f == "exp":
            return ("f", "exp", rng.choice([("f", "tanh", g(k - 2)) if "tanh" in functions else leaf(), ("neg", ("^", g(k - 2), 2.0)), leaf()]))
        if f == "log":
            return ("f", "log", ("+", ("n", 1.5), ("^", g(k - 2), 2.0)))
        if f == "acosh":
            return ("f", "acosh", ("+", ("n", 1.5), ("^", g(k - 2), 2.0)))
        if f == "atanh":
            return ("f", "atanh", ("/", leaf(), ("+", ("n", 2.5), ("^", g(k - 2), 2.0))) if rng.random() < 0.0 else ("*", ("n", 0.9), ("f", "tanh", g(k - 2))) if "tanh" in functions else leaf())
        if f in ("sinh", "cosh"):
            return ("f", f, leaf())
        return ("f", f, g(k - 1))
    return g(depth)


def usable(x, lim=1e12, loss=1e6):
    """True if a value (and derivatives) are finite, moderate and not drowned in rounding errors"""
    ok = np.all(np.isfinite(x.v)) and np.all(np.abs(x.v) < lim) and np.all(np.isfinite(x.e)) and np.all(x.e < loss * lim)
    for v, e in x.d.values():
        ok = ok and np.all(np.isfinite(v)) and np.all(np.abs(v) < lim) and np.all(np.isfinite(e)) and np.all(e < loss * lim)
    return bool(ok)


def pick(rng, leaves, env, depth, smooth=True, tries=200, need=None, **kw):
    """an expression whose value on env is usable, and (unless smooth) that stays clear of jumps"""
    for _ in range(tries):
        t = gen(rng, leaves, depth, smooth, **kw)
        if need and not (names(t) & set(need)):
            continue
        m = []
        with np.errstate(all="ignore"):
            x = evaluate(t, env, m)
        if usable(x) and all(np.isfinite(y) and y > 1e-9 for y in m):
            return t, x
    t = ("v", (need or leaves)[0]) if (need or leaves) else ("n", 1.0)
    return t, evaluate(t, env)


def tol(e, factor=40.0):
    """absolute tolerance for a computed quantity with error bound e"""
    return factor * EPS * e + 1e-300
