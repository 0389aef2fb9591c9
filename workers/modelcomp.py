"""C03: code generated by the model compiler, compiled and run against the text of the model."""
import ctypes
import math
import os
import random
import resource
import shutil
import subprocess
from vlib.worker import Skip
from vlib.build import VERIF, REPO

EPS = 2.0 ** -52


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan", ["models", "models", "broken"])
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


def init(ctx):
    ctx.mc = os.environ["VERIF_MODELCOMP_" + ctx.args.get("mc", "plain")]
    ctx.env = dict(os.environ)
    ctx.env.pop("LD_PRELOAD", None)
    d = ctx.stub = os.path.join(ctx.scratch, "stub")
    os.makedirs(d, exist_ok=True)
    for f in ("InstanceModel", "CircuitNode", "NodeKeeper", "MatrixEntries"):
        with open(os.path.join(d, f + ".hh"), "w") as g:
            g.write('#include "mcstub.hh"\n')
    for f in ("mcstub.hh", "mcdrive.hh"):
        shutil.copy(os.path.join(VERIF, "harness", f), d)
    subprocess.check_call(["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-ffp-contract=off", "-x", "c++-header", os.path.join(d, "mcstub.hh"), "-o", os.path.join(d, "mcstub.hh.gch")], env=ctx.env)


# ---------------------------------------------------------------- reference values: numbers with the magnitude of what went into them
class NotFinite(Exception):
    """the value, or a part of it, is not defined, or is decided by rounding"""


class M:
    __slots__ = ("v", "m", "exact")

    def __init__(self, v, m=None, exact=False):
        if not (abs(v) < 1e60):
            raise NotFinite()
        self.v, self.m, self.exact = v, (abs(v) if m is None else m), exact
        if not (self.m < 1e60):
            raise NotFinite()


class D:
    """value and derivative with respect to one tag; the larger tag is outside"""
    __slots__ = ("t", "a", "d")

    def __init__(self, t, a, d):
        self.t, self.a, self.d = t, a, d


def tag(x):
    return x.t if isinstance(x, D) else 0


def split(x, t):
    return (x.a, x.d) if isinstance(x, D) and x.t == t else (x, None)


def base(x):
    while isinstance(x, D):
        x = x.a
    return x


def const(v):
    return M(float(v), exact=True)


def add(x, y):
    t = max(tag(x), tag(y))
    if not t:
        return M(x.v + y.v, x.m + y.m)
    (a, da), (b, db) = split(x, t), split(y, t)
    d = db if da is None else da if db is None else add(da, db)
    return D(t, add(a, b), d)


def mul(x, y):
    t = max(tag(x), tag(y))
    if not t:
        return M(x.v * y.v, x.m * y.m)
    (a, da), (b, db) = split(x, t), split(y, t)
    d = None
    if da is not None:
        d = mul(da, b)
    if db is not None:
        e = mul(a, db)
        d = e if d is None else add(d, e)
    return D(t, mul(a, b), d)


def exp(x):
    t = tag(x)
    if not t:
        if abs(x.v) > 100:
            raise NotFinite()
        v = math.exp(x.v)
        return M(v, v * (1 + x.m))
    e = exp(x.a)
    return D(t, e, mul(e, x.d))


def log(x):
    t = tag(x)
    if not t:
        if x.v <= 1e-12 * x.m:
            raise NotFinite()
        v = math.log(x.v)
        return M(v, abs(v) + x.m / x.v + 1)
    return D(t, log(x.a), mul(x.d, power(x.a, const(-1), True)))


def power(x, y, isnum):
    """isnum: the exponent is a number in the text"""
    t = max(tag(x), tag(y))
    if not t:
        if abs(x.v) <= 1e-12 * x.m and not (x.exact and isnum and y.v >= 1):
            raise NotFinite()
        if x.v < 0 and y.v != math.floor(y.v):
            raise NotFinite()
        if x.v < 0 and not y.exact:
            raise NotFinite()
        if x.v == 0:
            return M(0.0, 0.0)
        if abs(y.v * math.log(abs(x.v))) > 100 or y.m > 1e3:
            raise NotFinite()
        v = x.v ** y.v
        r = x.m / abs(x.v)
        if abs(y.v) * math.log(max(r, 1)) > 60:
            raise NotFinite()
        return M(v, abs(v) * (max(r ** abs(y.v), 1 + abs(y.v) * r) + (0 if isnum else abs(math.log(abs(x.v))) * y.m)))
    (a, da), (b, db) = split(x, t), split(y, t)
    d = None
    if da is not None:
        if isnum and base(b).v == 1:
            d = da
        elif isnum and base(b).v == 0:
            d = None
        else:
            d = mul(mul(b, power(a, add_exact(b, -1), isnum)), da)
    p = power(a, b, isnum)
    if db is not None:
        e = mul(mul(log(a), p), db)
        d = e if d is None else add(d, e)
    if not isnum and base(a).v <= 0:
        raise NotFinite()
    return D(t, p, d if d is not None else const(0))


def add_exact(b, k):
    r = add(b, const(k))
    if not isinstance(b, D) and b.exact:
        r = M(b.v + k, exact=True)
    return r


def truth(x):
    x = base(x)
    if x.exact:
        return x.v != 0
    if abs(x.v) <= 1e-9 * x.m:
        raise NotFinite()
    return x.v != 0


FN = {"sin": (math.sin, lambda a: a[0].m), "cos": (math.cos, lambda a: a[0].m), "tanh": (math.tanh, lambda a: a[0].m),
      "uf1": (lambda x: x / (1 + x * x), lambda a: 1.2 * a[0].m),
      "uf2": (lambda x, y: math.sin(x) * y - x, lambda a: (2 + abs(a[1].v)) * a[0].m + a[1].m),
      "uf3": (lambda x, y, z: x * y + math.cos(z), lambda a: abs(a[0].v) * a[1].m + abs(a[1].v) * a[0].m + a[2].m)}
NARG = {"sin": 1, "cos": 1, "tanh": 1, "uf1": 1, "uf2": 2, "uf3": 3}


class Eval:
    def __init__(self, model, values):
        self.model, self.values, self.ntag = model, values, 0
        self.exprs = dict(model["models"])

    def call(self, f, a, env):
        """the derivatives given for a function may depend on more than its arguments"""
        df = self.model["funcs"].get(f)
        free = sorted(names_in(df[1]) - set(df[0])) if df else []
        return self.call1(f, a, {x: env[x] if x in env else self.values[x] for x in free}, df)

    def call1(self, f, a, free, df):
        t = max(tag(x) for x in list(a) + list(free.values()))
        if not t:
            if any(abs(x.v) > 1e6 for x in a):
                raise NotFinite()
            v = FN[f][0](*[x.v for x in a])
            return M(v, 1 + abs(v) + 2 * FN[f][1](a))
        parts = [split(x, t) for x in a]
        free = {x: split(v, t)[0] for x, v in free.items()}
        d = None
        for i, (_, di) in enumerate(parts):
            if di is None or df is None:
                continue
            e = mul(self.ev(df[1][i], dict(free, **dict(zip(df[0], [p[0] for p in parts]))), {}), di)
            d = e if d is None else add(d, e)
        return D(t, self.call1(f, [p[0] for p in parts], free, df), d if d is not None else const(0))

    def ev(self, e, env, mods):
        """env: values of names; mods: models which are variables of a derivative"""
        k = e[0]
        if k == "num":
            return const(e[2])
        if k == "var":
            return env[e[1]] if e[1] in env else self.values[e[1]]
        if k == "mod":
            v = self.ev(self.exprs[e[1]], env, mods)
            for t in mods.get(e[1], ()):
                v = D(t, v, const(1))
            return v
        if k in "+-*/":
            a, b = self.ev(e[1], env, mods), self.ev(e[2], env, mods)
            if k == "+":
                return add(a, b)
            if k == "-":
                return add(a, mul(const(-1), b))
            if k == "*":
                return mul(a, b)
            return mul(a, power(b, const(-1), True))
        if k == "neg":
            r = self.ev(e[1], env, mods)
            return M(-r.v, r.m, r.exact) if isinstance(r, M) else mul(const(-1), r)
        if k in ("^", "pow"):
            return power(self.ev(e[1], env, mods), self.ev(e[2], env, mods), isnum(e[2]))
        if k == "exp":
            return exp(self.ev(e[1], env, mods))
        if k == "log":
            return log(self.ev(e[1], env, mods))
        if k == "call":
            return self.call(e[1], [self.ev(x, env, mods) for x in e[2]], env)
        if k == "cmp":
            a, b = base(self.ev(e[2], env, mods)), base(self.ev(e[3], env, mods))
            if not (a.exact and b.exact) and abs(a.v - b.v) <= 1e-9 * (a.m + b.m):
                raise NotFinite()
            return const({"==": a.v == b.v, "!=": a.v != b.v, "<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v}[e[1]])
        if k == "and":
            return const(int(truth(self.ev(e[1], env, mods)) & truth(self.ev(e[2], env, mods))))
        if k == "or":
            return const(int(truth(self.ev(e[1], env, mods)) | truth(self.ev(e[2], env, mods))))
        if k == "not":
            return const(int(not truth(self.ev(e[1], env, mods))))
        if k in ("simplify", "expand", "scaled", "signed"):
            return self.ev(e[1], env, mods)
        if k == "diff":
            return self.diff(e[1], e[2], env, mods)
        raise AssertionError(k)

    def diff(self, e, name, env, mods):
        self.ntag += 1
        t = 1 << 20
        t += self.ntag
        if name in self.exprs:
            r = self.ev(e, env, dict(mods, **{name: mods.get(name, ()) + (t,)}))
        else:
            v = env[name] if name in env else self.values[name]
            r = self.ev(e, dict(env, **{name: D(t, v, const(1))}), mods)
        a, d = extract(r, t)
        return d if d is not None else const(0)


def extract(x, t):
    """derivative by tag t, which is the largest"""
    if isinstance(x, D) and x.t == t:
        return x.a, x.d if x.d is not None else const(0)
    return x, None


def names_in(es):
    out = set()
    for e in es:
        if isinstance(e, list):
            out |= names_in(e)
        elif isinstance(e, tuple):
            out |= {e[1]} if e[0] == "var" else names_in(e[1:])
    return out


def isnum(e):
    return e[0] == "num" or (e[0] == "neg" and e[1][0] == "num")


# ---------------------------------------------------------------- text
LEVEL = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "^": 7, "neg": 8, "not": 8}


def text(e, r):
    """(text, level of its outermost operator); parentheses where they are needed, and at times where they are not"""
    k = e[0]
    if k == "num":
        return e[1], 9
    if k in ("var", "mod"):
        return e[1], 9
    sp = r.choice(["", " "])

    def sub(x, need):
        s, l = text(x, r)
        return "(" + s + ")" if l < need or r.random() < 0.2 else s
    if k in ("+", "-", "*", "/"):
        l = LEVEL[k]
        return sub(e[1], l) + sp + k + sp + sub(e[2], l + 1), l
    if k == "^":
        return sub(e[1], 8) + sp + "^" + sp + sub(e[2], 7), 7
    if k == "cmp":
        l = LEVEL[e[1]]
        return sub(e[2], l) + " " + e[1] + " " + sub(e[3], l + 1), l
    if k in ("and", "or"):
        l = LEVEL[k]
        return sub(e[1], l) + (" && " if k == "and" else " || ") + sub(e[2], l + 1), l
    if k == "not":
        return "!" + sub(e[1], 8), 8
    if k == "neg":
        return "-" + sp + sub(e[1], 8), 8
    if k in ("exp", "log", "simplify", "expand"):
        return "%s(%s)" % (k, text(e[1], r)[0]), 9
    if k == "pow":
        return "pow(%s,%s)" % (text(e[1], r)[0], text(e[2], r)[0]), 9
    if k == "call":
        return "%s(%s)" % (e[1], (", " if r.random() < 0.5 else ",").join(text(x, r)[0] for x in e[2])), 9
    if k == "diff":
        return "diff(%s, %s)" % (text(e[1], r)[0], e[2]), 9
    if k in ("scaled", "signed"):
        s = text(e[1], random.Random(1))[0]
        return ("scale(%s)*unscaledval(%s)" if k == "scaled" else "sign(%s)*unsignedval(%s)") % (s, s), 6
    raise AssertionError(k)


# ---------------------------------------------------------------- models
def number(r):
    c = r.random()
    if c < 0.4:
        s = str(r.choice([0, 1, 2, 3, 4, 5, 7, 10]))
    elif c < 0.6:
        s = r.choice(["%.3f", "%.15g", "%.1f"]) % r.uniform(0.1, 5)
        s = s if "." in s else s + "."
    elif c < 0.7:
        s = r.choice([".5", "2.", "0.25", "1.5", "1e0", "2E-1", "25e-2", "1.25e+0", "3.e-1"])
    elif c < 0.8:
        s = "%.16e" % (r.uniform(1, 9) * 10 ** r.randint(-3, 3))
    elif c < 0.87:
        s = r.choice(["1234567", "1000001", "999999", "1234567.5", "16777217", "2147483647", "2147483648", "4294967297", "12345678901"])
    else:
        s = "%d" % r.randint(0, 20)
    return ("num", s, float(s))


def grow(r, names, models, funcs, depth, plain=False):
    """plain: no derivatives, for what is expanded"""
    if depth <= 0 or r.random() < 0.12:
        c = r.random()
        if names and c < 0.65:
            return ("var", r.choice(names))
        if models and c < 0.8:
            return ("mod", r.choice(models))
        return number(r)
    g = lambda d=1: grow(r, names, models, funcs, depth - d, plain)
    c = r.random()
    if c < 0.2:
        return ("+", g(), g())
    if c < 0.36:
        return ("-", g(), g())
    if c < 0.55:
        return ("*", g(), g())
    if c < 0.62:
        return ("/", g(), ("+", ("num", "2.0", 2.0), ("pow", g(2), ("num", "2", 2.0))) if r.random() < 0.6 else g())
    if c < 0.68:
        x = r.choice([2, 2, 3, 4, -1, -2, 0.5, 1.5, -0.5, 1, 0, r.choice([2e-05, 3e-07, 2.0000002, -2.0000001, 1e-05, 2.5])])
        ex = ("num", str(abs(x)), float(abs(x)))
        if x < 0:
            ex = ("neg", ex)
        return (r.choice(["^", "pow"]), g(), ex)
    if c < 0.71:
        return (r.choice(["^", "pow"]), ("exp", ("/", g(2), ("num", "8.0", 8.0))) if r.random() < 0.5 else ("+", ("pow", g(2), ("num", "2", 2.0)), ("num", "0.5", 0.5)), g(2))
    if c < 0.78:
        return ("exp", ("/", g(2), ("num", "4.0", 4.0)) if r.random() < 0.6 else g(2))
    if c < 0.83:
        return ("log", r.choice([lambda: ("+", ("num", "1.5", 1.5), ("pow", g(2), ("num", "2", 2.0))), lambda: ("exp", g(2)), lambda: ("pow", g(2), ("num", "2", 2.0)), g])())
    if c < 0.87:
        return ("neg", g())
    if c < 0.91 and funcs:
        f = r.choice(funcs)
        return ("call", f, [g(2) for _ in range(NARG[f])])
    if c < 0.95:
        cond = ("cmp", r.choice(["==", "!=", "<", "<=", ">", ">="]), g(2), g(2)) if r.random() < 0.7 else (r.choice(["and", "or"]), ("cmp", r.choice(["<", ">="]), g(2), g(2)), g(2)) if r.random() < 0.8 else ("not", g(2))
        return ("+", ("*", cond, g()), ("*", ("not", cond), g())) if r.random() < 0.7 else cond
    if plain or c < 0.965:
        return (r.choice(["scaled", "signed", "simplify"]), g())
    if c < 0.98:
        e = grow(r, names, models, [], min(2, depth - 1), True)
        if r.random() < 0.5:
            x = r.choice([2, 3, 1.5, 2e-05, 3e-07, 2.0000002])
            e = ("pow", ("+", ("pow", e, ("num", "2", 2.0)), ("num", "0.5", 0.5)), ("num", str(x), float(x)))
        return ("expand", e)
    return ("diff", g(), r.choice(names + models)) if names else g()


NODES = ["va", "vc", "vx", "vb", "ve", "n1", "n2", "x_y", "unique0", "anode", "V0", "node_a", "i", "e_1"]
PARAMS = ["Is", "R", "n", "VT", "C", "val", "str", "name", "nk", "n3", "ret", "evx_va", "eq_vx", "unique1", "tau", "K2"]
MODELS = ["id", "ir", "qd", "m_1", "unique2", "gm", "unique0_", "ddt_", "a", "b2"]
EQUATIONS = ["evx", "eva", "eq", "e_x", "e", "kcl", "unique3", "f1"]


def make(r, title):
    ext = r.sample(NODES, r.choice([1, 2, 2, 3]))
    inn = r.sample([x for x in NODES if x not in ext], r.choice([0, 1, 1, 2]))
    nodes = ext + inn
    par = {}
    for p in r.sample(PARAMS, r.choice([0, 1, 2, 3, 4])):
        s = r.choice(["1.0", "0.5", "%.15g" % r.uniform(0.1, 3), "1.", ".25", "2e-1", "%.16e" % r.uniform(0.1, 2), "1234567.25", "1.0000001", "1E1", "3e0"])
        if not any(c in s for c in ".eE"):
            s += "."
        par[p] = s
    use = r.sample(["sin", "cos", "tanh", "uf1", "uf2", "uf3"], r.choice([0, 0, 1, 2, 3, 6]))
    lines, funcs = [], {}
    order = []
    late = r.random() < 0.25        # functions and parameters before nodes, with arguments of the same names
    argnames = nodes + list(par) if late else ["x", "y", "z", "u", "w"]
    for f in use:
        a = r.sample(argnames + ["p_1", "q_1", "s_1"], NARG[f])
        la = r.sample(argnames + ["p_1", "q_1", "s_1"], NARG[f])
        V = [("var", x) for x in a]
        one = ("num", "1.0", 1.0)
        if r.random() < 0.85:
            if f == "sin" and "cos" in use:
                ds_ = [("call", "cos", V)]
            elif f == "cos" and "sin" in use:
                ds_ = [("neg", ("call", "sin", V))]
            elif f == "tanh":
                ds_ = [("-", one, ("^", ("call", "tanh", V), ("num", "2", 2.0)))]
            elif f == "uf1":
                ds_ = [("/", ("-", one, ("*", V[0], V[0])), ("^", ("+", one, ("*", V[0], V[0])), ("num", "2", 2.0)))]
            elif f == "uf3":
                ds_ = [V[1], V[0], ("neg", ("call", "sin", [V[2]])) if "sin" in use else ("*", V[2], V[0])]
            else:
                ds_ = None
            if ds_ is None or r.random() < 0.4:
                ds_ = [grow(r, a + [p for p in par if p not in a], [], [x for x in use if x in ("sin", "cos", "tanh")], 2, True) for _ in a]
            funcs[f] = (a, ds_)
        order.append((f, la))
    # functions used in derivatives have to be known first
    head = []
    known = set()
    for f, la in order:
        if f not in funcs or r.random() < 0.5 or any(True for g in funcs if uses(funcs[g][1], f)):
            head.append("declarefunc %s(%s);" % (f, ", ".join(la)))
            known.add(f)
    for f, la in order:
        if f in funcs:
            head.append("definefuncdiff %s(%s), %s;" % (f, ",".join(funcs[f][0]), ", ".join(text(x, r)[0] for x in funcs[f][1])))
    decl = []
    for x in ext:
        decl.append("external_node %s;" % x)
    for x in inn:
        decl.append("internal_node %s;" % x)
    for p, s in par.items():
        decl.append('parameter %s "%s" %s;' % (p, r.choice(["resistance", "", "a;b", "of\nthe model", "# not a comment", "back\\slash"]), s))
    # the order of external nodes is that of the terminals
    if r.random() < 0.4:
        k = [i for i in range(len(decl))]
        r.shuffle(k)
        decl2 = [decl[i] for i in k]
        e = iter([x for x in decl if x.startswith("external")])
        decl = [next(e) if x.startswith("external") else x for x in decl2]
    models, body = [], []
    for m in r.sample([x for x in MODELS if x not in nodes and x not in par], r.choice([0, 1, 2, 3, 5])):
        e = grow(r, nodes + list(par), [x for x, _ in models], use, r.choice([1, 2, 3, 4])) if not models or r.random() < 0.9 else ("mod", r.choice(models)[0])
        models.append((m, e))
        body.append("model %s %s;" % (m, text(e, r)[0]))
    eqs, link = [], list(nodes)
    r.shuffle(link)
    for q, n in zip(r.sample([x for x in EQUATIONS if x not in par and x not in nodes], len(nodes)), link):
        dc = grow(r, nodes + list(par), [x for x, _ in models], use, r.choice([1, 2, 3, 4])) if r.random() < 0.85 else ("num", "0", 0.0)
        td = grow(r, nodes + list(par), [x for x, _ in models], use, r.choice([0, 1, 2, 3])) if r.random() < 0.6 else ("num", "0", 0.0)
        if models and r.random() < 0.4:
            dc = ("+", ("mod", r.choice(models)[0]), dc)
        eqs.append((q, dc, td, n))
        body.append("equation %s %s ddt %s;" % (q, text(dc, r)[0], text(td, r)[0]))
    links = ["link %s %s;" % (q, n) for q, _, _, n in eqs]
    r.shuffle(links)
    if late:
        out = head + decl + body
    else:
        out = decl + head + body if not set(a for f in funcs for a in funcs[f][0]) & set(nodes + list(par)) else head + decl + body
    lines = ["title %s;" % title] + out if r.random() < 0.7 else out + ["title %s;" % title]
    lines = lines + links
    txt = ""
    for l in lines:
        txt += l + "\n"
        if r.random() < 0.1:
            txt += r.choice(["# a comment; model x 1;\n", "\n", "   \t\n"])
    return {"title": title, "ext": ext, "inn": inn, "par": {p: float(s) for p, s in par.items()}, "models": models, "eqs": eqs, "funcs": funcs, "use": use, "text": txt, "lines": lines}


def uses(es, f):
    if isinstance(es, tuple) and es and es[0] == "call" and es[1] == f:
        return True
    return any(uses(x, f) for x in es if isinstance(x, (tuple, list)))


def compile_text(ctx, d, txt, limit=None):
    def pre():
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    env = dict(ctx.env, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
    try:
        r = subprocess.run([ctx.mc], input=txt if isinstance(txt, bytes) else txt.encode("utf-8"), cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if limit is None else subprocess.DEVNULL, timeout=15, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, (r.stderr or b"").decode("utf-8", "replace")


def gxx(ctx, args, cwd):
    return subprocess.run(["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-ffp-contract=off"] + args, cwd=cwd, env=ctx.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)


def run_case(ctx, case):
    d = os.path.join(ctx.scratch, "mc")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        {"models": run_models, "broken": run_broken}[case["what"]](ctx, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_models(ctx, case, d):
    r = ctx.rng
    good = []
    for j in range(ctx.args.get("batch", 10)):
        m = make(r, "T%d_%d" % (case["k"], j))
        rc, err = compile_text(ctx, d, m["text"])
        if rc is None:
            ctx.count("too_long")
            continue
        if not ctx.check(rc == 0, "refused", "the model compiler exits with %r: %s" % (rc, "\n".join(err.splitlines()[-4:])), m["text"]):
            continue
        good.append(m)
        ctx.count("models")
        ctx.count("generated_models", len(m["models"]))
    if not good:
        raise Skip()
    with open(os.path.join(d, "all.cc"), "w") as f:
        f.write('#include "mcstub.hh"\n')
        for m in good:
            f.write('#include "%s.cc"\n' % m["title"])
        f.write('#include "mcdrive.hh"\n')
    so = os.path.join(d, "all_%d.so" % case["k"])
    p = gxx(ctx, ["-I", ctx.stub, "-I", d, "-fno-gnu-unique", "-shared", "all.cc", "-o", so], d)
    if p.returncode != 0:
        some = False
        for m in good:
            q = gxx(ctx, ["-I", ctx.stub, "-I", d, "-fsyntax-only", "-include", "mcstub.hh", m["title"] + ".cc"], d)
            if q.returncode != 0:
                some = True
                ctx.violation("generated-code", "the generated code does not compile: %s" % q.stdout.decode()[:600], m["text"])
        if not some:
            raise RuntimeError(p.stdout.decode()[:1000])
        return
    if case["k"] % 12 == 0 and not all(any(u.startswith("uf") for u in m["use"]) for m in good):
        inc = []
        for x in ("Circuit/data", "math", "utility", "errorSystem"):
            inc += ["-I", os.path.join(REPO, "src", x)]
        q = gxx(ctx, inc + ["-I", d, "-fsyntax-only"] + [m["title"] + ".cc" for m in good if not any(u.startswith("uf") for u in m["use"])], d)
        ctx.check(q.returncode == 0, "circuit-interface", "the generated code does not compile with the simulator's circuit classes: %s" % q.stdout.decode()[:600])
        ctx.count("interface")
    lib = ctypes.CDLL(so)
    try:
        for m in good:
            judge(ctx, lib, m)
    finally:
        import _ctypes
        _ctypes.dlclose(lib._handle)


def drive(lib, m, inst, extn, nodes, params, tran, scl, withmat, sol):
    S = lambda l: (ctypes.c_char_p * max(len(l), 1))(*[x.encode() for x in l])
    I = lambda l: (ctypes.c_int * max(len(l), 1))(*[int(x) for x in l])
    F = lambda l: (ctypes.c_double * max(len(l), 1))(*l)
    mx = 2000
    mr, mc_, mv, rr, rv = I([0] * mx), I([0] * mx), F([0.0] * mx), I([0] * mx), F([0.0] * mx)
    pret = I([0] * (len(params) + 1))
    nm, nr, bad, asked = ctypes.c_int(), ctypes.c_int(), ctypes.c_int(), ctypes.c_int()
    fn = lib.mc_drive
    create = ctypes.cast(getattr(lib, m["title"] + "_create"), ctypes.c_void_p)
    ex = fn(create, inst.encode(), len(extn), S(extn), len(nodes), S([n[0] for n in nodes]), I([n[1] for n in nodes]), I([n[2] for n in nodes]),
            len(params), S([p[0] for p in params]), F([p[1] for p in params]), pret,
            int(tran), ctypes.c_double(scl), int(withmat), len(sol), F(sol), mx, mr, mc_, mv, ctypes.byref(nm), rr, rv, ctypes.byref(nr), ctypes.byref(bad), ctypes.byref(asked))
    assert ex == 0
    return {"mat": [(mr[i], mc_[i], mv[i]) for i in range(nm.value)], "rhs": [(rr[i], rv[i]) for i in range(nr.value)], "bad": bad.value, "asked": asked.value, "pret": [pret[i] for i in range(len(params))]}


def judge(ctx, lib, m):
    r = ctx.rng
    nodes = m["ext"] + m["inn"]
    fail = lambda key, msg: ctx.violation(key, msg, m["text"])
    informative = 0
    for rep in range(4):
        # circuit nodes: terminals may be connected to each other or to ground
        inst = "inst%d" % rep
        pool = r.sample(range(6), 6)
        extn = ["net%d" % (r.choice(range(i + 1)) if r.random() < 0.15 else i) for i in range(len(m["ext"]))]
        full = {}
        for i, x in enumerate(m["ext"]):
            full[x] = extn[i]
        for x in m["inn"]:
            full[x] = inst + "." + x
        table = {}
        for x in nodes:
            if full[x] not in table:
                gnd = r.random() < 0.15 and x not in m["inn"]
                table[full[x]] = (full[x], 99 if gnd else pool[len(table)], gnd)
        kind = r.choice(["normal", "positive", "integer", "small"])
        sol = [{"normal": lambda: r.gauss(0, 1), "positive": lambda: r.uniform(0.2, 2.5), "integer": lambda: float(r.randint(-2, 3)), "small": lambda: r.gauss(0, 1) * 10 ** r.uniform(-3, 0)}[kind]() for _ in range(6)]
        vals = {p: M(v, exact=True) for p, v in m["par"].items()}
        params = []
        if rep:
            for p in m["par"]:
                if r.random() < 0.6:
                    v = r.choice([r.uniform(0.2, 2), -r.uniform(0.2, 2), 1.0, 0.0, 2.0])
                    params.append((p, v))
                    vals[p] = M(v, exact=True)
        params.append((r.choice(["nosuch", "va", "", "Is_", "is"]), 3.0))
        for x in nodes:
            t = table[full[x]]
            vals[x] = M(0.0 if t[2] else sol[t[1]], exact=True)
        for tran in (False, True):
            scl = r.choice([1.0, 2.5e9, -1e3, 0.5]) if tran else 1.0
            withmat = not tran or r.random() < 0.7
            g = drive(lib, m, inst, extn, list(table.values()), params, tran, scl, withmat, sol)
            ctx.count("assemblies")
            if g["bad"]:
                fail("outside", "%d accesses outside of the solution, or to other nodes" % g["bad"])
            if g["asked"] != len(nodes):
                fail("nodes", "%d nodes asked for, not %d" % (g["asked"], len(nodes)))
            want = [1] * (len(params) - 1) + [0]
            if params[-1][0] in m["par"]:
                want[-1] = 1
            if g["pret"] != want:
                fail("addParam", "addParam of %s returns %s" % ([p[0] for p in params], g["pret"]))
            if tran and not withmat and g["mat"]:
                fail("nomatrix", "matrix entries without a matrix")
            # expected
            rhs, mat, skip = {}, {}, set()
            for q, dc, td, n in m["eqs"]:
                t = table[full[n]]
                if t[2]:
                    continue
                e = td if tran else dc
                try:
                    v = base(Eval(m, vals).ev(e, {}, {}))
                    a = rhs.setdefault(t[1], [0.0, 0.0])
                    a[0] += scl * v.v
                    a[1] += abs(scl) * v.m
                except (NotFinite, OverflowError, ZeroDivisionError):
                    skip.add(t[1])
                if not withmat:
                    continue
                for x in nodes:
                    c = table[full[x]]
                    if c[2]:
                        continue
                    try:
                        v = base(Eval(m, vals).diff(e, x, {}, {}))
                        a = mat.setdefault((t[1], c[1]), [0.0, 0.0])
                        a[0] += scl * v.v
                        a[1] += abs(scl) * v.m
                    except (NotFinite, OverflowError, ZeroDivisionError):
                        skip.add((t[1], c[1]))
            got = {}
            for i, v in g["rhs"]:
                got[i] = got.get(i, 0.0) + v
            for i, j, v in g["mat"]:
                got[i, j] = got.get((i, j), 0.0) + v
            exp_ = dict(rhs)
            exp_.update(mat)
            for key in sorted(set(got) | set(exp_), key=str):
                if key in skip:
                    ctx.count("undefined")
                    continue
                w, mm = exp_.get(key, [0.0, 0.0])
                v = got.get(key, 0.0)
                what = "derivative" if isinstance(key, tuple) else "value"
                ctx.count("values")
                if key not in exp_:
                    fail("extra", "%s %s at %s of %s which has none" % (what, v, key, "time" if tran else "dc"))
                elif not abs(v - w) <= 1e-11 * mm:
                    eqn = [(q, n) for q, _, _, n in m["eqs"] if table[full[n]][1] == (key[0] if isinstance(key, tuple) else key)]
                    fail(what, "%s of the %s equation at %s %s is %.17g, expected %.17g (%g) with %s, scl %g" % (what, "time" if tran else "dc", key, eqn, v, w, mm, {x: y.v for x, y in vals.items()}, scl))
                    return
                elif mm and mm < 1e5 * abs(w):
                    informative += 1
                    ctx.count(what + ("_time" if tran else "_dc"))
    ctx.distinct(len(m["ext"]), len(m["inn"]), len(m["par"]), len(m["models"]), tuple(sorted(m["use"])), shape(m))
    for f in m["use"]:
        ctx.count("function_" + f)
    for k in kinds(m):
        ctx.count("has_" + k)
    if informative:
        ctx.count("informative")


def shape(m):
    return tuple(sorted(kinds(m)))


def kinds(m):
    out = set()

    def walk(e):
        if isinstance(e, tuple) and e and isinstance(e[0], str):
            out.add({"+": "sum", "-": "difference", "*": "product", "/": "quotient", "^": "power", "pow": "power"}.get(e[0], e[0]))
            for x in e[1:]:
                if isinstance(x, tuple):
                    walk(x)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
    for _, e in m["models"]:
        walk(e)
    for q, a, b, _ in m["eqs"]:
        walk(a)
        walk(b)
    return out


# ---------------------------------------------------------------- broken descriptions
def run_broken(ctx, case, d):
    r = ctx.rng
    for j in range(ctx.args.get("broken", 40)):
        m = make(r, "B%d_%d" % (case["k"], j))
        name, txt, must = spoil(r, m)
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        limit = r.choice([0, 100, 400, 1000]) if name == "file" else None
        if name == "directory":
            os.makedirs(os.path.join(d, m["title"] + ".cc"))
        rc, err = compile_text(ctx, d, txt, limit)
        if name == "directory":
            os.rmdir(os.path.join(d, m["title"] + ".cc"))
        if rc is None:
            ctx.count("too_long")
            continue
        ctx.count("broken")
        ctx.count("broken_" + name)
        ctx.distinct("broken", name)
        if rc < 0 or "Sanitizer" in err or "runtime error" in err:
            ctx.violation("crash:" + name, "the model compiler ends with signal %d: %s" % (-rc, err[-1500:]), txt)
        elif must:
            ctx.check(rc != 0, "accepted:" + name, lambda: "the model compiler accepts this (%s)" % name, txt)
            if name not in ("file", "directory"):
                ctx.check(not os.listdir(d), "files:" + name, lambda: "the model compiler writes %s after an error (%s)" % (os.listdir(d), name), txt)
                ctx.check(bool(err.strip()), "message:" + name, "no message")


def spoil(r, m):
    """(name, text, whether it has to be refused)"""
    lines = list(m["lines"])
    txt = "\n".join(lines) + "\n"
    nodes = m["ext"] + m["inn"]
    kind = r.choice(["cut", "undefined", "undefined_time", "arity", "arity_user", "duplicate", "relink", "relink_node", "equation_name", "notitle", "title2", "unlinked", "node", "unknown_function", "junk", "utf8", "diffby",
                     "reserved", "noise", "bytes", "deep", "file", "directory", "number", "empty", "definefunc", "redeclare", "later", "linkname"])

    def expr():
        """index of a line with an expression, and one expression to append"""
        return r.choice([i for i, l in enumerate(lines) if l.startswith("equation")])

    def plus(i, s):
        if " ddt " in lines[i] and r.random() < 0.5:
            lines[i] = lines[i].replace(" ddt ", " + %s ddt " % s)
        else:
            lines[i] = lines[i][:-1] + " + " + s + ";"
    n0 = r.choice(nodes)
    if kind == "cut":
        t = txt[:r.randrange(len(txt.rstrip()) - 1)]
        # without nodes nothing is missing
        return kind, t, any(l.startswith(("external_node", "internal_node")) for l in t.split("\n")[:-1])
    if kind == "undefined":
        plus(expr(), r.choice(["nosuch", "nosuch*%s" % n0, "exp(nosuch)", "(nosuch > 1)*%s" % n0, "nosuch^2"]))
    elif kind == "undefined_time":
        i = expr()
        lines[i] = lines[i][:-1] + " + nosuch*%s;" % n0
    elif kind == "arity":
        plus(expr(), r.choice(["exp(%s,%s)", "pow(%s,%s,1)", "log(1,%s,%s)", "simplify(%s,%s)", "diff(%s,%s,%s)"]).replace("%s", n0))
    elif kind == "arity_user":
        k = next(i for i, l in enumerate(lines) if l.startswith(("model", "equation")))
        lines.insert(k, "declarefunc zz(aa1,bb1);")
        lines[-len(nodes) - 0:-len(nodes) - 0]
        i = expr()
        plus(i, r.choice(["zz(%s)", "zz(%s,%s,%s)"]).replace("%s", n0))
    elif kind == "duplicate":
        what = r.choice(["external_node %s;", "internal_node %s;", "parameter %s \"x\" 1.0;", "model %s 1;", "equation %s 1 ddt 1;"])
        names = nodes + list(m["par"]) + [x for x, _ in m["models"]] + [q[0] for q in m["eqs"]]
        lines.append(what % r.choice(names))
    elif kind == "relink":
        lines.append("link %s %s;" % (r.choice(m["eqs"])[0], n0))
    elif kind == "relink_node":
        lines.append("equation zz1 1 ddt 1;")
        lines.append("link zz1 %s;" % n0)
    elif kind == "equation_name":
        q = r.choice(m["eqs"])[0]
        lines.append("model zz1 %s*2;" % q)
    elif kind == "notitle":
        lines = [l for l in lines if not l.startswith("title")]
    elif kind == "title2":
        lines.append("title other;")
    elif kind == "unlinked":
        i = r.choice([i for i, l in enumerate(lines) if l.startswith("link")])
        del lines[i]
    elif kind == "node":
        lines.append("%s zz1;" % r.choice(["internal_node", "external_node"]))
    elif kind == "unknown_function":
        plus(expr(), r.choice(["nosuch(%s)", "sqrt(%s)", "exp()", "exp %s"]).replace("%s", n0))
    elif kind == "junk":
        i = r.randrange(len(lines))
        lines[i] = lines[i][:-1] + r.choice(["@", "$", "~", "?", "]", "{", "&", "|", "=", "'", "\\", "%", "..", "1 2", ")", "(", ",,", "+"]) + ";"
    elif kind == "utf8":
        i = expr()
        plus(i, "\u03b1")
    elif kind == "diffby":
        plus(expr(), "diff(%s, %s)" % (n0, r.choice(["2*" + n0, "1", "%s+1" % n0, "exp(%s)" % n0])))
    elif kind == "reserved":
        w = r.choice(["sol", "mat", "rhs", "scl"])
        lines.insert(1, "parameter %s \"x\" 1.0;" % w)
    elif kind == "noise":
        t = list(txt)
        for _ in range(r.randint(1, 12)):
            i = r.randrange(len(t))
            c = r.random()
            if c < 0.4:
                del t[i]
            elif c < 0.7:
                t.insert(i, r.choice("();,+-*/^!<>=&|\"#.0123456789eEabvx_ \n"))
            else:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
        return kind, "".join(t), False
    elif kind == "bytes":
        b = bytearray(txt.encode())
        for _ in range(r.randint(1, 8)):
            b[r.randrange(len(b))] = r.randrange(256)
        return kind, bytes(b), False
    elif kind == "deep":
        n = r.choice([50, 300, 1500])
        lines.insert(len(lines) - len(nodes), "model zz1 " + r.choice(["(" * n + n0 + ")" * n, "-" * n + n0, "!" * n + n0, "(" * n]) + ";")
        return kind, "\n".join(lines) + "\n", False
    elif kind in ("file", "directory"):
        return kind, txt, True
    elif kind == "number":
        lines.append("parameter zz1 \"x\" %s;" % r.choice(["-1.0", "x", "1.0.0", "1e", "\"a\"", ""]))
    elif kind == "empty":
        return kind, r.choice(["", "\n", "# only a comment\n", "title x;\n" if r.random() < 0 else "title;\n"]), True
    elif kind == "definefunc":
        lines.append(r.choice(["definefuncdiff zz(aa1,bb1), aa1;", "definefuncdiff zz(aa1), aa1, aa1;", "definefuncdiff zz(), 1;", "declarefunc zz();", "definefuncdiff zz(aa1);", "declarefunc zz(1);"]))
    elif kind == "redeclare":
        lines.append("declarefunc zz(aa1);")
        lines.append(r.choice(["declarefunc zz(aa1);", "definefuncdiff zz(aa1,bb1), aa1, bb1;", "definefuncdiff zz(aa1), aa1, bb1;", "model zz 1;", "external_node zz;"]))
    elif kind == "later":
        # a model used before it is defined
        k = next(i for i, l in enumerate(lines) if l.startswith("equation"))
        lines.insert(k, "model zz1 zz2*2;")
        lines.insert(k + 1, "model zz2 %s*%s;" % (n0, n0))
    elif kind == "linkname":
        lines.append(r.choice(["link nosuch %s;" % n0, "link %s nosuch;" % r.choice(m["eqs"])[0], "link %s;" % n0]))
    return kind, "\n".join(lines) + "\n", True
