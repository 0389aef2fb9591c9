"""C01: every function of a model expression against an mpmath evaluation of its definition at the same double arguments."""
import math
import numpy as np
import mpmath as mp
import devsim as ds
from vlib import sim, mfun as M
from vlib.worker import Skip

mpf = mp.mpf
DEV, REG = "d", "r"


def both(rs, lo, hi, n):
    v = 10.0 ** rs.uniform(lo, hi, n)
    return np.where(rs.rand(n) < 0.5, v, -v)


def near(rs, points, n):
    """arguments at and just around given points"""
    p = rs.choice(points, n)
    d = rs.choice([0.0, 1e-16, 1e-14, 1e-10, 1e-6, 1e-3], n) * rs.choice([-1, 1], n)
    return p + d * np.maximum(np.abs(p), 1e-3)


EPS_LOG = abs(math.log(np.finfo(float).eps))
EPS_LOG128 = 112 * math.log(2)
SAMPLERS = {
    "abs": lambda r, n: both(r, -300, 300, n), "sgn": lambda r, n: both(r, -300, 300, n), "step": lambda r, n: both(r, -300, 300, n),
    "exp": lambda r, n: r.uniform(-700, 709, n), "log": lambda r, n: 10.0 ** r.uniform(-300, 300, n),
    "B": lambda r, n: np.concatenate([both(r, -20, 2.8, n), r.uniform(-60, 700, n), near(r, [EPS_LOG, -EPS_LOG, EPS_LOG128, -EPS_LOG128, 0, 3.7e-3, -3.7e-3], n)]),
    "dBdx": lambda r, n: np.concatenate([both(r, -20, 2.8, n), r.uniform(-60, 700, n), near(r, [EPS_LOG, -EPS_LOG, EPS_LOG128, -EPS_LOG128, 0, 4.06e-3, -4.06e-3, 1e-16, -1e-16, 1e-12], n)]),
    "acosh": lambda r, n: 1 + 10.0 ** r.uniform(-14, 200, n), "asinh": lambda r, n: both(r, -50, 200, n), "atanh": lambda r, n: np.concatenate([np.tanh(both(r, -12, 1.1, n)), both(r, -200, -3, n)]),
    "cosh": lambda r, n: both(r, -10, 2.84, n), "sinh": lambda r, n: both(r, -50, 2.84, n), "tanh": lambda r, n: both(r, -50, 2.84, n),
    "erf": lambda r, n: np.concatenate([both(r, -50, 1.4, n), near(r, [0.5, 1.5, 2.5, 4.5, 5.8, -0.5, -5.8], n)]),
    "erfc": lambda r, n: np.concatenate([r.uniform(-8, 26, n), near(r, [0.5, 1.5, 2.5, 4.5, 5.8, 14, -0.5], n)]),
    "erf_inv": lambda r, n: np.concatenate([r.uniform(-1, 1, n), both(r, -50, -1, n), 1 - 10.0 ** r.uniform(-15, -1, n)]),
    "erfc_inv": lambda r, n: np.concatenate([10.0 ** r.uniform(-300, -1, n), r.uniform(0.01, 1.99, n), 2 - 10.0 ** r.uniform(-15, -1, n)]),
    "derfdx": lambda r, n: r.uniform(-26, 26, n), "derfcdx": lambda r, n: r.uniform(-26, 26, n),
    "derf_invdx": lambda r, n: np.concatenate([r.uniform(-1, 1, n), 1 - 10.0 ** r.uniform(-14, -1, n)]),
    "derfc_invdx": lambda r, n: np.concatenate([10.0 ** r.uniform(-290, -1, n), r.uniform(0.01, 1.99, n)]),
    "Fermi": lambda r, n: np.concatenate([r.uniform(-60, 60, n), r.uniform(-600, 700, n // 4), near(r, [4.84051282920006, 0.0, 1.0], n)]),
    "dFermidx": lambda r, n: np.concatenate([r.uniform(-60, 60, n), r.uniform(-600, 700, n // 4), near(r, [4.84051282920006, 0.0, 1.0], n)]),
    "InvFermi": lambda r, n: np.concatenate([10.0 ** r.uniform(-30, 2, n), 10.0 ** r.uniform(0, 30, n), near(r, [8.46296036621705, 1.0], n)]),
    "dInvFermidx": lambda r, n: np.concatenate([10.0 ** r.uniform(-30, 2, n), 10.0 ** r.uniform(0, 30, n), near(r, [8.46296036621705, 1.0], n)]),
    "!": lambda r, n: r.choice([0.0, -0.0, 1.0, -3.0, 1e-300], n),
}
CHEAP = ["abs", "sgn", "step", "exp", "log", "B", "dBdx", "acosh", "asinh", "atanh", "cosh", "sinh", "tanh", "erf", "erfc", "derfdx", "derfcdx", "InvFermi", "dInvFermidx", "!"]
DEAR = ["erf_inv", "erfc_inv", "derf_invdx", "derfc_invdx", "Fermi", "dFermidx"]
PAIRS = ["gfi", "dgfidx", "igfi", "digfidx", "min", "max", "&&", "||", "==", "<", "<=", ">", ">=", "pow", "+", "-", "*", "/", "^"]
DERIV = {"exp": "exp", "log": None, "B": "dBdx", "Fermi": "dFermidx", "InvFermi": "dInvFermidx", "erf": "derfdx", "erfc": "derfcdx",
         "erf_inv": "derf_invdx", "erfc_inv": "derfc_invdx", "acosh": None, "asinh": None, "atanh": None, "cosh": None, "sinh": None, "tanh": None}
# how much accuracy is required in double: relative error.  Conditioned ones lose |x f'/f| eps.
TOL = {"dBdx": 3e-13, "derfdx": 2e-13, "derfcdx": 2e-13, "derf_invdx": 5e-13, "derfc_invdx": 1e-12, "Fermi": 2e-11, "dFermidx": 2e-11,
       "InvFermi": 2e-14, "dInvFermidx": 2e-14, "gfi": 1e-12, "dgfidx": 1e-12, "igfi": 1e-10, "digfidx": 1e-8}


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    what = ["value:" + f for f in CHEAP + DEAR] + ["pair:" + f for f in PAIRS] + ["deriv:" + f for f in DERIV] + ["dpair:pow", "dpair:gfi", "dpair:igfi", "dpair:min", "dpair:max"] + \
           ["multi:kahan3", "multi:kahan4", "multi:dot2d", "multi:ifelse", "multi:if", "multi:vec", "args", "integral:Fermi", "integral:gfi", "inverse", "user", "nested"]
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (what[k % len(what)], k // len(what)), "what": what[k % len(what)]}


def setup(ctx, n, ext, **cols):
    sim.reset()
    if ext:
        ds.set_parameter(name="extended_model", value=True)
    if ctx.rng.random() < 0.3:
        ds.set_parameter(name="threads_available", value=ctx.rng.choice([2, 3]))
        ds.set_parameter(name="threads_task_size", value=ctx.rng.choice([1, 7, 64]))
    sim.line_device(DEV, n)
    for c, v in cols.items():
        if np.ndim(v):
            ds.node_solution(device=DEV, region=REG, name=c)
            ds.set_node_values(device=DEV, region=REG, name=c, values=[float(x) for x in v])
        else:
            ds.set_parameter(name=c, value=float(v))


def model(expr, name="f"):
    ds.node_model(device=DEV, region=REG, name=name, equation=expr)
    return np.array(ds.get_node_model_values(device=DEV, region=REG, name=name))


def compare(ctx, key, expr, got, want, args, tol):
    """relative comparison with an mp value; functions that are sums crossing zero are compared absolutely next to it"""
    floor = mpf("2e-15") if "InvFermi" in key or "igfi" in key else 0
    ctx.count("values", len(got))
    for g, w, a in zip(got, want, args):
        e = abs(mpf(float(g)) - w) if math.isfinite(g) else mpf("inf")
        if not e <= tol * abs(w) + floor:
            ctx.violation(key, "%s at %s: %r instead of %s (relative error %s)" % (expr, a, float(g), mp.nstr(w, 20), mp.nstr(e / abs(w), 5) if w else "inf"))
            return False
    return True


def values(ctx, rs, key, call, oracle, cols, tol, ext):
    """call: expression in the names of cols; cols: arrays; oracle on one row.  Checks the double result, the constant path and, in extended precision, the digits beyond double."""
    names = sorted(cols)
    rows = list(zip(*[cols[k] for k in names]))
    want = [mpf(oracle(*[mpf(float(v)) for v in r])) for r in rows]
    keep = [i for i, w in enumerate(want) if w == 0 or mpf("1e-290") < abs(w) < mpf("1e300")]
    if not keep:
        raise Skip()
    rows, want = [rows[i] for i in keep], [want[i] for i in keep]
    n = max(len(rows), 3)
    pad = [rows[min(i, len(rows) - 1)] for i in range(n)]
    arr = {k: np.array([p[j] for p in pad]) for j, k in enumerate(names)}
    ref = np.array([float(w) for w in want] + [float(want[-1])] * (n - len(want)))
    setup(ctx, n, ext, zz=ref, **arr)
    got = model(call)[:len(want)]
    t = (2.3e-16 if "Fermi" not in key else 2e-14) if ext else max(tol, 4e-15)  # the coefficients of Joyce-Dixon are double constants
    ctx.count("extended" if ext else "double", len(want))
    ok = compare(ctx, "%s:%s" % (key, "ext" if ext else "double"), call, got, want, rows, t)
    if ok and ext and "Fermi" not in key:
        res = model("(%s) - zz" % call, "g")[:len(want)]
        ctx.count("extended_residuals", len(want))
        for g, w, z, a in zip(res, want, ref, rows):
            e = abs(mpf(float(g)) - (w - mpf(float(z))))
            if not e <= abs(w) * mpf("1e-26") * max(1, tol / 4e-15) + abs(w - mpf(float(z))) * mpf("3e-16") + mpf("1e-320"):
                ctx.violation(key + ":extended_digits", "%s at %s: digits beyond double wrong: residual %r instead of %s" % (call, a, float(g), mp.nstr(w - mpf(float(z)), 17)))
                break
    # the same with uniform operands: scalar path
    for i in rs.choice(len(rows), min(3, len(rows)), replace=False):
        for j, k in enumerate(names):
            ds.set_parameter(device=DEV, region=REG, name=k + "p", value=float(rows[i][j]))
        sub = call
        for k in names:
            sub = sub.replace("@" + k, k)
        e = rename(call, names)
        v = model(e, "s%d" % i)
        ctx.count("scalar_path")
        compare(ctx, key + ":scalar", e, v[:1], [want[i]], [rows[i]], t)
        ctx.check(bool((v == v[0]).all()), key + ":scalar_spread", "uniform expression %s is not uniform: %s" % (e, v[:5]))
    ctx.distinct(key, ext, len(rows))


def rename(call, names):
    import re
    return re.sub(r"\b(%s)\b" % "|".join(names), r"\1p", call)


def run_case(ctx, case):
    rs = ctx.np()
    kind, _, f = case["what"].partition(":")
    ext = rs.rand() < 0.4
    with mp.workdps(50):
        globals()["case_" + kind](ctx, rs, f, ext)
    ctx.distinct(case["what"])
    ctx.sample(case["what"])


def case_value(ctx, rs, f, ext):
    n = 8 if f in DEAR else 60
    x = SAMPLERS[f](rs, n)
    if f in ("step", "sgn", "abs", "B", "dBdx", "tanh", "sinh", "asinh", "erf"):
        x = np.concatenate([x, [0.0]])
    if f in ("abs",):
        ext = False if rs.rand() < 0.5 else ext
    call = "!a" if f == "!" else "%s(a)" % f
    values(ctx, rs, "fn:" + f, call, M.UNARY[f], {"a": x}, TOL.get(f, 4e-15), ext)


def widths(rs, n, of):
    """of a Gaussian density of states: the same everywhere, changing from node to node, or next to each other"""
    s = float(rs.choice(of))
    k = rs.randint(3)
    if k == 0:
        return np.full(n, s)
    if k == 1:
        return np.round(rs.uniform(of[0], of[-1], n), 3)
    return s * (1 + rs.choice([0.0, 1.0], n) * 10.0 ** -rs.randint(1, 9, n))


def pair_samples(rs, f, n):
    if f in ("gfi", "dgfidx"):
        s = widths(rs, n, [0.5, 1.0, 2.0, 3.7, 5.0, 7.0])
        z = rs.uniform(-s * s - 20, 3 * s + 3)
        z[:3] = -s[:3] * s[:3] + np.array([0, -1e-9, 1e-9])
        return z, s
    if f in ("igfi", "digfidx"):
        n = 6
        s = widths(rs, n, [0.5, 1.0, 2.0, 3.7, 5.0])
        return np.where(rs.rand(n) < 0.5, 10.0 ** rs.uniform(-14, -0.1, n), 1 - 10.0 ** rs.uniform(-6, -0.5, n)), s
    if f in ("pow", "^"):
        k = rs.randint(4)
        if k == 0:
            return 10.0 ** rs.uniform(-10, 10, n), rs.uniform(-20, 20, n)
        if k == 1:
            return both(rs, -10, 10, n), rs.randint(-9, 10, n).astype(float)
        if k == 2:
            return 10.0 ** rs.uniform(-40, 40, n), rs.choice([0.5, -0.5, 1.5, 2.0, 1.0, 0.0, -1.0, 3.0, 0.25], n)
        return np.full(n, 0.0), rs.choice([0.0, 1.0, 2.0, 0.5], n)
    if f in ("&&", "||", "==", "<", "<=", ">", ">="):
        v = [0.0, -0.0, 1.0, -1.0, 2.0, 1 + 2.3e-16, 1e-300, -1e-300]
        return rs.choice(v, n), rs.choice(v, n)
    a, b = both(rs, -100, 100, n), both(rs, -100, 100, n)
    k = max(1, n // 5)
    b[:k] = a[:k]
    return a, b


def case_pair(ctx, rs, f, ext):
    a, b = pair_samples(rs, f, 40)
    call = {"+": "a + b", "-": "a - b", "*": "a * b", "/": "a / b", "^": "a ^ b"}.get(f) or ("a %s b" % f if not f[0].isalpha() else "%s(a, b)" % f)
    oracle = M.BINARY["pow" if f == "^" else f]
    tol = TOL.get(f, 4e-15)
    if f in ("pow", "^"):
        tol = 1e-13
    values(ctx, rs, "fn:" + f, call, oracle, {"a": a, "b": b}, tol, ext)
    # one operand varying, the other uniform
    if len(a) and not ext:
        w = oracle(mpf(float(a[0])), mpf(float(b[0])))
        if mpf("1e-290") < abs(w) < mpf("1e300"):
            setup(ctx, 5, False, a=np.full(5, a[0]), bp=float(b[0]))
            v = model(rename(call, ["b"]))
            compare(ctx, "fn:%s:mixed" % f, call, v, [w] * 5, [(a[0], b[0])] * 5, max(tol, 4e-15))
            setup(ctx, 5, False, b=np.full(5, b[0]), ap=float(a[0]))
            v = model(rename(call, ["a"]))
            compare(ctx, "fn:%s:mixed" % f, call, v, [w] * 5, [(a[0], b[0])] * 5, max(tol, 4e-15))
            ctx.count("mixed_path", 2)


def sym_derivative(expr, var="a"):
    return ds.symdiff(expr="diff(%s, %s)" % (expr, var))


def case_deriv(ctx, rs, f, ext):
    """the derivative the simulator derives for f(a) is the derivative of f"""
    x = SAMPLERS[f](rs, 6 if f in DEAR else 25)
    x = x[np.abs(x) > 1e-6]
    x = x[np.abs(x) < 300]
    if f in ("asinh", "acosh", "log"):
        x = x[np.abs(x) < 1e60]
    if f == "acosh":
        x = x[x > 1 + 1e-6]
    if f in ("atanh", "erf_inv", "erfc_inv"):
        x = x[(np.abs(x) < 1 - 1e-5)]
    if f in ("tanh", "erf", "erfc"):
        x = x[np.abs(x) < 5]
    d = sym_derivative("%s(a)" % f)
    ctx.count("derivatives")
    ex = {"exp": mp.exp, "log": lambda v: 1 / v, "acosh": lambda v: 1 / mp.sqrt(v * v - 1), "asinh": lambda v: 1 / mp.sqrt(v * v + 1), "atanh": lambda v: 1 / (1 - v * v),
          "cosh": mp.sinh, "sinh": mp.cosh, "tanh": lambda v: 1 / mp.cosh(v) ** 2}
    g = DERIV[f]
    oracle = ex.get(f) or M.UNARY[g]
    # the oracle of the derivative is itself the derivative of the oracle of the function
    if len(x) and f not in ex:
        v = mpf(float(x[0]))
        with mp.workdps(60):
            h = abs(v) * mpf("1e-18")
            num = (M.UNARY[f](v + h) - M.UNARY[f](v - h)) / (2 * h)
        if not abs(num - oracle(v)) <= mpf("1e-12") * abs(num):
            raise RuntimeError("oracle of %s inconsistent at %s: %s %s" % (f, v, num, oracle(v)))
    tol = {"tanh": 1e-10, "acosh": 1e-9, "atanh": 1e-9}.get(f, TOL.get(g, 1e-13))
    if len(x):
        values(ctx, rs, "deriv:" + f, "(%s)" % d, oracle, {"a": x}, tol, ext and f not in ("acosh", "atanh", "tanh"))


def case_dpair(ctx, rs, f, ext):
    a, b = pair_samples(rs, f, 15)
    if f in ("min", "max"):
        k = np.abs(a - b) > 0
        a, b = a[k], b[k]
    if f == "pow":
        a, b = 10.0 ** rs.uniform(-3, 3, 15), rs.uniform(-5, 5, 15)
    da = sym_derivative("%s(a, b)" % f)
    O = {"pow": lambda x, y: y * mp.power(x, y - 1), "gfi": M.dgfi, "igfi": M.digfi,
         "min": lambda x, y: M.bool_(x < y), "max": lambda x, y: M.bool_(x > y)}[f]
    ctx.count("derivatives")
    values(ctx, rs, "deriv1:" + f, "(%s)" % da, O, {"a": a, "b": b}, max(TOL.get({"gfi": "dgfidx", "igfi": "digfidx"}.get(f), 0), 2e-13), False)
    if f in ("pow", "min", "max"):
        db = sym_derivative("%s(a, b)" % f, "b")
        O = {"pow": lambda x, y: mp.log(x) * mp.power(x, y), "min": lambda x, y: M.bool_(y < x), "max": lambda x, y: M.bool_(y > x)}[f]
        ctx.count("derivatives")
        values(ctx, rs, "deriv2:" + f, "(%s)" % db, O, {"a": a, "b": b}, 2e-13, False)


def case_multi(ctx, rs, f, ext):
    n = 30
    if f in ("kahan3", "kahan4"):
        k = int(f[-1])
        cols = [both(rs, -10, 20, n) for _ in range(k)]
        j = rs.randint(1, k)
        cols[j] = -cols[0] * (1 + rs.choice([0, 1e-16, 1e-12], n))
        names = "abcd"[:k]
        sums = [sum(mpf(float(c[i])) for c in cols) for i in range(n)]
        setup(ctx, n, ext, **dict(zip(names, cols)))
        got = model("%s(%s)" % (f, ", ".join(names)))
        big = [max(abs(float(c[i])) for c in cols) for i in range(n)]
        ctx.count("values", n)
        # compensated: error far below eps times the largest operand
        for g, w, m in zip(got, sums, big):
            if not abs(mpf(float(g)) - w) <= 2.3e-16 * abs(w) + mpf(m) * mpf("1e-31"):
                ctx.violation("fn:" + f, "%s gives %r instead of %s (largest operand %g)" % (f, g, mp.nstr(w, 20), m))
                break
        return
    if f == "dot2d":
        cols = {k: both(rs, -20, 20, n) for k in "abcd"}
        values(ctx, rs, "fn:dot2d", "dot2d(a, b, c, d)", lambda a, b, c, d: a * c + b * d if abs(a * c + b * d) > mpf("1e-3") * (abs(a * c) + abs(b * d)) else mpf(0) * 0 + mpf("1e-299"), cols, 1e-12, False)
        return
    if f == "ifelse":
        cols = {"a": rs.choice([0.0, 1.0, -2.0, 1e-300], n), "b": both(rs, -5, 5, n), "c": both(rs, -5, 5, n)}
        values(ctx, rs, "fn:ifelse", "ifelse(a, b, c)", lambda a, b, c: b if a != 0 else c, cols, 4e-15, ext)
        values(ctx, rs, "fn:ifelse", "ifelse(b < c, a, c)", lambda a, b, c: a if b < c else c, cols, 4e-15, ext)
        return
    if f == "if":
        cols = {"a": rs.choice([0.0, 1.0], n), "b": both(rs, -5, 5, n)}
        values(ctx, rs, "fn:if", "if(a == 1, b)", lambda a, b: b if a == 1 else mpf(0), cols, 4e-15, ext)
        return
    v = both(rs, -3, 3, n)
    setup(ctx, n, ext, a=v)
    ctx.close(model("vec_max(a)"), v.max(), "fn:vec_max", "vec_max", rtol=0)
    ctx.close(model("vec_min(a)", "g"), v.min(), "fn:vec_min", "vec_min", rtol=0)
    ctx.close(model("vec_sum(a)", "h"), math.fsum(v), "fn:vec_sum", "vec_sum", rtol=1e-13, scale=np.abs(v).sum())


NARGS = {f: 1 for f in CHEAP + DEAR + ["vec_sum", "vec_max", "vec_min"] if f != "!"}
NARGS.update({f: 2 for f in ["gfi", "dgfidx", "igfi", "digfidx", "min", "max", "pow"]})
NARGS.update({"ifelse": 3, "kahan3": 3, "kahan4": 4, "dot2d": 4})


def case_args(ctx, rs, f, ext):
    """unknown functions and wrong numbers of arguments are errors, wherever they appear, and leave evaluation usable"""
    setup(ctx, 4, ext, a=np.array([0.1, 0.2, 0.3, 0.4]), p=0.25)
    for j in range(25):
        f = rs.choice(sorted(NARGS))
        n = NARGS[f]
        k = int(rs.choice([i for i in range(0, 6) if i != n]))
        use = [str(rs.choice(["a", "p", "0.5"])) for _ in range(k)]
        e = "%s(%s)" % (f, ", ".join(use))
        if rs.rand() < 0.3:
            e = "nosuch%d(%s)" % (j, ", ".join(use[:max(k, 1)] or ["a"]))
        if rs.rand() < 0.4:
            e = "1 + exp(%s)" % e
        try:
            v = model(e, "bad%d" % j)
        except ds.error:
            ctx.count("rejections")
            continue
        ctx.violation("args", "%s was evaluated to %s instead of being rejected" % (e, v[:2]))
        return
    # late: a function that disappears cannot happen, but a model using a function with the right count evaluated after the errors must work
    ctx.close(model("exp(a) + p"), np.exp([0.1, 0.2, 0.3, 0.4]) + 0.25, "args:after", "evaluation after rejected expressions", rtol=1e-14)


def case_integral(ctx, rs, f, ext):
    if f == "Fermi":
        # measured accuracy of Joyce-Dixon with the degenerate continuation: 0.22 percent
        eta = rs.uniform(-30, 60, 12)
        setup(ctx, 12, ext, a=eta)
        got = model("Fermi(a)")
        want = np.array([M.fermi_integral(e) for e in eta])
        ctx.close(got, want, "integral:Fermi", "Fermi against the Fermi integral of order 1/2 at %s" % eta, rtol=3.5e-3)
        ctx.count("integrals", 12)
        return
    # the approximation of Paasch and Scheinert: within 20 percent up to s = 6, much closer at the ends
    s = float(rs.choice([1.0, 2.0, 4.0, 6.0]))
    z = rs.uniform(-60, 10, 8)
    setup(ctx, 8, ext, a=z, s=s)
    got = model("gfi(a, s)")
    want = np.array([M.gauss_fermi_integral(v, s) for v in z])
    ctx.close(got, want, "integral:gfi", "gfi against the Gauss-Fermi integral, s=%g at %s" % (s, z), rtol=0.2)
    ctx.count("integrals", 8)


def case_inverse(ctx, rs, f, ext):
    """inverses undo their function, inside one expression and therefore in the same precision"""
    n = 40
    plan = [("InvFermi(Fermi(a))", rs.uniform(-25, 60, n), 1e-10), ("Fermi(InvFermi(a))", 10.0 ** rs.uniform(-10, 3, n), 1e-10),
            ("erf_inv(erf(a))", rs.uniform(-2, 2, n), 1e-13), ("erf(erf_inv(a))", rs.uniform(-1, 1, n), 1e-13), ("erfc_inv(erfc(a))", rs.uniform(0.1, 25, n), 1e-12), ("erfc(erfc_inv(a))", 10.0 ** rs.uniform(-250, 0, n), 3e-12),
            ("log(exp(a))", rs.uniform(-600, 700, n), 1e-13), ("exp(log(a))", 10.0 ** rs.uniform(-250, 250, n), 3e-13), ("asinh(sinh(a))", rs.uniform(-600, 600, n), 1e-13), ("acosh(cosh(a))", rs.uniform(0.1, 600, n), 1e-12),
            ("tanh(atanh(a))", rs.uniform(-1, 1, n), 1e-13), ("gfi(igfi(a, 3), 3)", np.where(rs.rand(n) < 0.5, 10.0 ** rs.uniform(-12, -1, n), rs.uniform(0.1, 0.999, n)), 1e-10), ("igfi(gfi(a, 3), 3)", rs.uniform(-40, 6, n), 1e-8),
            ("dFermidx(a) * dInvFermidx(Fermi(a))", None, 0), ("digfidx(gfi(a, 3), 3) * dgfidx(a, 3)", None, 0), ("derf_invdx(erf(a)) * derfdx(a)", None, 0), ("derfc_invdx(erfc(a)) * derfcdx(a)", None, 0),
            ("B(a) - B(-a) + a", None, 1), ("dBdx(a) + dBdx(-a) + 1", None, 1), ("erf(a) + erfc(a) - 1", None, 1), ("cosh(a)*cosh(a) - sinh(a)*sinh(a) - 1", None, 1)]
    for j in rs.choice(len(plan), 8, replace=False):
        e, x, tol = plan[j]
        if x is None:
            x = rs.uniform(0.1, 3, n) * rs.choice([-1, 1], n)
            setup(ctx, n, ext, a=x)
            got = model(e)
            want = np.zeros(n) if tol else np.ones(n)
            ctx.close(got, want, "inverse:" + e, e, rtol=0, atol=1e-9 if not ext else 1e-22)
        else:
            setup(ctx, n, ext, a=x)
            got = model(e) if not ext else model("(%s) - a" % e)
            ctx.close(got if not ext else got / np.abs(x), x if not ext else np.zeros(n), "inverse:" + e, e, rtol=tol if not ext else 0, atol=0 if not ext else 1e-22 * tol / 1e-13, scale=np.abs(x).max() * (1e-3 if not ext else 0))
        ctx.count("identities")


def case_user(ctx, rs, f, ext):
    """functions registered from Python, in every operand mix, and nested in built in ones"""
    n = 12
    a, b = rs.uniform(0.5, 2, n), rs.uniform(0.5, 2, n)
    setup(ctx, n, ext, a=a, b=b, p=1.5)
    calls = []

    def one(x):
        calls.append(x)
        return 2.0 * x + 1

    def three(x, y, z):
        return x * y - z

    for e in ("declare(uone(x))", "declare(uthree(x, y, z))", "declare(ubad(x))", "declare(ubad2(x))"):
        ds.symdiff(expr=e)
    ds.register_function(name="uone", procedure=one, nargs=1)
    ds.register_function(name="uthree", procedure=three, nargs=3)
    ctx.close(model("uone(a)", "m1"), 2 * a + 1, "user", "registered function", rtol=1e-15)
    ctx.check(len(calls) == n or ds.get_parameter(name="extended_model"), "user:calls", "called %d times for %d nodes" % (len(calls), n))
    ctx.close(model("uone(p)", "m2"), 4.0, "user", "registered function of a parameter", rtol=0)
    ctx.close(model("uthree(a, p, b)", "m3"), a * 1.5 - b, "user", "registered function of three", rtol=1e-14)
    ctx.close(model("uthree(p, p, p)", "m4"), 0.75, "user", "registered function of three parameters", rtol=1e-14)
    ctx.close(model("exp(uone(a) * b) + uthree(b, a, 1)", "m5"), np.exp((2 * a + 1) * b) + b * a - 1, "user", "nested", rtol=1e-13)
    for e in ("uone(a, b)", "uthree(a)", "uone()"):
        try:
            v = model(e, "m6")
        except ds.error:
            ctx.count("rejections")
        else:
            ctx.violation("user:args", "%s gives %s" % (e, v[:2]))

    def bad(x):
        raise ValueError("told you")
    ds.register_function(name="ubad", procedure=bad, nargs=1)
    try:
        v = model("ubad(a)", "m7")
        ctx.violation("user:error", "exception of a registered function lost: %s" % v[:2])
    except ds.error as e:
        ctx.count("rejections")
    ds.register_function(name="ubad2", procedure=lambda x: "text", nargs=1)
    try:
        v = model("ubad2(a)", "m8")
        ctx.violation("user:error", "non-numeric result of a registered function accepted: %s" % v[:2])
    except ds.error as e:
        ctx.count("rejections")
    ctx.close(model("uone(b)", "m9"), 2 * b + 1, "user", "registered function after errors", rtol=1e-15)


def case_nested(ctx, rs, f, ext):
    """a function keeps no memory of earlier arguments: values for one s are not those of another (Gauss-Fermi caches per s)"""
    n = 10
    ss = [float(v) for v in rs.choice([1.0, 2.0, 3.0, 5.0], 4)]
    z = rs.uniform(-15, 5, n)
    setup(ctx, n, ext, a=z, s=rs.choice(ss, n))
    s = np.array(ds.get_node_model_values(device=DEV, region=REG, name="s"))
    got = model("gfi(a, s) + dgfidx(a, s)")
    want = [M.gfi(float(x), float(y)) + M.dgfi(float(x), float(y)) for x, y in zip(z, s)]
    compare(ctx, "fn:gfi:mixed_s", "gfi(a,s)+dgfidx(a,s)", got, want, list(zip(z, s)), 1e-12)
    for k, v in enumerate(ss):
        got = model("gfi(a, %r)" % v, "k%d" % k)
        compare(ctx, "fn:gfi:sequence", "gfi(a,%r)" % v, got, [M.gfi(float(x), v) for x in z], list(z), 1e-12)
