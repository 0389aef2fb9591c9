"""C02: vector evaluation of expressions on nodes, edges and element edges; threads; exceptions and errors inside of workers."""
import math
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.worker import Skip

DEV = "d"
LENGTHS = [2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 33, 64, 65, 100, 129, 257]
PLAN = ["values", "values", "fpe", "values", "pyfunc", "values", "fpe", "sequence", "values", "special", "reduce", "undefined"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (PLAN[k % len(PLAN)], k), "what": PLAN[k % len(PLAN)], "k": k}


def threads(n, task):
    ds.set_parameter(name="threads_available", value=n)
    ds.set_parameter(name="threads_task_size", value=task)


def schedules(rng, n):
    out = [(2, 1), (3, 0), (rng.choice([4, 5, 7, 8]), rng.choice([0, 1, 2, n // 2, n - 1, n, n + 1])), (rng.choice([16, n, n + 1, 2 * n, 2, 3]) or 2, rng.choice([0, 1]))]
    return [(max(1, min(a, 24)), max(0, b)) for a, b in out]


class Space:
    """a kind of model: node, edge or element edge"""

    def __init__(self, kind, dev, reg):
        self.kind, self.dev, self.reg = kind, dev, reg

    def define(self, name, equation):
        f = {"node": ds.node_model, "edge": ds.edge_model, "element": ds.element_model}[self.kind]
        f(device=self.dev, region=self.reg, name=name, equation=equation)

    def get(self, name):
        f = {"node": ds.get_node_model_values, "edge": ds.get_edge_model_values, "element": ds.get_element_model_values}[self.kind]
        return np.array(f(device=self.dev, region=self.reg, name=name))


def build(ctx, rs, kind, ext=False):
    sim.reset()
    if ext:
        ds.set_parameter(name="extended_model", value=True)
    if kind == "element":
        dim = int(rs.choice([2, 3]))
        m = sim.mesh2d(rs, 1, kind="right") if dim == 2 else sim.mesh3d(rs, 1)
        m.build(DEV)
        return Space(kind, DEV, "r0"), dim
    n = int(rs.choice(LENGTHS)) if rs.rand() < 0.9 else int(rs.randint(500, 2500))
    sim.line_device(DEV, n + (1 if kind == "edge" else 0), region="r0")
    return Space(kind, DEV, "r0"), 1


def inputs(ctx, rs, sp, names, force=None):
    """varying and uniform models, parameters and circuit nodes; name -> array over the space"""
    n = len(ctx_len(sp))
    env = {}
    for i, name in enumerate(names):
        c = (force or {}).get(name) or str(rs.choice(["vary", "vary", "vary", "uniform", "param", "uniform01", "edgevary", "edgeuniform"]))
        if c.startswith("edge") and sp.kind != "element":
            c = "vary"
        if c == "vary":
            v = rs.uniform(-1.5, 1.5, n)
            if rs.rand() < 0.2:
                v = np.round(v)
            store(sp, name, v)
        elif c in ("uniform", "uniform01"):
            u = float(rs.uniform(-1.5, 1.5)) if c == "uniform" else float(rs.choice([0.0, 1.0, -1.0, 1.0]))
            if sp.kind == "node" and rs.rand() < 0.5:
                ds.node_solution(device=sp.dev, region=sp.reg, name=name)
                ds.set_node_value(device=sp.dev, region=sp.reg, name=name, value=u)
            else:
                ds.set_parameter(name="u_" + name, value=u)
                sp.define(name, "u_" + name)
            v = np.full(n, u)
        elif c == "param":
            u = float(rs.uniform(-1.5, 1.5))
            ds.set_parameter(device=sp.dev, region=sp.reg, name=name, value=u)
            v = np.full(n, u)
        else:
            ne = len(ds.get_edge_model_values(device=sp.dev, region=sp.reg, name="EdgeLength"))
            e = rs.uniform(-1.5, 1.5, ne)
            if c == "edgeuniform":
                u = float(rs.uniform(-1.5, 1.5))
                ds.set_parameter(name="u_" + name, value=u)
                ds.edge_model(device=sp.dev, region=sp.reg, name=name, equation="u_" + name)
                v = np.full(n, u)
            else:
                ds.edge_solution(device=sp.dev, region=sp.reg, name=name)
                ds.set_edge_values(device=sp.dev, region=sp.reg, name=name, values=e.tolist())
                v = e[element_to_edge(sp)]
            ctx.count("edge_on_element")
        ctx.count("operand_" + c)
        env[name] = v
    return env


def ctx_len(sp):
    if sp.kind == "node":
        return sp.get("x")
    if sp.kind == "edge":
        return sp.get("EdgeLength")
    return sp.get("ElementEdgeCouple")


def store(sp, name, v):
    v = [float(x) for x in v]
    if sp.kind == "node":
        ds.node_solution(device=sp.dev, region=sp.reg, name=name)
        ds.set_node_values(device=sp.dev, region=sp.reg, name=name, values=v)
    elif sp.kind == "edge":
        ds.edge_solution(device=sp.dev, region=sp.reg, name=name)
        ds.set_edge_values(device=sp.dev, region=sp.reg, name=name, values=v)
    else:
        ds.element_solution(device=sp.dev, region=sp.reg, name=name)
        ds.set_element_values(device=sp.dev, region=sp.reg, name=name, values=v)


def element_to_edge(sp):
    """edge of every element edge, from their end points"""
    e = np.sort(sim.edges_of(sp.dev, sp.reg), axis=1)
    look = {tuple(x): i for i, x in enumerate(e.tolist())}
    dim = ds.get_dimension(device=sp.dev)
    el = sim.element_edges_of(sp.dev, sp.reg, dim)
    return np.array([look[tuple(sorted(x[:2]))] for x in el.tolist()])


NAMES = ["a", "b", "c", "w"]


def run_case(ctx, case):
    globals()["case_" + case["what"]](ctx, ctx.np(), case)


def evaluate_all(ctx, sp, t, key, want, rs, scheds, src=None):
    """serial value against the oracle, then every schedule bit for bit against serial"""
    src = src or X.text(t, ctx.rng)
    threads(1, 0)
    sp.define("f_serial", src)
    ref = sp.get("f_serial")
    w = np.broadcast_to(want.v, ref.shape)
    bound = X.tol(np.broadcast_to(want.e, ref.shape) + np.abs(w))
    ctx.count("values", len(ref))
    bad = ~(np.abs(ref - w) <= bound)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.violation(key + ":value", "%s at %d of %d: %r instead of %r +- %.1e" % (src, i, len(ref), ref[i], w[i], bound[i]))
    for k, (nt, task) in enumerate(scheds):
        threads(nt, task)
        sp.define("f_%d" % k, src)
        got = sp.get("f_%d" % k)
        ctx.count("threaded_evaluations")
        ctx.count("really_threaded", 1 if nt > 1 and len(got) > task else 0)
        if got.shape != ref.shape or not np.array_equal(got, ref):
            i = int(np.argmax(got != ref)) if got.shape == ref.shape else -1
            ctx.violation(key + ":threads", "%s: %d threads, task size %d, length %d: differs from serial at %d: %r instead of %r" % (src, nt, task, len(ref), i, got[i], ref[i]))
    threads(1, 0)
    return src, ref


def case_values(ctx, rs, case):
    kind = ["node", "edge", "element"][int(rs.choice([0, 1, 2]))]
    ext = rs.rand() < 0.2
    sp, dim = build(ctx, rs, kind, ext)
    names = NAMES[:int(rs.randint(1, 5))]
    env = inputs(ctx, rs, sp, names)
    n = len(ctx_len(sp))
    denv = {k: X.var(k, v) for k, v in env.items()}
    for k in range(3):
        t, want = X.pick(ctx.rng, names, denv, ctx.rng.choice([1, 2, 3, 4]), smooth=ctx.rng.random() < 0.5)
        if not X.names(t) or (kind == "element" and not np.ndim(want.v)):
            continue
        src, ref = evaluate_all(ctx, sp, t, "vec:" + kind, want, rs, schedules(ctx.rng, n))
        ctx.distinct(kind, n, src)
        # the value at one place alone: the same expression of parameters
        if kind != "element" and rs.rand() < 0.5 and len(ref) == n:
            i = int(rs.randint(n))
            alone = {nm: nm + "_alone" for nm in names}
            for nm in names:
                ds.set_parameter(name=alone[nm], value=float(env[nm][i]))
            sp.define("f_alone", X.text(X.subst(t, alone)))
            got = sp.get("f_alone")
            b = X.tol(np.broadcast_to(want.e, (n,))[i] + abs(ref[i]))
            ctx.check(np.all(np.abs(got - ref[i]) <= b), "vec:alone", lambda: "%s at %d: %r in the vector, %r alone" % (src, i, ref[i], got[0]))
            ctx.count("alone")
    ctx.sample({"kind": kind, "n": n, "expr": src} if X.names(t) else {"kind": kind})


# expression of the operands p, q whose floating point exception appears only where p is 'bad'
BAD = [("exp(p)", 800.0, "Overflow"), ("1/p", 0.0, "Divide-by-zero"), ("log(p)", -1.0, "Invalid"), ("log(p)", 0.0, "Divide-by-zero"), ("p*1e300", 1e200, "Overflow"),
       ("p^1.5", -2.0, "Invalid"), ("acosh(p)", 0.2, "Invalid"), ("p*p*q", 1e200, "Overflow"), ("q*p*p", 1e200, "Overflow"), ("p*p*exp(q)", 1e200, "Overflow"), ("p+1.7e308+q", 1e308, "Overflow"),
       ("1.7e308+p+exp(q)", 1e308, "Overflow"), ("exp(q)*p*p", 1e200, "Overflow"), ("sinh(p)", 900.0, "Overflow"), ("pow(p,q)", -3.0, "Invalid"), ("atanh(p)", 3.0, "Invalid"),
       ("max(p*p, q)", 1e200, "Overflow"), ("ifelse(p > 0, exp(p), q)", 800.0, "Overflow"), ("q/p", 0.0, "Divide-by-zero"), ("p*p*p+exp(q)", 1e150, "Overflow"), ("exp(q)+p*p*p*exp(q)", 1e150, "Overflow")]


def fails(sp, name):
    try:
        sp.get(name)
    except ds.error as e:
        return str(e)
    return None


def case_fpe(ctx, rs, case):
    kind = ["node", "edge", "element"][int(rs.choice([0, 0, 1, 2]))]
    sp, dim = build(ctx, rs, kind)
    n = len(ctx_len(sp))
    q = rs.uniform(0.3, 1.5, n)
    store(sp, "q", q)
    # 'fine' must not be affected by what happens next to it
    sp.define("fine", "q*2 + exp(q)")
    fine = q * 2 + np.exp(q)
    for r in range(4):
        src, badv, what = BAD[int(rs.randint(len(BAD)))]
        p = rs.uniform(1.1, 1.9, n) if not src.startswith("atanh") else rs.uniform(0.1, 0.6, n)
        if src == "acosh(p)":
            p = rs.uniform(1.1, 1.9, n)
        where = int(rs.choice([0, n - 1, n // 2, int(rs.randint(n))]))
        good = p.copy()
        p[where] = badv
        store(sp, "p", p)
        res = []
        for nt, task in [(1, 0)] + schedules(ctx.rng, n):
            threads(nt, task)
            sp.define("f", src)
            msg = fails(sp, "f")
            ctx.count("exceptions_expected")
            if not ctx.check(msg is not None, "fpe:lost:" + src, lambda: "%s with p=%r at %d of %d, %d threads, task size %d: no error, value %r" % (src, badv, where, n, nt, task, sp.get("f")[where])):
                continue
            ctx.check("floating point exception" in msg or "loating" in msg, "fpe:message", "%s: message %r does not name a floating point exception" % (src, msg[:300]))
            res.append(msg)
            # nothing is left over
            sp.define("fine2", "q*2 + exp(q)")
            try:
                ctx.close(sp.get("fine2"), fine, "fpe:leftover", "a model evaluated after the exception", rtol=1e-14)
            except ds.error as e:
                ctx.violation("fpe:leftover", "a model without exceptions failed after one with: %s" % e)
        if len(res) > 1:
            ctx.check(len(set(res)) == 1, "fpe:same_message", lambda: "%s, bad at %d of %d: threaded evaluation reports %r, serial %r" % (src, where, n, [x for x in res if x != res[0]][0][-600:], res[0][-600:]))
        # repaired input: evaluates again
        store(sp, "p", good)
        for nt, task in [(1, 0), (4, 1)]:
            threads(nt, task)
            m = fails(sp, "f")
            ctx.check(m is None, "fpe:recover", lambda: "%s fails after its input was repaired: %s" % (src, m))
        ctx.distinct(kind, n, src, where)
    # underflow and inexact are not reported
    store(sp, "p", np.full(n, -740.0) + rs.rand(n))
    for nt, task in [(1, 0), (3, 1)]:
        threads(nt, task)
        for s in ("exp(p)", "1e-200*q*1e-200", "exp(p)*exp(p) + q"):
            sp.define("under", s)
            m = fails(sp, "under")
            ctx.check(m is None, "fpe:underflow", lambda: "%s raises %s" % (s, m))
    threads(1, 0)


def case_pyfunc(ctx, rs, case):
    kind = ["node", "edge"][int(rs.choice([0, 1]))]
    sp, dim = build(ctx, rs, kind)
    n = min(len(ctx_len(sp)), 4000)
    a, b = rs.uniform(0.2, 1.5, n), rs.uniform(0.2, 1.5, n)
    store(sp, "a", a)
    store(sp, "b", b)
    calls = []
    bad = {"x": None}

    def fn(x, y):
        calls.append((x, y))
        if bad["x"] is not None and x == bad["x"]:
            raise ValueError("told to fail at %r" % x)
        return x * 3.0 - y * y

    ds.register_function(name="userf", procedure=fn, nargs=2)
    ds.symdiff(expr="declare(userf(x,y))")
    for src, f in [("userf(a,b)", a * 3 - b * b), ("userf(a,2)", a * 3 - 4), ("userf(0.5,b) + exp(a)*userf(b,a)", 1.5 - b * b + np.exp(a) * (b * 3 - a * a)), ("userf(1.0,2.0)*a", -a)]:
        for nt, task in [(1, 0)] + schedules(ctx.rng, n)[:2]:
            threads(nt, task)
            sp.define("f", src)
            ctx.close(sp.get("f"), f, "py:value", src, rtol=1e-13, scale=1.0)
            ctx.count("python_functions")
    for k in range(3):
        i = int(rs.randint(n))
        bad["x"] = float(a[i])
        for nt, task in [(1, 0), (4, 1)]:
            threads(nt, task)
            sp.define("f", "exp(b)*userf(a,b)")
            calls.clear()
            m = fails(sp, "f")
            ctx.count("python_errors")
            ctx.check(m is not None and "told to fail" in m, "py:error", "an exception of a registered function at %d of %d was reported as %r" % (i, n, m))
            bad_, bad["x"] = bad["x"], None
            ctx.check(fails(sp, "f") is None, "py:recover", "model fails after its function stopped raising")
            sp.define("g", "a+b")
            ctx.close(sp.get("g"), a + b, "py:leftover", "a+b", rtol=1e-15)
            bad["x"] = bad_
        bad["x"] = None
    for ret in ("text", None, [1.0], float("nan")):
        ds.register_function(name="userg", procedure=lambda x: ret, nargs=1)
        ds.symdiff(expr="declare(userg(x))")
        sp.define("f", "userg(a)")
        m = fails(sp, "f")
        if ret is not None and isinstance(ret, float):
            continue
        ctx.check(m is not None, "py:type", "registered function returning %r gives a value" % (ret,))
    ctx.distinct(kind, n, "py")


def case_undefined(ctx, rs, case):
    """a declared function that nothing computes must not evaluate to a number"""
    kind = ["node", "edge"][int(rs.choice([0, 1]))]
    sp, dim = build(ctx, rs, kind)
    n = len(ctx_len(sp))
    store(sp, "a", rs.rand(n))
    ds.set_parameter(name="par", value=2.0)
    nm = "nosuch%d" % case["k"]
    ds.symdiff(expr="declare(%s(x))" % nm)
    for src in (nm + "(a)", nm + "(2.5)", "a+" + nm + "(par)", nm + "(par)*3", "exp(" + nm + "(a))"):
        for nt in (1, 3):
            threads(nt, 0)
            sp.define("f", src)
            m = fails(sp, "f")
            ctx.count("undefined")
            ctx.check(m is not None, "undefined:" + ("scalar" if "(2.5)" in src or "(par)" in src else "vector"), lambda: "%s, whose function is declared but not registered, has the value %r" % (src, sp.get("f")[0]))
    ctx.distinct(kind, "undefined")


def case_sequence(ctx, rs, case):
    """good and failing models mixed at random, the thread setting changing between them; each behaves as it does alone"""
    kind = ["node", "edge"][int(rs.choice([0, 1]))]
    sp, dim = build(ctx, rs, kind)
    n = len(ctx_len(sp))
    env = {k: rs.uniform(0.2, 1.4, n) for k in ("a", "b", "c")}
    for k, v in env.items():
        store(sp, k, v)
    bad = np.array(env["a"])
    bad[int(rs.randint(n))] = 1e200
    store(sp, "huge", bad)
    denv = {k: X.var(k, v) for k, v in env.items()}
    for step in range(12):
        threads(int(rs.choice([1, 2, 3, 5])), int(rs.choice([0, 1, 10, 1000])))
        if rs.rand() < 0.4:
            src = str(rs.choice(["huge*huge", "exp(huge)", "a + huge*huge*exp(b)", "huge*(huge+b)*exp(c)*a", "log(-huge)", "ifelse(a>0, huge*huge, b)", "exp(b)*huge*huge*exp(a)"]))
            sp.define("m", src)
            ctx.check(fails(sp, "m") is not None, "seq:lost:" + src, lambda: "%s evaluates without an error" % src)
        else:
            t, w = X.pick(ctx.rng, ["a", "b", "c"], denv, 3, smooth=False, need=["a", "b", "c"])
            src = X.text(t, ctx.rng)
            sp.define("m", src)
            try:
                got = sp.get("m")
                ctx.check(np.all(np.abs(got - w.v) <= X.tol(w.e + np.abs(w.v))), "seq:value", "%s wrong within a sequence" % src)
            except ds.error as e:
                ctx.violation("seq:spurious", "%s fails within a sequence: %s" % (src, str(e)[:400]))
        ctx.count("sequence_steps")
    ctx.distinct(kind, n, "sequence")


def case_special(ctx, rs, case):
    """functions with two to four arguments, every combination of uniform and varying operands"""
    kind = ["node", "edge", "element"][int(rs.choice([0, 1, 2]))]
    sp, dim = build(ctx, rs, kind)
    n = len(ctx_len(sp))
    combos = [(f, k) for f, k in (("pow", 2), ("min", 2), ("max", 2), ("<", 2), ("ifelse", 3), ("kahan3", 3), ("kahan4", 4), ("dot2d", 4), ("&&", 2))]
    for j, (f, k) in enumerate(combos):
        mask = [bool(rs.rand() < 0.5) for _ in range(k)]
        names = ["s%d_%d" % (i, j) for i in range(k)]
        env = inputs(ctx, rs, sp, names, {nm: ("vary" if mk else str(rs.choice(["uniform", "param", "uniform01"]))) for nm, mk in zip(names, mask)})
        if f == "pow":
            t = ("pow", ("+", ("n", 0.1), ("f", "abs", ("v", names[0]))), ("v", names[1]))
        else:
            t = ("f", f) + tuple(("v", x) for x in names)
        denv = {x: X.var(x, env[x]) for x in names}
        evaluate_all(ctx, sp, t, "vec:fn:" + f, X.evaluate(t, denv), rs, schedules(ctx.rng, n)[:2])
        ctx.distinct(kind, f, tuple(mask))


def case_reduce(ctx, rs, case):
    kind = ["node", "edge", "element"][int(rs.choice([0, 1, 2]))]
    sp, dim = build(ctx, rs, kind)
    n = len(ctx_len(sp))
    v = rs.uniform(-2, 2, n)
    store(sp, "v", v)
    ds.set_parameter(name="uu", value=1.25)
    sp.define("u", "uu")
    for nt, task in [(1, 0)] + schedules(ctx.rng, n)[:2]:
        threads(nt, task)
        for src, w in [("vec_sum(v)", v.sum()), ("vec_max(v)", v.max()), ("vec_min(v)", v.min()), ("v - vec_max(v)", v - v.max()), ("vec_sum(exp(v))*v", np.exp(v).sum() * v), ("vec_sum(u)", 1.25 * n),
                       ("vec_max(u)+v", 1.25 + v), ("vec_min(-v)", -v.max()), ("exp(v-vec_max(v))/vec_sum(exp(v-vec_max(v)))", np.exp(v - v.max()) / np.exp(v - v.max()).sum())]:
            sp.define("f", src)
            ctx.close(sp.get("f"), np.broadcast_to(w, (n,)), "reduce:" + src, "%s (%d threads)" % (src, nt), rtol=1e-13 * max(n, 10), scale=1.0)
            ctx.count("reductions")
    ctx.distinct(kind, n, "reduce")
