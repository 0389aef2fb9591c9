"""C11: every transient step against the difference equation of its method, over histories of steps, rejections and faults."""
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.hold import PySolver
from vlib.solvable import Solvable
from vlib.worker import Skip
from workers import newton, terminals

PLAN = ["steps", "reject", "circuit", "steps", "order", "constant", "reject", "precision", "initial", "steps", "missing"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


class History:
    """F and Q at the steps accepted, the last one first"""

    def __init__(self):
        self.h = []

    def begin(self, f, q):
        self.h = [(f, q)]

    def step(self, f, q):
        self.h = [(f, q)] + self.h[:2]


def method(typ, h, g, hist):
    """(a0, constant part of the residual, step of the projection): textbook formulas for d Q(x)/dt + F(x) = 0"""
    if typ == "transient_bdf1":
        (f, q), = hist.h[:1]
        return 1 / (g * h), -q / (g * h), g * h
    if typ == "transient_tr":
        (f, q), = hist.h[:1]
        return 2 / (g * h), -2 * q / (g * h) + f, g * h
    # two steps of g h and (1 - g) h, the derivative at the end of the parabola through three points
    (_, q1), (_, q2) = hist.h[:2]
    h1, h2 = g * h, (1 - g) * h
    w = h2 / h1
    return (1 + 2 * w) / (1 + w) / h2, (-(1 + w) * q1 + w * w / (1 + w) * q2) / h2, h2


def vectors(s, x):
    acc = s.assemble_at(x)[0]
    return acc["static"].R, acc["dynamic"].R


def charge_error(s, x, hist, td, noise):
    """and a bound of its rounding error"""
    f, q = hist.h[0]
    acc = s.assemble_at(x)[0]
    q1 = acc["dynamic"].R
    p = q - td * f
    dq = 20 * X.EPS * (td * acc["static"].RE + 2 * acc["dynamic"].RE) + np.abs(acc["dynamic"].J).sum(axis=1) * noise
    with np.errstate(all="ignore"):
        z = 1e-20 + np.abs(q1) + np.abs(p)
        return np.where(q1 != 0, np.abs(q1 - p) / z, 0.0), np.where(q1 != 0, 2 * dq / z, 0.0)


def solve(typ, **kw):
    try:
        return ds.solve(type=typ, **kw), None
    except ds.error as e:
        return None, str(e)


def charges(s):
    out = []
    for d in s.devs.values():
        for c, t in d.contacts.items():
            for eq in t["eqs"]:
                out += [ds.get_contact_current(device=d.name, contact=c, equation=eq), ds.get_contact_charge(device=d.name, contact=c, equation=eq)]
    return out


def one(ctx, s, hist, typ, h=None, g=None, charge=1e30, bad=None, **kw):
    """a solve of the simulator from its present state, against the difference equation. True when the step was accepted"""
    kw = dict({"absolute_error": 1e-7, "relative_error": 1e-6, "maximum_iterations": 40}, **kw)
    x0, c0 = s.state(), charges(s)
    a0, const, td = (0.0, None, 0.0) if h is None else method(typ, h, g, hist)
    if h is not None:
        kw.update(tdelta=h, charge_error=charge)
        if g != 1.0 or ctx.rng.random() < 0.5:
            kw["gamma"] = g
    want = s.newton(x0, kw["absolute_error"], kw["relative_error"], kw.get("maximum_error", 1e300), kw["maximum_iterations"], a0=a0, const=const)
    if want["certain"] and len(want["iterations"]) > 5 and newton.chaotic(s, x0, kw, want, a0=a0, const=const):
        want["certain"] = False
    info, err = solve(typ, info=True, **kw)
    x1 = s.state()
    ctx.count(typ)
    if not want["certain"] or want["reason"] == "nan" or not np.isfinite(want["x"]).all() or np.abs(want["x"]).max() > 1e6:
        ctx.count("uncertain")
        raise Skip()
    ctx.check(err is None, "error", "unexpected error %s" % err)
    if err is not None:
        raise Skip()
    ok = want["converged"]
    if h is not None and ok:
        ctx.check("charge_error" in info, "no_charge_error", "%s: no charge error" % typ)
        noise = sum(w["noise"] for w in want["iterations"]) * 10 + 1e-12
        e, bound = charge_error(s, want["x"], hist, td, noise + 1e-12)
        near = np.abs(vectors(s, want["x"])[1]) > 1e-7
        m = float(e.max()) if len(e) else 0.0
        # an entry near zero has an error that rounding decides
        if near.any() and e[near].max() >= m - 1e-9:
            ctx.count("charge_errors")
            ctx.close(info["charge_error"], m, "charge_error", "charge error of a step", rtol=1e-4, atol=1e-9 + 100 * noise + bound[near].max())
        got = info.get("charge_error", 0.0)
        if abs(got - charge) < 1e-9 * charge:
            raise Skip()
        if got > charge:
            ok = False
            ctx.count("charge_rejected")
    its = len(info["iterations"])
    ctx.check(info["converged"] == ok, "converged", "%s: converged is %s, expected %s after %d iterations (%s)" % (typ, info["converged"], ok, its, kw))
    ctx.check(its == len(want["iterations"]), "iterations", "%s: %d iterations, expected %d (%s)" % (typ, its, len(want["iterations"]), kw))
    for k, (a, b) in enumerate(zip(info["iterations"], want["iterations"])):
        newton.errors(ctx, a, b, k, 1e-6)
    if not info["converged"]:
        ctx.count("rejected")
        ctx.check(np.array_equal(x1, x0), "restore", "%s rejected, and the solution is not that of before it" % typ)
        ctx.check(charges(s) == c0, "restore_terminals", "%s rejected, and contact currents or charges are not those of before it" % typ)
        return False
    noise = sum(w["noise"] for w in want["iterations"])
    ctx.close(x1, want["x"], "solution", "solution of a %s step after %d steps" % (typ, len(hist.h)), rtol=1e-7, atol=1e-9 * max(1, np.abs(want["x"]).max()) + noise)
    ctx.count("accepted")
    f, q = vectors(s, x1)
    if h is not None:
        ctx.distinct(typ, len(hist.h), round(float(np.log2(h)), 1), round(g, 2), s.n)
        # what the difference equation leaves at the solution, against the size of its terms
        terms = np.abs(a0 * q) + np.abs(f) + np.abs(const)
        res = a0 * q + f + const
        J = s.assemble_at(x1)[0]
        J = J["static"].J + a0 * J["dynamic"].J
        lim = 1e-5 * np.abs(J).sum(axis=1) + 1e-9 * terms
        ctx.check((np.abs(res) <= lim).all(), "residual", "%s: residual %r" % (typ, np.abs(res).max()))
        hist.step(f, q)
    elif typ == "transient_dc":
        hist.begin(f, q)
    terminals.compare(ctx, s, "after " + typ)
    return True


def build(ctx, rs, what):
    rng = ctx.rng
    lin = what in ("order", "constant") and rng.random() < 0.5 or what == "order"
    s = Solvable(ctx, rs, complete=rng.random() < 0.5, circuit=what == "circuit" or rng.random() < 0.3, ndev=2 if what == "steps" and rng.random() < 0.2 else 1, updates=("default",), tie=0.7, nonlinear=not lin)
    s.add_equations()
    newton.number(s)
    return s


def drive(ctx, s, rs):
    """a change of what drives the problem"""
    for d in s.devs.values():
        for c in d.contacts:
            if rs.rand() < 0.5:
                v = s.r(-1, 1)
                s.pars[d.name]["b_" + c] = v
                ds.set_parameter(device=d.name, name="b_" + c, value=v)
    for k, (name, a, b, v) in enumerate(s.elements):
        if name[0] in "VI" and rs.rand() < 0.5:
            v = s.r(-1.5, 1.5)
            ds.circuit_alter(name=name, value=v)
            s.elements[k] = (name, a, b, v)
    ctx.count("driven")


def step_args(rng, hist, s0):
    typ = rng.choice(["transient_bdf1", "transient_tr", "transient_bdf2"] if len(hist.h) > 1 else ["transient_bdf1", "transient_tr"])
    h = s0 * rng.choice([0.5, 1.0, 2.0, 3.7, 0.01])
    g = round(rng.uniform(0.2, 0.8), 3) if typ == "transient_bdf2" else rng.choice([1.0, 1.0, 0.5, round(rng.uniform(0.1, 1.5), 3)])
    return typ, h, g


def begin(ctx, s, rs):
    s.put(rs.uniform(-0.5, 0.5, s.n))
    hist = History()
    if not one(ctx, s, hist, "transient_dc"):
        ctx.count("no_start")
        raise Skip()
    return hist


def steps(ctx, s, rs, hist, n, reject=False):
    rng = ctx.rng
    s0 = 10.0 ** rng.uniform(-2, 1)
    done = 0
    for k in range(n):
        r = rng.random()
        if r < 0.4:
            drive(ctx, s, rs)
        elif r < 0.5:
            # another start of the iteration does not change the step
            s.put(s.state() + rs.uniform(-0.1, 0.1, s.n))
            ctx.count("perturbed")
        elif r < 0.6:
            # nor does a steady solution in between
            one(ctx, s, hist, "dc")
            ctx.count("dc_between")
        typ, h, g = step_args(rng, hist, s0)
        if reject and rng.random() < 0.6:
            refuse(ctx, s, rs, hist, typ, h, g)
            if rng.random() < 0.5:
                typ, h, g = step_args(rng, hist, s0 / 4)
        done += one(ctx, s, hist, typ, h, g)
    return done


def refuse(ctx, s, rs, hist, typ, h, g):
    """a step that is not accepted"""
    rng = ctx.rng
    kind = rng.choice(["charge", "iterations", "maximum", "fault", "charge"])
    if kind == "charge":
        one(ctx, s, hist, typ, h, g, charge=rng.choice([0.0, 1e-6, 1e-3]))
    elif kind == "iterations":
        one(ctx, s, hist, typ, h, g, maximum_iterations=rng.choice([1, 2]), relative_error=1e-13, absolute_error=1e-13)
    elif kind == "maximum":
        one(ctx, s, hist, typ, h, g, maximum_error=1e-6)
    else:
        x0, c0 = s.state(), charges(s)
        at = rng.choice([1, 2, 3])

        def flt(act, count):
            if act == "solve" and count == at:
                raise RuntimeError("injected")
        with PySolver(update=lambda m, b: np.full(s.n, 0.01), fault=flt) as p:
            info, err = solve(typ, info=True, tdelta=h, gamma=g, charge_error=1e30, absolute_error=1e-14, relative_error=1e-14, maximum_iterations=10)
        ctx.check(err is not None, "fault_unseen", "a linear solver that raised, no error of the step")
        ctx.check(np.array_equal(s.state(), x0) and charges(s) == c0, "fault_restore", "the state after a step that failed is not that of before it")
        ctx.count("fault_steps")
    ctx.count("refuse_" + kind)


def expm(A):
    k = max(0, int(np.ceil(np.log2(max(np.abs(A).sum(axis=0).max(), 1e-30)))) + 5)
    B, T, out = A / 2.0 ** k, np.eye(len(A)), np.eye(len(A))
    for i in range(1, 16):
        T = T @ B / i
        out = out + T
    for _ in range(k):
        out = out @ out
    return out


def order(ctx, s, rs):
    """a linear circuit with an exact solution: the error falls with the order of the method"""
    rng = ctx.rng
    sim.reset()
    n = rng.randint(1, 3)
    C = [s.r(0.5, 2) for _ in range(n)]
    R = [s.r(0.5, 2) for _ in range(n)]
    G = np.zeros((n, n))
    ds.circuit_element(name="V1", n1="in", n2="0", value=1.0)
    for i in range(n):
        a = "in" if i == 0 else "k%d" % (i - 1)
        ds.circuit_element(name="R%d" % i, n1=a, n2="k%d" % i, value=R[i])
        ds.circuit_element(name="C%d" % i, n1="k%d" % i, n2="0", value=C[i])
        G[i, i] += 1 / R[i]
        if i:
            G[i - 1, i - 1] += 1 / R[i]
            G[i, i - 1] -= 1 / R[i]
            G[i - 1, i] -= 1 / R[i]
    A = -G / np.array(C)[:, None]
    T = 0.4
    u0 = np.array([s.r(-1, 1) for i in range(n)])
    kw = {"absolute_error": 1.0, "relative_error": 1e-9, "charge_error": 1e30, "maximum_iterations": 30}

    def put(u):
        ds.set_circuit_node_value(solution="dcop", node="in", value=0.0)
        for i in range(n):
            ds.set_circuit_node_value(solution="dcop", node="k%d" % i, value=float(u[i]))
        ds.set_circuit_node_value(solution="dcop", node="V1.I", value=float(u[0] / R[0]))
        m = ds.get_matrix_and_rhs()
        ds.set_initial_condition(static_rhs=m["static"]["rhs"], dynamic_rhs=m["dynamic"]["rhs"])
    ds.circuit_alter(name="V1", value=0.0)
    ds.solve(type="transient_dc", absolute_error=1e-10, relative_error=1e-10)
    for typ in ("transient_bdf1", "transient_tr", "trbdf", "transient_bdf2"):
        errs = []
        for m in (16, 32):
            h = T / m
            if typ == "transient_bdf2":
                put(expm(-A * h) @ u0)
            put(u0)
            for k in range(m):
                if typ == "trbdf":
                    g = 2 - np.sqrt(2.0)
                    ds.solve(type="transient_tr", tdelta=h, gamma=g, **kw)
                    ds.solve(type="transient_bdf2", tdelta=h, gamma=g, **kw)
                elif typ == "transient_bdf2":
                    # equal steps: half of a double step
                    ds.solve(type="transient_bdf2", tdelta=2 * h, gamma=0.5, **kw)
                else:
                    ds.solve(type=typ, tdelta=h, **kw)
            u = np.array([ds.get_circuit_node_value(node="k%d" % i) for i in range(n)])
            errs.append(float(np.abs(u - expm(A * T) @ u0).max()))
        if not errs[1] > 1e-9:
            continue
        p = np.log2(errs[0] / errs[1])
        ctx.count("order_" + typ)
        ctx.check(abs(p - (1 if typ == "transient_bdf1" else 2)) < 0.4, "order_" + typ, "errors %r with steps h and h/2: order %r" % (errs, p))


def extended(on):
    ds.set_parameter(name="extended_solver", value=on)


def run_case(ctx, case):
    sim.reset()
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    s = build(ctx, rs, what)
    if what == "order":
        order(ctx, s, rs)
        return
    if what == "missing":
        s.put(rs.uniform(-0.5, 0.5, s.n))
        x0 = s.state()
        kw = {"absolute_error": 1e-7, "relative_error": 1e-6, "tdelta": 0.1, "charge_error": 1e30}
        for typ in ("transient_bdf1", "transient_tr", "transient_bdf2"):
            g = 0.5 if typ == "transient_bdf2" else 1.0
            info, err = solve(typ, info=True, gamma=g, **kw)
            ctx.check(err is not None, "no_history", "%s without a first solution: no error" % typ)
            ctx.check(np.array_equal(s.state(), x0), "restore", "state changed by a step without a history")
            ctx.count("without_history")
        hist = begin(ctx, s, rs)
        x0 = s.state()
        info, err = solve("transient_bdf2", info=True, gamma=0.5, **kw)
        ctx.check(err is not None, "no_history2", "transient_bdf2 after one solution only: no error")
        ctx.check(np.array_equal(s.state(), x0), "restore", "state changed by a step without a history")
        for typ, h in (("transient_bdf1", 0.0), ("transient_tr", 0.0)):
            info, err = solve(typ, info=True, gamma=1.0, **dict(kw, tdelta=0.0))
            ctx.check(err is not None, "no_step", "%s with a step of zero: no error" % typ)
        one(ctx, s, hist, "transient_bdf1", 0.3, 1.0)
        one(ctx, s, hist, "transient_bdf2", 0.6, 0.5)
        # a new start forgets
        drive(ctx, s, rs)
        one(ctx, s, hist, "transient_dc")
        info, err = solve("transient_bdf2", info=True, gamma=0.5, **kw)
        ctx.check(err is not None, "no_history3", "transient_bdf2 after a new start: no error")
        one(ctx, s, hist, "transient_tr", 0.3, 1.0)
        return
    if what == "initial":
        # a start from vectors
        hist = History()
        s.put(rs.uniform(-0.5, 0.5, s.n))
        for k in range(rng.choice([1, 2, 3])):
            s.put(rs.uniform(-0.5, 0.5, s.n))
            f, q = vectors(s, s.state())
            if rng.random() < 0.5:
                m = ds.get_matrix_and_rhs()
                ds.set_initial_condition(static_rhs=m["static"]["rhs"], dynamic_rhs=m["dynamic"]["rhs"])
            else:
                ds.set_initial_condition(static_rhs=[float(-v) for v in f], dynamic_rhs=[float(-v) for v in q])
            hist.step(f, q)
            ctx.count("initial")
        steps(ctx, s, rs, hist, 4)
        return
    hist = begin(ctx, s, rs)
    if what == "constant":
        # steady stays steady
        x0 = s.state()
        for k in range(5):
            typ, h, g = step_args(rng, hist, 10.0 ** rng.uniform(-2, 3))
            if one(ctx, s, hist, typ, h, g):
                ctx.close(s.state(), x0, "constant", "a steady solution after %s" % typ, rtol=1e-5, atol=1e-5)
                ctx.count("constant")
        return
    if what == "precision":
        for k in range(4):
            if rng.random() < 0.6:
                on = rng.random() < 0.5
                extended(on)
                ctx.count("extended" if on else "double")
            steps(ctx, s, rs, hist, 2, reject=rng.random() < 0.3)
        extended(False)
        steps(ctx, s, rs, hist, 1)
        return
    steps(ctx, s, rs, hist, 6, reject=what == "reject")
    if rng.random() < 0.2:
        drive(ctx, s, rs)
        if one(ctx, s, hist, "transient_dc"):
            ctx.count("restarted")
            steps(ctx, s, rs, hist, 3)
