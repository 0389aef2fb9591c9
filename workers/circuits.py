"""C13: netlists against modified nodal analysis, over histories of additions, aliases, alterations, solves and deletions."""
import numpy as np
import devsim as ds
from vlib import sim
from vlib.worker import Skip
from workers import transient

PLAN = ["history", "history", "solve", "device", "history", "damped", "fail", "steps", "smallsignal", "device"]
GROUND = ("0", "GND")
VT = 0.0259


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


class Net:
    def __init__(self):
        self.clear()

    def clear(self):
        self.nodes, self.alias, self.elements = {}, {}, {}
        self.ground, self.locked, self.solutions, self.resistors = False, False, set(), []

    def real(self, name):
        """name of the node, None for ground"""
        name = self.alias.get(name, name)
        return None if name in GROUND else name

    def exists(self, name):
        name = self.alias.get(name, name)
        return name in self.nodes or (self.ground and name in GROUND)

    def add(self, name, update="default", value=0.0):
        self.ground = True
        if not self.exists(name):
            self.nodes[name] = (update, value)

    def order(self):
        return sorted(self.nodes)

    def assemble(self, x):
        """F, J, Q, C and the size of the terms of F and Q"""
        o = self.order()
        ix = {k: i for i, k in enumerate(o)}
        n = len(o)
        F, J, Q, C, M, MQ = np.zeros(n), np.zeros((n, n)), np.zeros(n), np.zeros((n, n)), np.zeros(n), np.zeros(n)
        at = lambda k: None if self.real(k) is None else ix[self.real(k)]

        def put(R, D, S, row, val, der, mag):
            if row is None:
                return
            R[row] += val
            S[row] += mag
            for c, d in der:
                if c is not None:
                    D[row, c] += d
        v = lambda i: 0.0 if i is None else x[i]
        for name, (t, n1, n2, p) in self.elements.items():
            a, b = at(n1), at(n2)
            if t == "R":
                with np.errstate(all="ignore"):
                    g = np.float64(1.0) / p["R"]
                    i = (v(a) - v(b)) * g
                m = (abs(v(a)) + abs(v(b))) * abs(g)
                put(F, J, M, a, i, [(a, g), (b, -g)], m)
                put(F, J, M, b, -i, [(a, -g), (b, g)], m)
            elif t == "C":
                c = p["C"]
                q, m = (v(a) - v(b)) * c, (abs(v(a)) + abs(v(b))) * abs(c)
                put(Q, C, MQ, a, q, [(a, c), (b, -c)], m)
                put(Q, C, MQ, b, -q, [(a, -c), (b, c)], m)
            elif t == "I":
                # the current is delivered to the first node
                put(F, J, M, a, -p["I"], [], abs(p["I"]))
                put(F, J, M, b, p["I"], [], abs(p["I"]))
            else:
                k = ix[name + ".I"]
                put(F, J, M, a, x[k], [(k, 1.0)], abs(x[k]))
                put(F, J, M, b, -x[k], [(k, -1.0)], abs(x[k]))
                if t == "V":
                    put(F, J, M, k, v(a) - v(b) - p["V"], [(a, 1.0), (b, -1.0)], abs(v(a)) + abs(v(b)) + abs(p["V"]))
                else:
                    put(F, J, M, k, v(b) - v(a), [(a, -1.0), (b, 1.0)], abs(v(a)) + abs(v(b)))
                    put(Q, C, MQ, k, p["L"] * x[k], [(k, p["L"])], abs(p["L"] * x[k]))
        for n1, n2, g in self.resistors:
            a, b = at(n1), at(n2)
            i, m = (v(a) - v(b)) * g, (abs(v(a)) + abs(v(b))) * g
            put(F, J, M, a, i, [(a, g), (b, -g)], m)
            put(F, J, M, b, -i, [(a, -g), (b, g)], m)
        return F, J, Q, C, M, MQ

    def rhs_ac(self):
        b = np.zeros(len(self.nodes), dtype=complex)
        for name, (t, _, _, p) in self.elements.items():
            if t == "V":
                b[self.order().index(name + ".I")] += complex(p.get("acreal", 0), p.get("acimag", 0))
        return b


def state(net, solution="dcop"):
    return np.array([ds.get_circuit_node_value(solution=solution, node=k) for k in net.order()])


def put(net, x):
    for k, v in zip(net.order(), x):
        ds.set_circuit_node_value(solution="dcop", node=k, value=float(v))


def attempt(f, **kw):
    try:
        return f(**kw), None
    except ds.error as e:
        return None, str(e)


def value(rng):
    return round(rng.choice([1, 1, 1, 10.0 ** rng.randint(-3, 3)]) * rng.uniform(0.2, 2.0), 5)


def pick(rng, net, new=0.3):
    r = rng.random()
    names = list(net.nodes) + list(net.alias)
    if r < new or not names:
        return rng.choice(["n%d" % rng.randint(0, 9), "node_%s" % rng.choice("abcXYZ"), "1%d" % rng.randint(0, 5)])
    if r < new + 0.2:
        return rng.choice(GROUND)
    return rng.choice(names)


def element(ctx, net, n1=None, n2=None, kind=None, name=None):
    rng = ctx.rng
    t = kind or rng.choice("RRRCLVI")
    name = name or (t if rng.random() < 0.7 else t.lower()) + rng.choice(["", "_x", "1", "22"]) + str(len(net.elements))
    if kind is None and net.elements and rng.random() < 0.1:
        name = rng.choice(sorted(net.elements))
    bad = None
    if kind is None and rng.random() < 0.05:
        name, bad = rng.choice("XQ1z_") + name, True
    t = name[0].upper()
    n1, n2 = n1 or pick(rng, net), n2 or pick(rng, net)
    p, kw = {}, {}
    if rng.random() < 0.95:
        kw["value"] = value(rng) * (-1 if t in "VI" and rng.random() < 0.4 else 1)
    ac = (t == "V" and rng.random() < 0.5) or (kind is None and rng.random() < 0.05)
    if ac:
        kw["acreal"] = p["acreal"] = value(rng)
        if rng.random() < 0.5:
            kw["acimag"] = p["acimag"] = -value(rng)
    p[t] = kw.get("value", 0.0)
    _, err = attempt(ds.circuit_element, name=name, n1=n1, n2=n2, **kw)
    wrong = bad or name in net.elements or (ac and t != "V")
    fresh = [n for n in ([n1, n2] + ([name + ".I"] if t in "VL" else [])) if not net.exists(n) and n not in GROUND]
    if wrong:
        ctx.check(err is not None, "invalid_element", "circuit_element %s (%s): no error" % (name, kw))
        ctx.count("invalid_element")
        return None
    if net.locked:
        ctx.check(err is not None or not fresh, "locked_element", "circuit_element %s with new nodes after an analysis: no error" % name)
        ctx.count("locked_element")
        if err is not None:
            return None
    elif not ctx.check(err is None, "element_error", "circuit_element %s: unexpected error %s" % (name, err)):
        raise Skip()
    net.add(n1)
    net.add(n2)
    net.elements[name] = (t, n1, n2, p)
    if t in "VL":
        net.add(name + ".I")
    ctx.count("element_" + t)
    if n1 in net.alias or n2 in net.alias:
        ctx.count("element_alias")
    return name


def add_node(ctx, net, name=None, update=None, val=None):
    rng = ctx.rng
    name = name or pick(rng, net, 0.7)
    kw = {}
    up = update or rng.choice(["default", "default", "log_damp", "positive", "bad"])
    if up != "default" or rng.random() < 0.5:
        kw["variable_update"] = up
    if val is None and rng.random() < 0.7:
        val = rng.choice([0.0, 1.0, -0.5, value(rng)])
    if val is not None:
        kw["value"] = val
    _, err = attempt(ds.add_circuit_node, name=name, **kw)
    # the ground node comes with the command
    wrong = up == "bad" or (up == "positive" and kw.get("value", 0.0) <= 0)
    if not wrong:
        net.ground = True
    wrong = wrong or net.exists(name)
    if wrong or net.locked:
        ctx.check(err is not None, "invalid_node", "add_circuit_node %s %s: no error" % (name, kw))
        ctx.count("invalid_node")
        return
    if not ctx.check(err is None, "node_error", "add_circuit_node %s %s: %s" % (name, kw, err)):
        raise Skip()
    net.add(name, up, kw.get("value", 0.0))
    ctx.count("node_" + up)


def alias(ctx, net, node=None, name=None):
    rng = ctx.rng
    node, name = node or pick(rng, net, 0.1), name or rng.choice(["al%d" % rng.randint(0, 5), pick(rng, net, 0.2)])
    _, err = attempt(ds.circuit_node_alias, node=node, alias=name)
    net.ground = True
    if not net.exists(node) or node in net.alias or net.exists(name):
        if node in net.alias and not net.exists(name) and err is None:
            net.alias[name] = net.alias[node]
            return
        ctx.check(err is not None, "invalid_alias", "alias %s of %s: no error" % (name, node))
        ctx.count("invalid_alias")
        return
    if ctx.check(err is None, "alias_error", "alias %s of %s: %s" % (name, node, err)):
        net.alias[name] = node
        ctx.count("alias")


def alter(ctx, net):
    rng = ctx.rng
    name = rng.choice(sorted(net.elements)) if net.elements and rng.random() < 0.9 else "R_none"
    t = net.elements[name][0] if name in net.elements else "R"
    par = rng.choice(["value", "value", None, t, t, rng.choice(["acreal", "acimag"]), rng.choice(["R", "C", "L", "V", "I", "x", "r"])])
    v = value(rng) * (-1 if t in "VI" and rng.random() < 0.4 else 1)
    kw = {} if par is None else {"param": par}
    _, err = attempt(ds.circuit_alter, name=name, value=v, **kw)
    key = t if par in (None, "value") else par
    ok = name in net.elements and (key == t or (t == "V" and key in ("acreal", "acimag")))
    if ok:
        if ctx.check(err is None, "alter_error", "circuit_alter %s %s: %s" % (name, par, err)):
            net.elements[name][3][key] = v
            ctx.count("alter_" + (key if key.startswith("ac") else "value"))
    else:
        ctx.check(err is not None, "invalid_alter", "circuit_alter %s %s: no error" % (name, par))
        ctx.count("invalid_alter")


def lists(ctx, net):
    got = list(ds.get_circuit_node_list())
    net.ground = True
    ctx.check(got == net.order(), "node_list", "get_circuit_node_list %r, expected %r" % (got, net.order()))
    got = sorted(k for k in ds.get_circuit_solution_list() if not k.endswith("_prev"))
    ctx.check(got == sorted(net.solutions), "solution_list", "get_circuit_solution_list %r, expected %r" % (got, sorted(net.solutions)))
    for bad in ("nonesuch", ""):
        for f, kw in ((ds.get_circuit_node_value, {}), (ds.set_circuit_node_value, {"value": 1.0}), (ds.get_circuit_equation_number, {})):
            _, err = attempt(f, node=bad, **kw)
            ctx.check(err is not None, "unknown_node", "%s of node %r: no error" % (f.__name__, bad))
    _, err = attempt(ds.get_circuit_node_value, node=ctx.rng.choice(net.order() or ["0"]), solution="nonesuch")
    ctx.check(err is not None, "unknown_solution", "value of solution nonesuch: no error")
    if net.solutions:
        for a in net.alias:
            v = ds.get_circuit_node_value(solution="dcop", node=a)
            r = net.real(a)
            ctx.check(v == (0.0 if r is None else ds.get_circuit_node_value(solution="dcop", node=r)), "alias_value", "value of alias %s" % a)
        for g in GROUND:
            ctx.check(ds.get_circuit_node_value(solution="dcop", node=g) == 0.0, "ground_value", "value of ground")
    ctx.count("listings")


def numbers(ctx, net):
    got = [ds.get_circuit_equation_number(node=k) for k in net.order()]
    ctx.check(got == list(range(got[0], got[0] + len(got))) if got else True, "numbers", "equation numbers %r" % got)
    for a in net.alias:
        r = net.real(a)
        ctx.check(ds.get_circuit_equation_number(node=a) == (-1 if r is None else got[net.order().index(r)]), "alias_number", "equation number of alias %s" % a)
    for g in GROUND:
        ctx.check(ds.get_circuit_equation_number(node=g) == -1, "ground_number", "equation number of ground")


def newton(net, x0, aerr, rerr, its, a0=0.0, const=None):
    """the iteration on the circuit: (converged, x, [(abs, rel)], certain)"""
    x, out, certain, last = x0.copy(), [], True, 0.0
    o = net.order()
    for k in range(its):
        F, J, Q, C, M, MQ = net.assemble(x)
        A = J + a0 * C
        R = F + (0 if const is None else a0 * Q + const)
        T = M + (0 if const is None else abs(a0) * MQ + np.abs(const))
        if not np.isfinite(A).all() or not np.isfinite(R).all():
            return False, x0, out, True
        d = np.abs(A).sum(axis=1)
        if not (d > 0).all() or not np.linalg.cond(A / d[:, None]) < 1e9:
            return None, x0, out, False
        dx = np.linalg.solve(A / d[:, None], -R / d)
        # what rounding does to the update
        err = lu_error(A, dx) + 1e-14 * (np.abs(np.linalg.inv(A)) @ T) + 1e-15 * np.abs(x) + last
        last = err
        ae = re = er = 0.0
        held = False
        for i, n in enumerate(o):
            u = dx[i]
            up = net.nodes[n][0]
            if up == "log_damp" and abs(u) > VT:
                u = np.sign(u) * VT * np.log(1 + abs(u) / VT)
            elif up == "positive":
                fits = lambda: not (x[i] > 0 and abs(x[i] + u) < 1e-9 * x[i])
                certain = certain and fits()
                while x[i] > 0 and x[i] + u <= 0:
                    u /= 2
                    certain = certain and fits()
                if u != dx[i]:
                    held = True
            x[i] += u
            ae += abs(u)
            re = max(re, abs(u) / (abs(x[i]) + 1e-10))
            er = max(er, err[i] / (abs(x[i]) + 1e-10))
        out.append((ae, re, err.sum(), er))
        if held and ae < 1e-9:
            # the solution of the netlist is not positive where the node has to be
            return None, x0, out, False
        if ae < aerr and re < rerr:
            return (True if certain else None), x, out, certain and not held
    return (False if certain else None), x, out, certain


def solve(ctx, net, typ="dc", hist=None, h=None, g=1.0, iterations=True, **lim):
    rng = ctx.rng
    kw = dict({"absolute_error": 1e-6, "relative_error": 1e-6, "maximum_iterations": rng.choice([20, 40])}, **lim)
    first = not net.solutions
    if net.solutions:
        x0 = state(net)
    else:
        # a new circuit starts from its initial values
        x0 = np.array([net.nodes[k][1] for k in net.order()])
    a0, const = 0.0, None
    if h is not None:
        a0, const, _ = transient.method(typ, h, g, hist)
        kw.update(tdelta=h, gamma=g, charge_error=1e30)
    info, err = attempt(ds.solve, type=typ, info=True, **kw)
    if not net.nodes:
        raise Skip()
    if err is not None and first and "dcop" not in ds.get_circuit_solution_list():
        ctx.violation("solve_error", "solve %s: %s" % (typ, err))
        raise Skip()
    net.locked = True
    net.solutions |= {"dcop"}
    ok, x, its, certain = newton(net, x0, kw["absolute_error"], kw["relative_error"], kw["maximum_iterations"], a0, const)
    x1 = state(net)
    if err is not None and any(e[3].get("R") == 0 for e in net.elements.values()):
        raise Skip()
    ctx.check(err is None, "solve_error", "solve %s: %s" % (typ, err))
    if err is not None:
        raise Skip()
    numbers(ctx, net)
    F, J, Q, C, M, MQ = net.assemble(x1)
    conv = info["converged"]
    if conv:
        R = F + (0 if const is None else a0 * Q + const)
        T = M + (0 if const is None else abs(a0) * MQ + np.abs(const))
        lim = 1e-9 * T + 10 * kw["absolute_error"] * (np.abs(J + a0 * C).sum(axis=1)) * 1e-3
        if certain:
            ctx.check((np.abs(R) <= lim).all(), "kirchhoff", "%s: balance %r at nodes %r" % (typ, R.tolist(), net.order()))
            ctx.count("balances", len(R))
    if ok is None:
        ctx.count("singular")
        if not conv:
            ctx.check(np.array_equal(x1, x0), "restored", "failed %s solve changed the circuit" % typ)
        return False
    # a verdict that rounding decides
    for ae, re, ea, er in its:
        for e, l, r in ((ae, kw["absolute_error"], ea), (re, kw["relative_error"], er)):
            if abs(e - l) < 1e-3 * l + r:
                ctx.count("rounding")
                raise Skip()
    ctx.check(conv == ok, "converged", "%s: converged %s, expected %s after %r" % (typ, conv, ok, its[-2:]))
    if not conv:
        ctx.check(np.array_equal(x1, x0), "restored", "failed %s solve changed the circuit" % typ)
        ctx.count("not_converged")
        return False
    sc = sum(i[2] for i in its)
    ctx.close(x1, x, "solution", "%s solution of %s" % (typ, sorted(net.elements)), rtol=1e-7, atol=sc)
    if iterations:
        got = info["iterations"]
        if ctx.check(len(got) == len(its), "iterations", "%s: %d iterations, expected %d" % (typ, len(got), len(its))):
            for k, (a, (ae, re, ea, er)) in enumerate(zip(got, its)):
                ctx.close(a["circuit"]["absolute_error"], ae, "absolute_error", "absolute error of the circuit at iteration %d" % k, rtol=1e-6, atol=sc)
                ctx.close(min(a["circuit"]["relative_error"], 1e3), min(re, 1e3), "relative_error", "relative error of the circuit at iteration %d" % k, rtol=1e-4, atol=1e-6 + 2 * er + re * er)
                ctx.count("iterations")
    ctx.count("solved_" + typ)
    ctx.distinct(typ, len(net.nodes), "".join(sorted(e[0] for e in net.elements.values())), tuple(sorted(u for u, _ in net.nodes.values())), len(net.alias))
    return True


def steps(ctx, net, n):
    rng = ctx.rng
    if not solve(ctx, net, "transient_dc"):
        return
    hist = transient.History()
    a = net.assemble(state(net))
    hist.begin(a[0], a[2])
    for k in range(n):
        for j in range(rng.randint(0, 2)):
            alter(ctx, net)
        typ, h, g = transient.step_args(rng, hist, 1.0)
        x0 = state(net)
        if solve(ctx, net, typ, hist, h, g):
            a = net.assemble(state(net))
            hist.step(a[0], a[2])
            ctx.count("steps")


def lu_error(M, x):
    """bound of the error of x found with a factorisation of M, or of its transpose, with partial pivoting"""
    a = np.abs(M)
    E = np.maximum(a.max(axis=1)[:, None], a.max(axis=0)[None, :]) * (len(a) > 0)
    return 1e-14 * (np.abs(np.linalg.inv(M)) @ (E @ np.abs(x)))


def small(ctx, net):
    rng = ctx.rng
    x0 = state(net)
    F, J, Q, C, _, _ = net.assemble(x0)
    f = rng.choice([0.0, 10.0 ** rng.uniform(-3, 3)])
    A = J + 2j * np.pi * f * C
    d = np.abs(A).sum(axis=1)
    if not (d > 0).all() or not np.isfinite(A).all() or not np.linalg.cond(A / d[:, None]) < 1e9:
        ctx.count("singular")
        return
    noise = rng.random() < 0.4
    out = rng.choice(net.order() + list(net.alias))
    if noise and net.real(out) is None:
        noise = False
    if noise:
        _, err = attempt(ds.solve, type="noise", frequency=f, output_node=out)
        b = np.zeros(len(x0), dtype=complex)
        b[net.order().index(net.real(out))] = 1
        w = np.linalg.solve((A / d[:, None]).T, b) / d
        M = A.T
        pre = "noise_" + out
    else:
        _, err = attempt(ds.solve, type="ac", frequency=f)
        w = np.linalg.solve(A / d[:, None], net.rhs_ac() / d)
        M = A
        pre = "ssac"
    if not ctx.check(err is None, "smallsignal_error", "%s solve: %s" % (pre, err)):
        return
    net.solutions |= {pre + "_real", pre + "_imag"}
    g = state(net, pre + "_real") + 1j * state(net, pre + "_imag")
    tol = 1e-10 * max(np.abs(w).max(), 1e-300) + np.repeat(lu_error(M, w), 2)
    ctx.close(g, w, "smallsignal", "%s at %r" % (pre, f), rtol=1e-8, atol=tol)
    ctx.check(np.array_equal(state(net), x0), "operating_point", "%s changed the operating point" % pre)
    ctx.count("noise" if noise else "ac")


def build(ctx, net, n):
    """a netlist in which every node has a way to ground"""
    rng = ctx.rng
    for i in range(n):
        if rng.random() < 0.2:
            add_node(ctx, net, "n%d" % i, "default")
        prev = sorted(k for k in net.nodes if not k.endswith(".I"))
        to = rng.choice(prev + ["0"]) if prev else rng.choice(GROUND)
        if to == "n%d" % i:
            to = "0"
        element(ctx, net, "n%d" % i, to, "R")
        if rng.random() < 0.4:
            alias(ctx, net, "n%d" % i, "al%d" % i)
    names = sorted(net.alias) + sorted(k for k in net.nodes if not k.endswith(".I"))
    for i in range(rng.randint(1, 6)):
        element(ctx, net, rng.choice(names), rng.choice(names + list(GROUND)), rng.choice("RCCLVVI"))


def history(ctx, net, n):
    rng = ctx.rng
    for k in range(n):
        op = rng.choice(["element"] * 5 + ["node", "alias", "alter", "alter", "list", "solve", "set"] + (["delete"] if rng.random() < 0.4 else []))
        if op == "element":
            element(ctx, net)
        elif op == "node":
            add_node(ctx, net)
        elif op == "alias":
            alias(ctx, net)
        elif op == "alter":
            alter(ctx, net)
        elif op == "list":
            lists(ctx, net)
        elif op == "set":
            node = pick(rng, net, 0.05)
            v = rng.uniform(-1, 1)
            _, err = attempt(ds.set_circuit_node_value, node=node, value=v)
            net.ground = True
            ok = net.exists(node) and "dcop" in net.solutions
            ctx.check((err is None) == ok, "set_value", "set_circuit_node_value of %s: %s" % (node, err))
            if ok:
                r = net.real(node)
                ctx.check(ds.get_circuit_node_value(node=node) == (v if r else 0.0), "set_value", "value set at %s is not read" % node)
                if r:
                    ctx.check(ds.get_circuit_node_value(node=r) == v, "set_value", "value set at %s is not read at %s" % (node, r))
                ctx.count("set_value")
        elif op == "solve":
            if net.nodes:
                solve(ctx, net)
        elif op == "delete":
            ds.delete_circuit()
            net.clear()
            ctx.count("deleted")
            lists(ctx, net)
    lists(ctx, net)
    if net.nodes:
        solve(ctx, net)


def device(ctx, net, rs):
    """a device between two nodes, named by an alias or not, is a resistor"""
    rng = ctx.rng
    n = rng.randint(4, 9)
    sim.line_device("d", n)
    reg = ds.get_region_list(device="d")[0]
    kw = {"device": "d", "region": reg}
    x = ds.get_node_model_values(name="x", **kw)
    g = value(rng)
    ds.node_solution(name="V", **kw)
    ds.edge_from_node_model(node_model="V", **kw)
    flux = "%r*(V@n0-V@n1)*EdgeInverseLength" % g
    ds.edge_model(name="flux", equation=flux, **kw)
    for k in (0, 1):
        ds.edge_model(name="flux:V@n%d" % k, equation="%r*(%d)*EdgeInverseLength" % (g, 1 - 2 * k), **kw)
    ds.equation(name="eq", variable_name="V", edge_model="flux", **kw)
    contacts = sorted(ds.get_contact_list(device="d"))
    if rng.random() < 0.3:
        # asking for the nodes of no circuit does not make one
        lists(ctx, net)
        ctx.count("asked_early")
    names = {}
    build(ctx, net, rng.randint(2, 3))
    real = sorted(k for k in net.nodes if not k.endswith(".I"))
    for c in contacts:
        names[c] = rng.choice(real + sorted(net.alias) + ["0"])
        nm = names[c]
        ds.contact_node_model(device="d", contact=c, name="bc_" + c, equation="V-%s" % nm)
        ds.contact_node_model(device="d", contact=c, name="bc_%s:V" % c, equation="1")
        ds.contact_node_model(device="d", contact=c, name="bc_%s:%s" % (c, nm), equation="-1")
        ds.contact_equation(device="d", contact=c, name="eq", node_model="bc_" + c, edge_current_model="flux", circuit_node=nm)
    L = max(x) - min(x)
    net.resistors = [(names[contacts[0]], names[contacts[1]], g / L)]
    ask = sorted(net.nodes) + sorted(net.alias)
    for k in ask:
        if not k.endswith(".I"):
            ds.node_model(name="is_" + k, equation="%s*2+x" % k, **kw)

    def follow(what):
        for k in ask:
            if not k.endswith(".I"):
                v = ds.get_circuit_node_value(node=k)
                ctx.close(np.array(ds.get_node_model_values(name="is_" + k, **kw)), 2 * v + np.array(x), "follow", "%s: a model of node %s" % (what, k), rtol=1e-14, atol=1e-14)
                ctx.count("followed")
    for k in range(3):
        ok = solve(ctx, net, iterations=False, maximum_iterations=30, absolute_error=1e-8, relative_error=1e-8)
        follow("after a solve")
        if ok:
            i = [ds.get_contact_current(device="d", contact=c, equation="eq") for c in contacts]
            v = [0.0 if net.real(names[c]) is None else ds.get_circuit_node_value(node=names[c]) for c in contacts]
            w = (v[0] - v[1]) * g / L
            ctx.close(np.array(i), np.array([w, -w]), "terminal", "terminal currents of the device as a resistor", rtol=1e-7, atol=1e-9 * (abs(v[0]) + abs(v[1]) + 1) * g / L)
            ctx.count("device_solves")
        for j in range(rng.randint(1, 3)):
            alter(ctx, net)
        k = rng.choice(ask)
        ds.set_circuit_node_value(node=k, value=rng.uniform(-1, 1))
        follow("after setting node %s" % k)
        if rng.random() < 0.3:
            small(ctx, net) if len(net.nodes) == 0 else None
    if rng.random() < 0.5:
        ds.delete_circuit()
        net.clear()
        for k in ask:
            if not k.endswith(".I"):
                _, err = attempt(ds.get_node_model_values, name="is_" + k, **kw)
                ctx.check(err is not None, "deleted", "a model of node %s still has a value after the circuit was deleted" % k)
        ctx.count("deleted_models")


def run_case(ctx, case):
    sim.reset()
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    net = Net()
    if what == "history":
        history(ctx, net, rng.randint(5, 40))
    elif what == "solve":
        build(ctx, net, rng.randint(1, 6))
        for k in range(3):
            solve(ctx, net)
            for j in range(rng.randint(1, 4)):
                alter(ctx, net)
            if rng.random() < 0.3:
                put(net, rs.uniform(-1, 1, len(net.nodes)))
        lists(ctx, net)
    elif what == "damped":
        for i in range(rng.randint(1, 4)):
            up = rng.choice(["log_damp", "positive", "default"])
            add_node(ctx, net, "n%d" % i, up, value(rng) if up == "positive" or rng.random() < 0.5 else 0.0)
        build(ctx, net, len(net.nodes) or 1)
        for k in range(3):
            solve(ctx, net, maximum_iterations=rng.choice([3, 20, 200]))
            for j in range(rng.randint(1, 3)):
                alter(ctx, net)
            if rng.random() < 0.4:
                put(net, rs.uniform(-1, 1, len(net.nodes)))
        ctx.count("damped")
    elif what == "fail":
        build(ctx, net, rng.randint(1, 4))
        solve(ctx, net)
        names = [k for k, e in net.elements.items() if e[0] == "R" and (net.real(e[1]) or net.real(e[2]))]
        k = rng.choice(names)
        keep = net.elements[k][3]["R"]
        for v in (0.0, float("nan"), 1e-320):
            ds.circuit_alter(name=k, value=v)
            net.elements[k][3]["R"] = v
            x0 = state(net)
            info, err = attempt(ds.solve, type="dc", absolute_error=1e-6, relative_error=1e-6, maximum_iterations=5, info=True)
            ctx.check(err is not None or not info["converged"], "impossible", "converged with %s of %r Ohm" % (k, v))
            ctx.check(np.array_equal(state(net), x0), "restored", "failed solve changed the circuit")
            ctx.count("impossible")
        ds.circuit_alter(name=k, value=keep)
        net.elements[k][3]["R"] = keep
        solve(ctx, net)
    elif what == "steps":
        build(ctx, net, rng.randint(1, 5))
        steps(ctx, net, 5)
    elif what == "smallsignal":
        build(ctx, net, rng.randint(1, 5))
        solve(ctx, net)
        for k in range(4):
            small(ctx, net)
            alter(ctx, net)
        lists(ctx, net)
    else:
        device(ctx, net, rs)
