"""C09: solves against an independent Newton iteration, and against faults in models, callbacks, solvers and limits."""
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.hold import PySolver
from vlib.solvable import Solvable
from vlib.worker import Skip

PLAN = ["follow", "fault", "damped", "limits", "fault", "circuit", "limits", "two", "fault", "limits"]
FAULTS = ["custom", "function", "raise", "status", "size", "keys", "nan", "inf", "type", "log", "singular", "huge"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


def run_solve(**kw):
    """(info, error message) of a solve"""
    try:
        return ds.solve(type="dc", **kw), None
    except ds.error as e:
        return None, str(e)


def number(s):
    ds.get_matrix_and_rhs()
    s.number()


def chaotic(s, x0, kw, want, **more):
    """whether rounding grows over the iterations so that they cannot be followed"""
    rs = np.random.RandomState(7)
    w = s.newton(x0 * (1 + 1e-13 * rs.uniform(-1, 1, len(x0))), kw["absolute_error"], kw["relative_error"], kw.get("maximum_error", 1e300), kw.get("maximum_iterations", 20), kw.get("maximum_divergence", 20), **more)
    if len(w["iterations"]) != len(want["iterations"]) or w["reason"] != want["reason"]:
        return True
    for a, b in zip(w["iterations"], want["iterations"]):
        for n in a["devices"]:
            e, f = a["devices"][n]["abs"], b["devices"][n]["abs"]
            if not abs(e - f) <= 1e-8 * abs(f) + b["noise"]:
                return True
    return False


def follow(ctx, s, x0, kw, rtol=1e-6):
    """one solve with info, compared with the emulation from the same state"""
    want = s.newton(x0, kw["absolute_error"], kw["relative_error"], kw.get("maximum_error", 1e300), kw.get("maximum_iterations", 20), kw.get("maximum_divergence", 20))
    if want["certain"] and len(want["iterations"]) > 5 and chaotic(s, x0, kw, want):
        want["certain"] = False
    info, err = run_solve(info=True, **kw)
    x1 = s.state()
    if not want["certain"]:
        ctx.count("uncertain")
        raise Skip()
    if want["reason"] == "nonpositive":
        ctx.check(err is not None, "nonpositive", "a positive variable started with a value that is not, no error")
        ctx.check(np.array_equal(x1, x0), "restore", "after the error the solution is not that of before the solve")
        ctx.count("nonpositive")
        return want, x1
    if err is not None:
        # a model may have overflowed
        ctx.check(want["reason"] == "nan" or any(not np.isfinite(v) for v in want["x"]), "error", "unexpected error %s" % err)
        ctx.check(np.array_equal(x1, x0), "restore", "after an error the solution is not that of before the solve")
        ctx.count("errors")
        return want, x1
    if want["reason"] == "nan" or not np.isfinite(want["x"]).all() or np.abs(want["x"]).max() > 1e6:
        ctx.count("uncertain")
        raise Skip()
    ctx.count("followed")
    its = info["iterations"]
    ctx.count("iterations", len(its))
    ctx.check(info["converged"] == want["converged"], "converged", "converged is %s, expected %s after %d iterations (%s)" % (info["converged"], want["converged"], len(want["iterations"]), kw))
    if not ctx.check(len(its) == len(want["iterations"]), "iterations", "%d iterations, expected %d (%s, %s)" % (len(its), len(want["iterations"]), kw, want["reason"])):
        return want, x1
    ctx.check(info["number_of_equations"] == s.n, "number_of_equations", "number_of_equations")
    ctx.count("end_" + ("converged" if want["converged"] else want["reason"]))
    for k, (g, w) in enumerate(zip(its, want["iterations"])):
        ctx.check(g["iteration"] == k, "iteration", "iteration number")
        errors(ctx, g, w, k, rtol)
    if info["converged"]:
        noise = sum(w["noise"] for w in want["iterations"])
        ctx.close(x1, want["x"], "solution", "solution after %d iterations" % len(its), rtol=1e-7, atol=1e-7 * max(1, np.abs(want["x"]).max()) * 1e-3 + noise)
        w = want["iterations"][-1]
        r = s.assemble_at(x1)[0]["static"]
        # the residual left is that of a last update within the requested errors
        ctx.check(np.isfinite(x1).all(), "finite", "the solution is not finite")
        ctx.count("converged")
        return want, x1
    ctx.check(np.array_equal(x1, x0), "restore", "not converged, and the solution is not that of before the solve: %s" % [(i, x0[i], x1[i]) for i in np.flatnonzero(x0 != x1)[:5]])
    ctx.count("restored")
    return want, x1


def errors(ctx, g, w, k, rtol):
    nz = w["noise"] * 10
    for dv in g["devices"]:
        q = w["devices"][dv["name"]]
        ctx.close(dv["absolute_error"], q["abs"], "device_abs", "absolute error of device %s, iteration %d" % (dv["name"], k), rtol=rtol, atol=nz)
        ctx.close(dv["relative_error"], q["rel"], "device_rel", "relative error of device %s, iteration %d" % (dv["name"], k), rtol=rtol, atol=q["rnoise"] * 10)
        for rg in dv["regions"]:
            e = q["regions"].get(rg["name"], [])
            rn = sum(z[5] for z in e) * 10
            ctx.close(rg["absolute_error"], sum(z[1] for z in e), "region_abs", "absolute error of region %s" % rg["name"], rtol=rtol, atol=nz)
            ctx.close(rg["relative_error"], sum(z[2] for z in e), "region_rel", "relative error of region %s" % rg["name"], rtol=rtol, atol=rn)
            ctx.check([z["name"] for z in rg["equations"]] == [z[0] for z in e], "equations", "equations of region %s listed as %s" % (rg["name"], [z["name"] for z in rg["equations"]]))
            for ge, we in zip(rg["equations"], e):
                ctx.count("equation_errors")
                ctx.close(ge["absolute_error"], we[1], "abs", "absolute error of %s" % we[0], rtol=rtol, atol=nz)
                ctx.close(ge["relative_error"], we[2], "rel", "relative error of %s" % we[0], rtol=rtol, atol=rn)
                for key, arr, n in (("absolute_error_node", we[3], nz), ("relative_error_node", we[4], rn)):
                    i = ge[key]
                    ctx.check(0 <= i < len(arr) and arr[i] >= arr.max() * (1 - rtol) - n, key, "%s of %s is %d, error there %r, largest %r" % (key, we[0], i, arr[i] if 0 <= i < len(arr) else None, arr.max()))
    if "circuit" in w:
        ctx.close(g["circuit"]["absolute_error"], w["circuit"][0], "circuit_abs", "absolute error of the circuit, iteration %d" % k, rtol=rtol, atol=nz * 10)
        ctx.close(g["circuit"]["relative_error"], w["circuit"][1], "circuit_rel", "relative error of the circuit, iteration %d" % k, rtol=rtol, atol=w["circuit"][2] * 10)
    else:
        ctx.check("circuit" not in g, "circuit", "circuit errors without a circuit")


def start(ctx, s, rs, positive=False, amp=1.0):
    x = rs.uniform(0.01 if positive else -amp, amp, s.n)
    s.put(x)
    return s.state()


def limits(rng, rs, small=True):
    kw = {"absolute_error": 10.0 ** rng.uniform(-9, -2), "relative_error": 10.0 ** rng.uniform(-8, -1)}
    if rng.random() < 0.3:
        kw["absolute_error" if rng.random() < 0.5 else "relative_error"] = 10.0 ** rng.uniform(0, 8)
    if rng.random() < 0.5:
        kw["maximum_iterations"] = rng.choice([1, 2, 3, 4, 6, 30])
    if rng.random() < 0.35:
        kw["maximum_error"] = 10.0 ** rng.uniform(-3, 1.5)
    if rng.random() < 0.35:
        kw["maximum_divergence"] = rng.choice([1, 2, 3])
    return kw


def build(ctx, rs, what):
    rng = ctx.rng
    upd = {"damped": ("default", "log_damp", "positive", "log_damp"), "limits": ("default", "default", "log_damp")}.get(what, ("default",))
    s = Solvable(ctx, rs, complete=rng.random() < 0.4, circuit=what == "circuit" or rng.random() < 0.25, ndev=2 if what == "two" else 1, updates=upd, tie=0.7)
    s.add_equations()
    number(s)
    ctx.distinct(what, [(d.dim, len(d.regions), sorted((k, sorted(q["eqs"])) for k, q in d.contacts.items())) for d in s.devs.values()], [sorted(k for k in q if q[k] is not None) for d in s.devs.values() for r in d.regions.values() for q in r.eqs.values()], s.n)
    return s


def hook(s, reg, m, text):
    """replace the node model of an equation by itself plus text, which must be 0"""
    ds.node_model(name=m.name, equation=X.text(m.ast, s.rng) + "+" + text, **reg.kw())


def fault(ctx, s, x0):
    """a solve that cannot succeed"""
    rng = ctx.rng
    kind = rng.choice(FAULTS)
    at = rng.choice([1, 1, 2, 3, 4])
    n = s.n
    with_node = [(reg, q["node_model"], q["var"]) for d in s.devs.values() for reg in d.regions.values() for q in reg.eqs.values() if "node_model" in q]
    if kind in ("function", "log") and not with_node:
        kind = "custom"
    kw = {"absolute_error": 1e-14, "relative_error": 1e-14, "maximum_iterations": 12, "maximum_error": 1e200}
    calls = [0]
    undo = None
    must = True  # an error, rather than a solve that did not converge
    step = lambda m, b: np.full(n, 0.01)  # never converges
    flt = None
    typ = "dc"
    if kind == "custom":
        def proc(what, when):
            calls[0] += 1
            if calls[0] == at and proc.armed:
                raise RuntimeError("injected")
            return ([], [], True)
        proc.armed = True
        if not getattr(s, "hooked", None):
            ds.custom_equation(name="cfault", procedure=proc)
            s.hooked = True
        else:
            ds.custom_equation(name="cfault", procedure=proc)
        undo = lambda: setattr(proc, "armed", False)
    elif kind == "function":
        reg, m, v = rng.choice(with_node)
        armed = [True]

        def fn(a):
            calls[0] += 1
            if armed[0] and calls[0] >= at:
                raise RuntimeError("injected")
            return 0.0
        ds.symdiff(expr="declare(hook(z))")
        ds.symdiff(expr="define(hook(z), 0)")
        ds.register_function(name="hook", procedure=fn, nargs=1)
        at = rng.choice([1, 2, 3, reg.n, reg.n + 1, 2 * reg.n + 1])
        hook(s, reg, m, "hook(%s)" % v)

        def undo():
            armed[0] = False
            hook(s, reg, m, "0")
    elif kind == "log":
        reg, m, v = rng.choice(with_node)
        hook(s, reg, m, "1e-300*log(10+%s)" % v)
        undo = lambda: hook(s, reg, m, "0")
        k = rng.choice(s.cols[reg.dev.name, reg.name, v])

        def step(mat, b):
            calls[0] += 1
            x = np.full(n, 0.01)
            x[k] = -100.0 if calls[0] == at else 0.01
            return x
    elif kind == "singular":
        step = None

        def step(mat, b):
            calls[0] += 1
            if calls[0] == at:
                raise np.linalg.LinAlgError("singular")
            return np.full(n, 0.01)
    else:
        bad = {"raise": "raise", "status": {"status": False, "message": "no", "x": [0.0] * n}, "size": {"status": True, "message": "", "x": [0.0] * (n + rng.choice([-1, 1, 5]) if n > 1 else [0.0, 0.0])},
               "keys": {"status": True, "message": ""}, "nan": {"status": True, "message": "", "x": [float("nan")] * n}, "inf": {"status": True, "message": "", "x": [float("inf")] * n},
               "huge": {"status": True, "message": "", "x": [1e308] * n}, "type": rng.choice([5, [], {"status": True, "message": "", "x": "abc"}, {"status": True, "message": "", "x": [None] * n}])}[kind]
        where = rng.choice(["factor", "solve"]) if kind in ("raise", "status", "keys", "type") else "solve"
        if kind == "nan" and rng.random() < 0.5:
            bad["x"] = [0.0] * n
            bad["x"][rng.randrange(n)] = float("nan")
        if kind == "keys" and where == "factor":
            bad = {}
        if kind == "type" and where == "factor":
            bad = rng.choice([5, [], "abc"])
        # a factorization that does not give a dictionary has failed, without a message
        if kind in ("nan", "inf", "huge") or (where == "factor" and not isinstance(bad, dict)):
            must = bad == "raise"

        def flt(act, count):
            if act == where and count == at:
                if bad == "raise":
                    raise RuntimeError("injected")
                return bad
    info, msg, other = None, None, None
    with PySolver(update=step, fault=flt) as p:
        try:
            info = ds.solve(type=typ, info=True, **kw)
        except ds.error as e:
            msg = str(e)
        except Exception as e:
            other = e
    x1 = s.state()
    ctx.count("fault_" + kind)
    ctx.distinct("fault", kind, at, msg is not None)
    ctx.check(other is None, "exception", "%s at %d: %r rather than an error of the simulator" % (kind, at, other))
    if must:
        ctx.check(info is None, "fault_unseen", "%s at call %d: the solve ended with %s (%s)" % (kind, at, info and info["converged"], flt and (where, bad)))
    elif info is not None:
        ctx.check(not info["converged"], "fault_converged", "%s at call %d: converged" % (kind, at))
    if not np.array_equal(x1, x0):
        ctx.violation("fault_restore", "%s at call %d: the solution is not that of before the solve (%s %s): %s" % (kind, at, flt and (where, bad), msg or other, [(int(i), x0[i], x1[i]) for i in np.flatnonzero(~(x0 == x1))[:5]]))
    ctx.count("restored")
    if undo:
        undo()


def run_case(ctx, case):
    sim.reset()
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    s = build(ctx, rs, what)
    if what == "fault":
        for step in range(3):
            x0 = start(ctx, s, rs)
            for _ in range(rng.choice([1, 1, 2])):
                fault(ctx, s, x0)
            if s.devs and rng.random() < 0.7:
                follow(ctx, s, s.state(), {"absolute_error": 1e-6, "relative_error": 1e-4, "maximum_iterations": 40})
                ctx.count("after_fault")
        return
    for step in range(3 if what == "limits" else 2):
        x0 = start(ctx, s, rs, positive=any(b[3] == "positive" for b in s.blocks()) and rng.random() < 0.9, amp=rng.choice([0.3, 1.0, 1.0, 3.0]))
        kw = limits(rng, rs) if what in ("limits", "two") else {"absolute_error": 1e-6, "relative_error": 1e-4, "maximum_iterations": 40}
        follow(ctx, s, x0, kw)
        pos = [b for b in s.blocks() if b[3] == "positive"]
        if pos and all((x0[b[4]] > 0).all() for b in pos):
            x1 = s.state()
            ctx.check(all((x1[b[4]] > 0).all() for b in pos), "positive", "a positive variable is not")
            ctx.count("positive", len(pos))
