"""C12: AC and noise results against the linearised system assembled independently."""
import array
import numpy as np
import devsim as ds
from vlib import sim
from vlib.hold import PySolver
from vlib.grad import vector_gradient
from vlib.solvable import Solvable
from vlib.worker import Skip
from workers import newton

PLAN = ["ac", "noise", "ac", "noise", "only", "python", "fault", "finite", "noise", "reciprocal"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


class Problem(Solvable):
    """a Solvable whose sources have small signal parts"""

    def make_circuit(self):
        add = ds.circuit_element
        self.ac = {}

        def element(name, n1, n2, value):
            kw = {}
            if name[0] == "V" and self.rs.rand() < 0.7:
                kw = {"acreal": self.r(-2, 2)}
                if self.rs.rand() < 0.5:
                    kw["acimag"] = self.r(-2, 2)
            if name[0] == "V":
                self.ac[name] = complex(kw.get("acreal", 0.0), kw.get("acimag", 0.0))
            add(name=name, n1=n1, n2=n2, value=value, **kw)
        ds.circuit_element = element
        try:
            Solvable.make_circuit(self)
        finally:
            ds.circuit_element = add


def system(s, f):
    acc, row, copy = s.assemble_at(s.state())
    J = acc["static"].J + 2j * np.pi * f * acc["dynamic"].J
    return J, row, copy


def reference(J, b):
    """solution and a bound of its rounding error by row scaling"""
    d = np.abs(J).sum(axis=1)
    if not (d > 0).all() or not np.isfinite(d).all():
        raise Skip()
    A = J / d[:, None]
    c = np.linalg.cond(A)
    if not c < 1e9:
        raise Skip()
    x = np.linalg.solve(A, b / d)
    return x, 1e-14 * c * max(np.abs(x).max(), 1e-300) * len(x)


def unchanged(ctx, s, x0, what):
    ctx.check(np.array_equal(s.state(), x0), "operating_point", "%s changed the operating point" % what)
    ctx.count("operating_points")


def run(typ, **kw):
    try:
        ds.solve(type=typ, **kw)
        return None
    except ds.error as e:
        return str(e)


def complex_values(s, real, imag, circuit):
    """{(device, region, variable)| circuit node: complex values}"""
    out = {}
    for (d, r, v), c in s.cols.items():
        eq = [k for k, q in s.devs[d].regions[r].eqs.items() if q["var"] == v][0]
        a = np.array(ds.get_node_model_values(device=d, region=r, name=real(v, eq)))
        b = np.array(ds.get_node_model_values(device=d, region=r, name=imag(v, eq)))
        out[d, r, v] = a + 1j * b
    for k in s.ccol:
        out[k] = complex(ds.get_circuit_node_value(solution=circuit + "_real", node=k), ds.get_circuit_node_value(solution=circuit + "_imag", node=k))
    return out


def ac(ctx, s, f):
    x0 = s.state()
    err = run("ac", frequency=f)
    unchanged(ctx, s, x0, "an AC solve")
    J, row, copy = system(s, f)
    b = np.zeros(s.n, dtype=complex)
    for k, v in getattr(s, "ac", {}).items():
        b[s.ccol[k + ".I"]] = v
    x, noise = reference(J, b)
    if not ctx.check(err is None, "ac_error", "unexpected error %s" % err):
        return None
    got = complex_values(s, lambda v, e: v + "_Real", lambda v, e: v + "_Imag", "ssac")
    for k, g in got.items():
        w = x[s.cols[k]] if isinstance(k, tuple) else x[s.ccol[k]]
        ctx.close(np.array(g), np.array(w), "ac_node" if isinstance(k, tuple) else "ac_circuit", "AC result of %s at %r" % (k, f), rtol=1e-8, atol=noise)
        ctx.count("ac_values", np.size(g))
        if np.abs(w).max() > 0:
            ctx.count("ac_nonzero")
    ctx.count("ac_solves")
    ctx.distinct("ac", round(np.log10(f), 1) if f else 0, s.n, bool(np.abs(x).max() > 0))
    return got


def noise(ctx, s, out, f, named=None):
    x0 = s.state()
    err = run("noise", frequency=f, output_node=named or out)
    unchanged(ctx, s, x0, "a noise solve")
    J, row, copy = system(s, f)
    b = np.zeros(s.n, dtype=complex)
    b[s.ccol[out]] = 1.0
    y, nz = reference(J.T, b)
    if not ctx.check(err is None, "noise_error", "unexpected error %s" % err):
        return None
    got = complex_values(s, lambda v, e: "%s_%s_real" % (out, e), lambda v, e: "%s_%s_imag" % (out, e), "noise_" + out)
    for k, g in got.items():
        if isinstance(k, tuple):
            c = s.cols[k]
            # what reaches the rows of the system from an injection into the bulk equation of a node
            w = np.where(row[c] >= 0, y[row[c]], 0) + np.where((copy[c] != 0) & (row[c] >= 0), y[c], 0)
            for r, n in ((-1, "noise_contact"), (None, "noise_permuted")):
                ctx.count(n, int((row[c] == -1).sum() if r == -1 else ((row[c] >= 0) & (row[c] != c)).sum()))
            ctx.count("noise_copied", int((copy[c] != 0).sum()))
        else:
            w = y[s.ccol[k]]
        ctx.close(np.array(g), np.array(w), "noise_node" if isinstance(k, tuple) else "noise_circuit", "noise result of %s, output %s at %r" % (k, out, f), rtol=1e-8, atol=nz)
        ctx.count("noise_values", np.size(g))
    for (d, r, v), g in ((k, g) for k, g in got.items() if isinstance(k, tuple)):
        dv = s.devs[d]
        eq = [k for k, q in dv.regions[r].eqs.items() if q["var"] == v][0]
        for part, val in (("real", g.real), ("imag", g.imag)):
            w, mag = vector_gradient(d, r, dv.dim, val, True)
            for i in range(dv.dim):
                m = np.array(ds.get_node_model_values(device=d, region=r, name="%s_%s_%s_grad%s" % (out, eq, part, "xyz"[i])))
                ctx.close(m, w[:, i], "noise_gradient", "gradient of the %s part of the impedance field of %s" % (part, eq), rtol=1e-8, atol=1e-10 * mag.max() + 1e-300)
                ctx.count("noise_gradients", len(m))
    ctx.count("noise_solves")
    ctx.distinct("noise", round(np.log10(f), 1) if f else 0, s.n)
    return y


def frequency(rng):
    return rng.choice([0.0, 10.0 ** rng.uniform(-3, 3), 10.0 ** rng.uniform(-3, 3), 10.0 ** rng.uniform(-12, 12)])


def alter(ctx, s, rng):
    names = sorted(getattr(s, "ac", {}))
    if not names:
        return
    k = rng.choice(names)
    if rng.random() < 0.6:
        v = s.r(-2, 2)
        ds.circuit_alter(name=k, param="acreal", value=v)
        s.ac[k] = complex(v, s.ac[k].imag)
    else:
        v = s.r(-2, 2)
        ds.circuit_alter(name=k, param="acimag", value=v)
        s.ac[k] = complex(s.ac[k].real, v)
    ctx.count("altered")


def run_case(ctx, case):
    sim.reset()
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    s = Problem(ctx, rs, complete=rng.random() < 0.4, circuit=what != "ac" or rng.random() < 0.85, ndev=0 if what == "only" and rng.random() < 0.5 else 2 if rng.random() < 0.15 else 1, updates=("default",), tie=0.9)
    s.add_equations()
    newton.number(s)
    nodes = sorted(s.ccol)
    for step in range(3):
        # any state will do as an operating point; mostly a steady one
        s.put(rs.uniform(-0.8, 0.8, s.n))
        if rng.random() < 0.5:
            try:
                ds.solve(type="dc", absolute_error=1e-8, relative_error=1e-8, maximum_iterations=40)
                ctx.count("steady")
            except ds.error:
                ctx.count("not_steady")
        for k in range(2):
            f = frequency(rng)
            if rng.random() < 0.4:
                alter(ctx, s, rng)
            if what == "fault":
                fault(ctx, s, f, rng)
            elif what == "python":
                with PySolver(fmt=rng.choice(["csc", "csr"])) as p:
                    ac(ctx, s, f)
                    if nodes:
                        noise(ctx, s, rng.choice(nodes), f)
                ctx.count("python")
            elif what == "finite":
                finite(ctx, s, rs)
            elif what == "reciprocal" and nodes:
                # an impedance from a source to an output is the same found either way
                a = ac(ctx, s, f)
                out = rng.choice(nodes)
                y = noise(ctx, s, out, f)
                if a is not None and y is not None:
                    want = sum(v * y[s.ccol[n + ".I"]] for n, v in s.ac.items())
                    scale = np.abs(y).max() + abs(want)
                    ctx.close(np.array(a[out]), np.array(want), "reciprocal", "output %s by AC and by noise" % out, rtol=1e-6, atol=1e-7 * scale)
                    ctx.count("reciprocal")
            elif what == "ac" or (what == "only" and rng.random() < 0.5) or not nodes:
                ac(ctx, s, f)
            else:
                noise(ctx, s, rng.choice(nodes), f)
    if what == "noise":
        x0 = s.state()
        for bad in ("0", "nonesuch", ""):
            ctx.check(run("noise", frequency=1.0, output_node=bad) is not None, "noise_output", "noise with output %r: no error" % bad)
            unchanged(ctx, s, x0, "a noise solve with a wrong output")
            ctx.count("wrong_output")


def finite(ctx, s, rs):
    """at frequency 0 the result is the derivative of the steady solution by the source"""
    if not getattr(s, "ac", None):
        return
    tight = {"absolute_error": 1e-9, "relative_error": 1e-9, "maximum_iterations": 60}
    try:
        ds.solve(type="dc", **tight)
    except ds.error:
        ctx.count("not_steady")
        return
    k = sorted(s.ac)[0]
    for n in s.ac:
        ds.circuit_alter(name=n, param="acreal", value=1.0 if n == k else 0.0)
        ds.circuit_alter(name=n, param="acimag", value=0.0)
        s.ac[n] = complex(n == k, 0)
    x0 = s.state()
    got = ac(ctx, s, 0.0)
    J, _, _ = system(s, 0.0)
    if got is None or np.linalg.cond(J) > 1e4:
        return
    i = [j for j, e in enumerate(s.elements) if e[0] == k][0]
    v = s.elements[i][3]
    h, xs = 1e-4, []
    try:
        for sg in (1, -1):
            s.put(x0)
            ds.circuit_alter(name=k, value=v + sg * h)
            ds.solve(type="dc", **tight)
            xs.append(s.state())
    except ds.error:
        ctx.count("not_steady")
        return
    finally:
        ds.circuit_alter(name=k, value=v)
        s.put(x0)
    d = (xs[0] - xs[1]) / (2 * h)
    if np.abs(xs[0] - x0).max() > 0.1:
        return
    x = np.zeros(s.n)
    for key, g in got.items():
        x[s.cols[key] if isinstance(key, tuple) else s.ccol[key]] = np.real(g)
    ctx.close(x, d, "finite", "AC at 0 against the change of the steady solution", rtol=1e-3, atol=1e-3 * max(1, np.abs(d).max()))
    ctx.count("finite")


def fault(ctx, s, f, rng):
    n, x0 = s.n, s.state()
    kind = rng.choice(["raise", "status", "size", "keys", "type", "nan"])
    where = rng.choice(["factor", "solve"]) if kind not in ("size", "nan") else "solve"
    bad = {"status": {"status": False, "message": "no", "x": array.array("d", [0.0] * 2 * n)}, "size": {"status": True, "message": "", "x": array.array("d", [0.0] * rng.choice([n, 2 * n - 1, 2 * n + 2, 1]))}, "keys": {}, "type": rng.choice([5, [], "abc"]),
           "nan": {"status": True, "message": "", "x": array.array("d", [float("nan")] * (2 * n))}}.get(kind)

    def flt(act, count):
        if act == where:
            if kind == "raise":
                raise RuntimeError("injected")
            return bad
    typ = rng.choice(["ac", "noise"]) if s.ccol else "ac"
    kw = {"output_node": rng.choice(sorted(s.ccol))} if typ == "noise" else {}
    with PySolver(fault=flt):
        try:
            err = run(typ, frequency=f, **kw)
            other = None
        except Exception as e:
            err, other = None, e
    ctx.check(other is None, "exception", "%s %s of %s: %r rather than an error of the simulator" % (kind, where, typ, other))
    if kind != "nan":
        ctx.check(err is not None, "fault_unseen", "%s %s of %s (%r): no error" % (kind, where, typ, bad))
    unchanged(ctx, s, x0, "a failed %s solve" % typ)
    ctx.count("fault_" + kind)
    ac(ctx, s, f)
