"""C08: the matrix and right hand side the simulator assembles against an independent finite volume assembly."""
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.system import System, dense
from vlib.worker import Skip

PLAN = ["one", "one", "circuit", "interface", "history", "two", "custom", "history", "cyl", "extended", "partial"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (PLAN[k % len(PLAN)], k), "what": PLAN[k % len(PLAN)], "k": k}


def compare(ctx, s, fmt, why):
    m = ds.get_matrix_and_rhs(format=fmt)
    s.number(lambda ok, key, msg: ctx.check(ok, key, msg, why))
    ctx.check(m["format"] == fmt, "format", "format %r asked, %r given" % (fmt, m["format"]))
    want, row, copy = s.assemble()
    n = s.n
    p = m["permutation"]
    ctx.check(len(p["row"]) == n and np.array_equal(np.array(p["row"]), row) and np.array_equal(np.array(p["copy"]), copy), "permutation", "row permutation differs (%s)" % why,
              [(i, int(a), int(b), int(c), int(e)) for i, (a, b, c, e) in enumerate(zip(p["row"], row, p["copy"], copy)) if a != b or c != e][:20])
    for t, w in want.items():
        g = m[t]
        J = dense(fmt, g, n)
        if not ctx.check(J is not None, "compressed", "%s matrix is not a well formed %s matrix" % (t, fmt)):
            continue
        with np.errstate(all="ignore"):
            if not (np.isfinite(w.R).all() and np.isfinite(w.J).all()):
                raise Skip()
        ctx.count("rows", n)
        ctx.count("entries", int((w.J != 0).sum()))
        name = owner(s)
        bad(ctx, np.array(g["rhs"]), -w.R, w.RE, "rhs:" + t, "%s right hand side (%s)" % (t, why), lambda i: name(i[0]))
        bad(ctx, J, w.J, w.JE, "matrix:" + t, "%s matrix (%s)" % (t, why), lambda i: "row %s, column %s" % (name(i[0]), name(i[1])))


def owner(s):
    d = {}
    for (dev, reg, var), c in s.cols.items():
        for i, x in enumerate(c):
            d[int(x)] = "%s/%s/%s node %d" % (dev, reg, var, i)
    for k, x in s.ccol.items():
        d[x] = "circuit " + k
    return lambda i: d.get(int(i), "?")


def bad(ctx, got, want, err, key, what, where):
    ctx.count("values", got.size)
    tol = X.tol(err)
    with np.errstate(all="ignore"):
        b = ~(np.abs(got - want) <= tol)
    if b.any():
        i = np.argwhere(b)
        ctx.violation(key, "%s: %s got %r, expected %r (%d differ)" % (what, where(i[0]), float(got[tuple(i[0])]), float(want[tuple(i[0])]), len(i)),
                      [(where(j), float(got[tuple(j)]), float(want[tuple(j)])) for j in i[:25]])


def values(ctx, s, rs):
    for d in s.devs.values():
        for reg in d.regions.values():
            for v in reg.vars:
                ds.set_node_values(name=v, values=[float(x) for x in rs.uniform(-1, 1, reg.n)], **reg.kw())
    for k in s.circuit_nodes():
        ds.set_circuit_node_value(solution="dcop", node=k, value=float(rs.uniform(-1, 1)))


def run_case(ctx, case):
    sim.reset()
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    fmt = rng.choice(["csc", "csr"])
    if what == "extended":
        for p in ("extended_model", "extended_equation", "extended_solver"):
            if rng.random() < 0.6:
                ds.set_parameter(name=p, value=True)
    kw = {"one": dict(ndev=1, circuit=False), "circuit": dict(circuit=True), "interface": dict(nreg=int(rs.choice([2, 2, 3]))), "two": dict(ndev=2, dim=int(rs.choice([1, 1, 2]))),
          "custom": dict(nreg=1), "cyl": dict(dim=2)}.get(what, {})
    s = System(ctx, rs, made=0.4, **kw)
    if what == "cyl":
        cylinder(ctx, s, rs)
    s.add_equations()
    dims = sorted({d.dim for d in s.devs.values()})
    ctx.distinct(dims, what, len(s.nodes), [sorted((k, len(q["eqs"])) for k, q in d.contacts.items()) for d in s.devs.values()], [sorted(k for k in q if q[k] is not None) for d in s.devs.values() for r in d.regions.values() for q in r.eqs.values()])
    ds.get_matrix_and_rhs(format=fmt)
    for k in s.circuit_nodes():
        ds.set_circuit_node_value(solution="dcop", node=k, value=float(rs.uniform(-1, 1)))
    if what == "custom":
        s.number()
        customs(ctx, s, rs)
    compare(ctx, s, fmt, "as built")
    ctx.count("systems")
    ctx.count("dim%d" % dims[-1])
    if what == "extended":
        ctx.count("extended")
    if what in ("history", "two", "custom", "interface"):
        for step in range(rng.choice([2, 4, 6]) if what == "history" else 2):
            why = mutate(ctx, s, rs, what)
            values(ctx, s, rs)
            compare(ctx, s, rng.choice(["csc", "csr"]), "after " + why)
    elif rng.random() < 0.5:
        values(ctx, s, rs)
        compare(ctx, s, rng.choice(["csc", "csr"]), "new values")
    if what == "partial":
        partial(ctx, s, rs, fmt)


def partial(ctx, s, rs, fmt):
    """edge and element models with only some of the derivative models of a variable: an error, and no wrong matrix"""
    d = list(s.devs.values())[0]
    used = []
    for reg in d.regions.values():
        for q in list(reg.eqs.values()) + [e for c in d.contacts.values() if c["region"] == reg.name for n, e in c["eqs"].items() if n in reg.eqs]:
            for k, m in q.items():
                # models giving current and charge to a circuit are not looked at without one
                if hasattr(m, "kind") and m.kind in ("edge", "element") and len(m.ders) > 1 and not k.endswith(("_current_model", "_charge_model")):
                    used.append(m)
    if not used:
        raise Skip()
    m = used[rs.randint(len(used))]
    var = sorted({x.split("@")[0] for x in m.ders if any(x.split("@")[0] == q["var"] for q in m.host.eqs.values())})
    if not var:
        raise Skip()
    v = var[rs.randint(len(var))]
    ends = [x for x in m.ders if x.split("@")[0] == v]
    gone = ends[rs.randint(len(ends))]
    dele = {"edge": ds.delete_edge_model, "element": ds.delete_element_model}[m.kind]
    dele(name="%s:%s" % (m.name, gone), **m.host.kw())
    seen = True
    try:
        ds.get_matrix_and_rhs(format=fmt)
        seen = False
    except ds.error:
        ctx.count("partial_reported")
    if not seen:
        # not reported when the model does not contribute: the matrix is that of the derivative models left
        m.ders = [x for x in m.ders if x != gone]
        ctx.check(not contributes(s, m), "partial", "a derivative model of one end of an edge is missing, no error was raised")
        compare(ctx, s, fmt, "derivative model deleted")
    for x in [x for x in m.ders if x.split("@")[0] == v and x != gone]:
        dele(name="%s:%s" % (m.name, x), **m.host.kw())
    m.ders = [x for x in m.ders if x.split("@")[0] != v]
    compare(ctx, s, fmt, "derivative models deleted")
    ctx.count("partial")


def contributes(s, m):
    for d in s.devs.values():
        if any(m in q.values() for q in m.host.eqs.values()):
            return True
        for c, t in d.contacts.items():
            for eq, q in t["eqs"].items():
                if t["region"] == m.host.name and m in [q[k] for k in q if not isinstance(q[k], str)] and eq in m.host.eqs and s.active(d, c, eq):
                    return True
    return False


def cylinder(ctx, s, rs):
    ctx.count("cylindrical")
    for d in s.devs.values():
        ds.set_parameter(device=d.name, name="raxis_variable", value="x")
        ds.set_parameter(device=d.name, name="raxis_zero", value=-0.25)
        for reg in d.regions.values():
            for f in (ds.cylindrical_edge_couple, ds.cylindrical_node_volume):
                f(**reg.kw())
            for p, v in (("node_volume_model", "CylindricalNodeVolume"), ("edge_couple_model", "CylindricalEdgeCouple"), ("edge_node0_volume_model", "CylindricalEdgeNodeVolume@n0"),
                         ("edge_node1_volume_model", "CylindricalEdgeNodeVolume@n1"), ("element_edge_couple_model", "ElementCylindricalEdgeCouple"),
                         ("element_node0_volume_model", "ElementCylindricalNodeVolume@en0"), ("element_node1_volume_model", "ElementCylindricalNodeVolume@en1")):
                ds.set_parameter(name=p, value=v, **reg.kw())
                reg.weights[p] = v
            reg.params["w"] = True


def customs(ctx, s, rs):
    for k in range(rs.randint(1, 3)):
        name = "c%d" % k
        s.custom_equation(name)
        ctx.count("custom_equations")
        entries(s, s.custom[name], rs)


def entries(s, spec, rs):
    for t in ("static", "dynamic"):
        spec[t] = [(int(rs.randint(s.n)), None if rs.rand() < 0.4 else int(rs.randint(s.n)), float(rs.uniform(-1, 1))) for _ in range(rs.randint(0, 25))]


def mutate(ctx, s, rs, what):
    rng = ctx.rng
    d = rng.choice(list(s.devs.values()))
    reg = rng.choice(list(d.regions.values()))
    ops = ["bulk_replace", "bulk_delete", "bulk_readd", "contact_delete", "contact_replace", "contact_replace", "interface_delete", "interface_replace", "bulk_replace", "var_swap"]
    op = rng.choice(ops)
    ctx.count("op_" + op)
    if op == "bulk_replace" and reg.eqs:
        eq = rng.choice(list(reg.eqs))
        s.equation(reg, reg.eqs[eq]["var"], eq)
    elif op == "bulk_delete" and len(reg.eqs) > 1:
        eq = rng.choice(list(reg.eqs))
        ds.delete_equation(name=eq, **reg.kw())
        s.drop(reg, eq)
    elif op == "bulk_readd":
        v = rng.choice(reg.vars)
        for eq in [e for e, q in reg.eqs.items() if q["var"] == v]:
            ds.delete_equation(name=eq, **reg.kw())
            s.drop(reg, eq)
        s.equation(reg, v)
    elif op == "var_swap":
        # the same equation name, now for a variable that has no equation
        free = [v for v in reg.vars if not any(q["var"] == v for q in reg.eqs.values())]
        if free and reg.eqs:
            s.equation(reg, rng.choice(free), rng.choice(list(reg.eqs)))
    elif op.startswith("contact") and d.contacts:
        c = rng.choice(list(d.contacts))
        q = d.contacts[c]
        eqs = list(d.regions[q["region"]].eqs)
        if op == "contact_delete" and q["eqs"]:
            eq = rng.choice(list(q["eqs"]))
            ds.delete_contact_equation(device=d.name, contact=c, name=eq)
            q["eqs"].pop(eq)
        elif eqs:
            s.contact_equation(d, c, rng.choice(eqs))
    elif op.startswith("interface") and d.interfaces:
        i = rng.choice(list(d.interfaces))
        q = d.interfaces[i]
        if op == "interface_delete" and q["eqs"]:
            n = rng.choice(list(q["eqs"]))
            ds.delete_interface_equation(device=d.name, interface=i, name=n)
            q["eqs"].pop(n)
        elif q["eqs"]:
            n = rng.choice(list(q["eqs"]))
            o = q["eqs"][n]
            s.interface_equation(d, i, o["name0"], o["name1"], n)
    for spec in s.custom.values():
        spec["static"], spec["dynamic"] = [], []
    ds.get_matrix_and_rhs(format="csc")
    for spec in s.custom.values():
        s.number()
        entries(s, spec, rs)
    return op
