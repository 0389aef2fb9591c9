"""C10: contact currents and charges against their definition, their balance at a steady state, and the circuit."""
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.system import System, Acc
from vlib.hold import hold
from vlib.solvable import Solvable
from vlib.worker import Skip

PLAN = ["random", "steady", "random", "steady", "circuit", "random", "steady", "circuit", "extended", "sweep", "cyl"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (PLAN[k % len(PLAN)], k), "what": PLAN[k % len(PLAN)], "k": k}


def expected(s, d, c, eq, suf):
    """value and error bound of the integral over the nodes where the contact equation applies"""
    t = d.contacts[c]
    reg, q = d.regions[t["region"]], t["eqs"][eq]
    rows = np.full(reg.n, -1)
    rows[np.array(s.active(d, c, eq), dtype=int)] = 0
    a = Acc(1)
    v, e = 0.0, 0.0
    for key, kind in (("node" + suf, "node"), ("edge" + suf, "edge"), ("element" + suf, "element")):
        m = q.get(key)
        if m is None:
            continue
        val = s.value(m)
        w = reg.weight({"node": "node_volume_model", "edge": "edge_couple_model", "element": "element_edge_couple_model"}[kind])
        if kind == "node":
            f = (rows == 0) * 1.0
        else:
            ends = reg.edges if kind == "edge" else reg.eledges
            f = (rows[ends[:, 0]] == 0) * 1.0 - (rows[ends[:, 1]] == 0) * 1.0
        v += float(np.sum(f * val.v * w))
        e += float(np.sum(np.abs(f) * (val.e + 20 * np.abs(val.v)) * np.abs(w)))
    return v, e


def compare(ctx, s, why):
    out = {}
    for d in s.devs.values():
        for c, t in d.contacts.items():
            for eq in t["eqs"]:
                if eq not in d.regions[t["region"]].eqs:
                    continue
                for suf, f in (("_current_model", ds.get_contact_current), ("_charge_model", ds.get_contact_charge)):
                    v, e = expected(s, d, c, eq, suf)
                    if not np.isfinite([v, e]).all():
                        continue
                    g = f(device=d.name, contact=c, equation=eq)
                    ctx.count("terminals")
                    ctx.count("with_" + "_".join(sorted(k.split("_")[0] for k in t["eqs"][eq] if k.endswith(suf))) if any(k.endswith(suf) for k in t["eqs"][eq]) else "with_nothing")
                    if abs(g - v) > X.tol(e):
                        ctx.violation("integral" + suf, "%s of contact %s, equation %s (%s): got %r, expected %r" % (suf, c, eq, why, g, v), [n for n in s.active(d, c, eq)])
                    out[d.name, c, eq, suf] = g
    return out


def solve(ctx, s, **kw):
    try:
        ds.solve(type="dc", absolute_error=1e-9, relative_error=1e-9, maximum_iterations=60, **kw)
    except ds.error:
        ctx.count("not_converged")
        raise Skip()
    ctx.count("converged")


def balance(ctx, s, why):
    s.number()
    got = compare(ctx, s, why)
    for d in s.devs.values():
        for v in ("V", "W", "U"):
            tot, scale = 0.0, 0.0
            has = False
            src = 0.0
            for (dn, c, eq, suf), g in got.items():
                reg = d.regions[d.contacts[c]["region"]] if dn == d.name else None
                if reg is not None and suf == "_current_model" and reg.eqs[eq]["var"] == v:
                    tot, scale, has = tot + g, scale + abs(g), True
            for reg in d.regions.values():
                for q in reg.eqs.values():
                    if q["var"] == v and "node_model" in q:
                        x = s.value(q["node_model"]).v * reg.weight("node_volume_model")
                        src, scale = src + x.sum(), scale + np.abs(x).sum()
            for i, t in d.interfaces.items():
                a, b = d.regions[t["r0"]], d.regions[t["r1"]]
                for q in t["eqs"].values():
                    if a.eqs[q["name0"]]["var"] != v or q["type"] != "fluxterm":
                        continue
                    # the surface on both sides of an end of an interface may differ
                    ok = s.iactive(d, i, q["name0"], q["name1"])
                    f = X.evaluate(q["model"].ast, s.ienv(d, i)).v
                    y = f * (a.get("node", "SurfaceArea")[t["n0"]] - b.get("node", "SurfaceArea")[t["n1"]]) * ok
                    src, scale = src + y.sum(), scale + np.abs(y).sum()
            if not has:
                continue
            ctx.count("balances")
            if abs(tot - src) > 1e-7 * scale + 1e-9:
                ctx.violation("balance", "the currents of the contacts of %s for %s add up to %r, sources to %r (%s)" % (d.name, v, tot, src, why))
    if s.nodes:
        x = s.circuit_values()
        u = lambda k: x.get(k, 0.0)
        for k in s.nodes:
            tot, scale, tied = 0.0, 0.0, 0
            for name, a, b, val in s.elements:
                if k not in (a, b) or name[0] == "C":
                    continue
                sg = (1 if k == a else 0) - (1 if k == b else 0)
                i = sg * {"R": lambda: (u(a) - u(b)) / val, "I": lambda: -val, "V": lambda: u(name + ".I"), "L": lambda: u(name + ".I")}[name[0]]()
                tot, scale = tot + i, scale + abs(i)
            for (dn, c, eq, suf), g in got.items():
                if suf == "_current_model" and s.devs[dn].contacts[c]["eqs"][eq].get("circuit_node") == k:
                    tot, scale, tied = tot + g, scale + abs(g), tied + 1
            ctx.count("circuit_nodes")
            ctx.count("tied_terminals", tied)
            if abs(tot) > 1e-7 * scale + 1e-9:
                ctx.violation("circuit", "currents into circuit node %s add up to %r of %r (%d contacts, %s)" % (k, tot, scale, tied, why))


def run_case(ctx, case):
    sim.reset()
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    if what in ("random", "cyl"):
        s = System(ctx, rs, dim=2 if what == "cyl" else None, updates=("default",))
        if what == "cyl":
            from workers.assembly import cylinder
            cylinder(ctx, s, rs)
        s.add_equations()
        ds.get_matrix_and_rhs()
        for k in s.circuit_nodes():
            ds.set_circuit_node_value(solution="dcop", node=k, value=float(rs.uniform(-1, 1)))
        for step in range(2):
            hold()
            compare(ctx, s, "random state")
            for d in s.devs.values():
                for reg in d.regions.values():
                    for v in reg.vars:
                        ds.set_node_values(name=v, values=[float(x) for x in rs.uniform(-1, 1, reg.n)], **reg.kw())
        ctx.distinct([(d.dim, sorted((k, sorted((e, sorted(m)) for e, m in q["eqs"].items())) for k, q in d.contacts.items())) for d in s.devs.values()])
        return
    if what == "extended":
        for p in ("extended_model", "extended_equation", "extended_solver"):
            if rng.random() < 0.6:
                ds.set_parameter(name=p, value=True)
        ctx.count("extended")
    s = Solvable(ctx, rs, circuit=what == "circuit" or rng.random() < 0.3, ndev=rng.choice([1, 1, 2]), tie=0.8)
    s.add_equations()
    solve(ctx, s)
    ctx.distinct([(d.dim, sorted((k, sorted((e, sorted(m)) for e, m in q["eqs"].items())) for k, q in d.contacts.items())) for d in s.devs.values()])
    balance(ctx, s, "steady state")
    for step in range(3 if what == "sweep" else 1):
        for d in s.devs.values():
            for c in d.contacts:
                if rng.random() < 0.6:
                    s.pars[d.name]["b_" + c] = s.r(-1, 1)
                    ds.set_parameter(device=d.name, name="b_" + c, value=s.pars[d.name]["b_" + c])
        for k, e in enumerate(s.elements):
            if e[0][0] in "VI" and rng.random() < 0.5:
                s.elements[k] = e[:3] + (s.r(-1.5, 1.5),)
                ds.circuit_alter(name=e[0], value=s.elements[k][3]) if e[0][0] == "V" else ds.circuit_alter(name=e[0], param="I", value=s.elements[k][3])
        solve(ctx, s)
        ctx.count("sweep_steps")
        balance(ctx, s, "new bias")
