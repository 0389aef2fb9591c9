"""C20: extended precision in every combination of models, equations and solver."""
import numpy as np
import mpmath as mp
import devsim as ds
from vlib import sim, expr as X
from vlib.quadread import Quad, digits
from vlib.system import System
from vlib.solvable import Solvable
from vlib.worker import Skip
from workers import assembly, newton, terminals, transient, smallsignal

PLAN = ["models", "assembly", "ones", "fine_assembly", "newton", "fine_solve", "transient", "ac", "fine_steps", "terminals", "volumes", "storage"]
SWITCHES = ("extended_model", "extended_equation", "extended_solver")


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


def switch(ctx, names=SWITCHES, p=0.5):
    rng = ctx.rng
    out = []
    for n in names:
        on = rng.random() < p
        ds.set_parameter(name=n, value=on)
        out.append(on)
    ctx.count("combination_" + "".join("01"[b] for b in out) if len(out) == 3 else "switched")
    return out


def everything(on):
    for n in SWITCHES:
        ds.set_parameter(name=n, value=on)


def mixed(cls):
    """a problem whose models and equations are of either precision"""
    class Mixed(cls):
        def fresh(self, p):
            if self.ctx.rng.random() < 0.4:
                # on a region, a device or everywhere: the nearest one holds
                rng = self.ctx.rng
                n, on = rng.choice(SWITCHES[:2]), rng.random() < 0.5
                d = rng.choice(list(self.devs.values()))
                kw = rng.choice([{}, {"device": d.name}, {"device": d.name, "region": rng.choice(sorted(d.regions) or [""])}])
                if kw.get("region", 1):
                    ds.set_parameter(name=n, value=on, **kw)
                    self.ctx.count("mixed")
            return cls.fresh(self, p)
    return Mixed


def fine(ctx, key, what, got, want, err, rel=1e-28):
    """mpf values; err: bound of the rounding error in units of that of a double"""
    got, want, err = (np.ravel(np.asarray(a, dtype=object)) for a in (got, want, err))
    ctx.count("fine_values", len(got))
    for i, (g, w, e) in enumerate(zip(got, want, err)):
        if not abs(g - w) <= rel * e + mp.mpf("1e-300"):
            ctx.violation(key, "%s: [%d] is %s, expected %s (rounding error of a double %s)" % (what, i, mp.nstr(g, 36), mp.nstr(w, 36), mp.nstr(e * X.EPS, 3)))
            return False
        if e:
            ctx.count("beyond_double" if abs(w - mp.mpf(float(w))) > 0 else "double_exact")
    return True


def spread(ctx, s, rs):
    """solutions with digits beyond those of a double"""
    for d in s.devs.values():
        for reg in d.regions.values():
            for v in reg.vars:
                ds.set_node_values(name=v, values=[float(x) for x in rs.uniform(-1, 1, reg.n)], **reg.kw())
                ds.node_solution(name="tail__", **reg.kw())
                ds.set_node_values(name="tail__", values=[float(x) for x in rs.uniform(-1, 1, reg.n)], **reg.kw())
                ds.node_model(name="start__", equation="%s+tail__*1e-19" % v, **reg.kw())
                ds.set_node_values(name=v, init_from="start__", **reg.kw())
                ctx.count("tails", reg.n)


NEAR = [("1", lambda: mp.mpf(1)), ("-1", lambda: mp.mpf(-1)), ("0", lambda: mp.mpf(0))]


def near_one(rng):
    """a uniform value that differs from one only beyond the digits of a double, as text and number"""
    if rng.random() < 0.25:
        t, f = rng.choice(NEAR)
        return t, f()
    k = rng.randint(20, 34)
    c = rng.choice(["tanh(%d)", "2-tanh(%d)", "-tanh(%d)", "tanh(%d)-2"]) % k
    t = mp.tanh(mp.mpf(k))
    return c, {"t": t, "2": 2 - t, "-": -t}[c[0]] if not c.endswith("-2") else t - 2


def ones(ctx):
    """sums of terms that cancel to what is beyond the digits of a double"""
    rng = ctx.rng
    everything(True)
    n = rng.randint(2, 6)
    k = {"device": "d", "region": "r"}
    sim.line_device("d", n)
    ds.node_solution(name="V", **k)
    terms = {}
    for name, make in (("n", ds.node_model), ("e", ds.edge_model), ("v", ds.edge_model), ("W", ds.node_model), ("C", ds.edge_model), ("A", ds.edge_model), ("B", ds.edge_model), ("cn", ds.node_model), ("ce", ds.edge_model), ("cv", ds.edge_model)):
        t, x = near_one(rng)
        make(name=name, equation=t, **k)
        terms[name] = x
    weights = rng.random() < 0.7
    if weights:
        for p, m in (("node_volume_model", "W"), ("edge_couple_model", "C"), ("edge_node0_volume_model", "A"), ("edge_node1_volume_model", "B")):
            ds.set_parameter(name=p, value=m)
    ds.equation(name="q", variable_name="V", node_model="n", edge_model="e", edge_volume_model="v", **k)
    g = lambda x: terms[x]
    half = mp.mpf(1) / 2
    w = [(g("W") if weights else half * ((i > 0) + (i < n - 1))) for i in range(n)]
    C, A, B = (g("C"), g("A"), g("B")) if weights else (mp.mpf(1), half, half)
    rows = lambda a, e, v: [a * w[i] + (e * C + v * A) * (i < n - 1) + (-e * C + v * B) * (i > 0) for i in range(n)]
    want = rows(g("n"), g("e"), g("v"))
    if rng.random() < 0.5:
        c = rng.choice(["left", "right"])
        ds.contact_equation(device=k["device"], contact=c, name="q", node_model="cn", edge_model="ce", edge_volume_model="cv")
        i = 0 if c == "left" else n - 1
        want[i] = g("cn") * w[i] + (g("ce") * C + g("cv") * A) * (i < n - 1) + (-g("ce") * C + g("cv") * B) * (i > 0)
    got = ds.get_matrix_and_rhs()["static"]["rhs"]
    num = ds.get_equation_numbers(equation="q", **k)
    for i in range(n):
        b = -want[i]
        ctx.check(abs(mp.mpf(got[num[i]]) - b) <= abs(b) * mp.mpf("1.2e-16") + mp.mpf("1e-31"), "fine_ones", "node %d: %r and not %s from %r" % (i, got[num[i]], mp.nstr(b, 25), {a: mp.nstr(x, 30) for a, x in terms.items()}))
        ctx.count("cancelled" if abs(b) < 1e-6 else "not_cancelled")


def run_case(ctx, case):
    sim.reset()
    if case["what"] == "ones":
        for _ in range(6):
            sim.reset()
            ones(ctx)
        ctx.count("ones")
        ctx.distinct("ones", ctx.rng.random())
        return
    rs, rng, what = ctx.np(), ctx.rng, case["what"]
    if what == "models":
        everything(True)
        s = System(ctx, rs, circuit=False, assigned=False, ndev=1)
        spread(ctx, s, rs)
        for d in s.devs.values():
            for reg in d.regions.values():
                for k in range(6):
                    kind = rng.choice(["node", "edge"] + (["element"] if reg.eledges is not None else []))
                    m = s.model(reg, kind, depth=rng.choice([2, 3, 4]), partial=False)
                    with Quad(s):
                        w = s.value(m)
                        g = digits(kind, m.name, **reg.kw())
                        fine(ctx, "model_" + kind, "%s model %s" % (kind, X.text(m.ast)), g, w.v, w.e + np.abs(w.v))
                        for x, (v, e) in w.d.items():
                            fine(ctx, "derivative_" + kind, "derivative by %s of %s" % (x, X.text(m.ast)), digits(kind, "%s:%s" % (m.name, x), **reg.kw()), v, e + np.abs(v))
                    ctx.count("fine_models")
                    ctx.distinct(kind, X.size(m.ast), sorted(X.funcs(m.ast)))
                if rng.random() < 0.5:
                    spread(ctx, s, rs)
        return
    if what == "volumes":
        everything(True)
        m = sim.any_mesh(rs)
        m.build("d")
        for r in m.regions:
            kw = {"device": "d", "region": r}
            pos = [digits("node", k, **kw) for k in "xyz"[:m.dim]]
            e = sim.edges_of("d", r)
            ln = np.array([mp.sqrt(sum((p[a] - p[b]) ** 2 for p in pos)) for a, b in e], dtype=object)
            fine(ctx, "length", "EdgeLength", digits("edge", "EdgeLength", **kw), ln, ln)
            fine(ctx, "inverse_length", "EdgeInverseLength", digits("edge", "EdgeInverseLength", **kw), 1 / ln, 1 / ln)
            for k in range(m.dim):
                u = (pos[k][e[:, 1]] - pos[k][e[:, 0]]) / ln
                fine(ctx, "unit", "unit" + "xyz"[k], digits("edge", "unit" + "xyz"[k], **kw), u, np.abs(pos[k][e[:, 1]] / ln) + 1)
            if m.dim == 1:
                el = e
            else:
                el = np.array(ds.get_element_node_list(device="d", region=r))
            tot, mag = mp.mpf(0), mp.mpf(0)
            for q in el:
                M = mp.matrix(m.dim, m.dim)
                for i in range(m.dim):
                    for k in range(m.dim):
                        M[i, k] = pos[k][q[i + 1]] - pos[k][q[0]]
                tot += abs(mp.det(M)) / mp.factorial(m.dim)
                mag += mp.mpf(1)
            vol = sum(digits("node", "NodeVolume", **kw))
            # the pieces of an obtuse element beyond the surface are no volume (C06)
            if abs(vol - tot) > 1e-9 * tot:
                ctx.count("obtuse")
                continue
            scale = sum(abs(x) for x in digits("node", "NodeVolume", **kw)) * 1e3
            fine(ctx, "volume", "sum of NodeVolume", [vol], [tot], [scale])
            ctx.count("volumes")
        return
    if what == "storage":
        storage(ctx, rs)
        return
    if what == "assembly":
        switch(ctx)
        s = mixed(System)(ctx, rs)
        s.add_equations()
        for k in range(3):
            assembly.compare_ready = True
            fmt = rng.choice(["csc", "csr"])
            ds.get_matrix_and_rhs(format=fmt)
            assembly.values(ctx, s, rs)
            assembly.compare(ctx, s, fmt, "mixed precisions")
            switch(ctx)
            for d in s.devs.values():
                for reg in d.regions.values():
                    if rng.random() < 0.5 and reg.eqs:
                        eq = rng.choice(list(reg.eqs))
                        s.equation(reg, reg.eqs[eq]["var"], eq)
                        ctx.count("replaced")
        return
    if what == "fine_assembly":
        everything(True)
        s = System(ctx, rs, circuit=False, assigned=False)
        s.add_equations()
        ds.get_matrix_and_rhs()
        s.number()
        spread(ctx, s, rs)
        g = ds.get_matrix_and_rhs(format="csc")
        from vlib.system import dense
        with Quad(s):
            want, _, _ = s.assemble()
            for t, w in want.items():
                J = dense("csc", g[t], s.n)
                near = lambda a: np.abs(a) * 1.2e-16 + 1e-300
                for key, a, b, e in (("rhs", np.array(g[t]["rhs"]), -w.R, w.RE), ("matrix", J, w.J, w.JE)):
                    a, b, e = (np.ravel(np.asarray(z, dtype=object)) for z in (a, b, e))
                    ctx.count("rounded_values", len(a))
                    for i in range(len(a)):
                        if not abs(mp.mpf(float(a[i])) - b[i]) <= abs(b[i]) * mp.mpf("1.2e-16") + mp.mpf("1e-27") * e[i] + mp.mpf("1e-300"):
                            ctx.violation("fine_" + key, "%s %s: [%d] is %r, expected %s" % (t, key, i, float(a[i]), mp.nstr(b[i], 25)))
                            break
        ctx.count("fine_systems")
        return
    if what == "fine_solve":
        everything(True)
        s = Solvable(ctx, rs, complete=rng.random() < 0.5, circuit=False, updates=("default", "default", "log_damp"))
        s.add_equations()
        newton.number(s)
        s.put(rs.uniform(-0.5, 0.5, s.n))
        if not tight(ctx, s, "dc"):
            raise Skip()
        residual(ctx, s, "dc")
        x = s.state()
        # the double result agrees
        c = np.linalg.cond(s.assemble_at(x)[0]["static"].J)
        if not 1e-15 * c * np.abs(x).max() < 1e-9 * (np.abs(x).min() + 1e-10):
            # rounding alone is above the errors asked for
            ctx.count("ill")
            return
        for k in range(2):
            switch(ctx, SWITCHES[2:])
            ds.solve(type="dc", absolute_error=1e-8, relative_error=1e-8, maximum_iterations=60)
            ctx.count("agreements")
            ctx.close(s.state(), x, "agree", "solution with and without the extended solver", rtol=1e-8, atol=1e-12 * c)
        return
    if what == "fine_steps":
        everything(True)
        s = Solvable(ctx, rs, complete=rng.random() < 0.5, circuit=False, updates=("default",))
        s.add_equations()
        newton.number(s)
        s.put(rs.uniform(-0.5, 0.5, s.n))
        if not tight(ctx, s, "transient_dc"):
            raise Skip()
        with Quad(s):
            acc = s.assemble()[0]
        hist = transient.History()
        hist.begin(acc["static"].R, acc["dynamic"].R)
        for k in range(3):
            transient.drive(ctx, s, rs)
            typ, h, g = transient.step_args(rng, hist, 1.0)
            if not tight(ctx, s, typ, tdelta=h, gamma=g, charge_error=1e30):
                ctx.count("not_converged")
                break
            h, g = mp.mpf(float(h)), mp.mpf(float(g))
            a0, const, _ = transient.method(typ, h, g, hist)
            with Quad(s):
                acc = s.assemble()[0]
            F, Q = acc["static"], acc["dynamic"]
            fine(ctx, "step", "residual of a %s step" % typ, F.R + a0 * Q.R + const, 0 * F.R, F.RE + abs(a0) * (Q.RE + np.abs(Q.R)) + np.abs(const) + np.abs(F.J).sum(axis=1) + np.abs(a0 * Q.J).sum(axis=1), rel=mp.mpf("1e-20"))
            hist.step(F.R, Q.R)
            ctx.count("fine_steps")
        return
    if what == "newton":
        switch(ctx)
        s = mixed(Solvable)(ctx, rs, complete=rng.random() < 0.5, circuit=rng.random() < 0.4, ndev=rng.choice([1, 1, 2]), updates=("default", "log_damp", "positive"), tie=0.7)
        s.add_equations()
        newton.number(s)
        pos = any(b[3] == "positive" for b in s.blocks())
        for k in range(3):
            switch(ctx)
            x0 = newton.start(ctx, s, rs, positive=pos, amp=1.0)
            newton.follow(ctx, s, x0, newton.limits(rng, rs) if rng.random() < 0.5 else {"absolute_error": 1e-6, "relative_error": 1e-4, "maximum_iterations": 40}, 1e-6)
        return
    if what == "transient":
        switch(ctx)
        s = mixed(Solvable)(ctx, rs, complete=rng.random() < 0.5, circuit=rng.random() < 0.4, updates=("default",), tie=0.7)
        s.add_equations()
        newton.number(s)
        hist = transient.begin(ctx, s, rs)
        for k in range(4):
            if rng.random() < 0.5:
                switch(ctx, SWITCHES[2:])
            transient.steps(ctx, s, rs, hist, 1, reject=rng.random() < 0.3)
        return
    if what == "ac":
        switch(ctx)
        s = mixed(smallsignal.Problem)(ctx, rs, complete=rng.random() < 0.4, circuit=True, updates=("default",), tie=0.9)
        s.add_equations()
        newton.number(s)
        for k in range(4):
            switch(ctx)
            s.put(rs.uniform(-0.8, 0.8, s.n))
            f = smallsignal.frequency(rng)
            if rng.random() < 0.5:
                smallsignal.ac(ctx, s, f)
            else:
                smallsignal.noise(ctx, s, rng.choice(sorted(s.ccol)), f)
        return
    if what == "terminals":
        switch(ctx)
        s = mixed(Solvable)(ctx, rs, complete=True, circuit=rng.random() < 0.5, updates=("default",), tie=0.7)
        s.add_equations()
        newton.number(s)
        for k in range(2):
            switch(ctx)
            s.put(rs.uniform(-0.5, 0.5, s.n))
            terminals.solve(ctx, s)
            terminals.balance(ctx, s, "mixed precisions")
        return
    raise KeyError(what)


def tight(ctx, s, typ, **kw):
    """a solve to more digits than a double has"""
    lim = dict(absolute_error=1e-26, relative_error=1e-24)
    try:
        ds.solve(type=typ, maximum_iterations=80, **lim, **kw)
    except ds.error as e:
        # an error is a convergence failure: a nearby double precision solve fails as well
        ctx.count("not_converged")
        try:
            ds.solve(type=typ, maximum_iterations=60, absolute_error=1e-8, relative_error=1e-6, **kw)
        except ds.error:
            return False
        J = s.assemble_at(s.state())[0]["static"].J
        if not np.linalg.cond(J / np.abs(J).sum(axis=1)[:, None]) < 1e8:
            ctx.count("ill_conditioned")
            return False
        ctx.violation("tight", "%s: the extended solver reaches 1e-6 and not 1e-24: %s" % (typ, e))
        return False
    ctx.count("tight_solves")
    return True


def residual(ctx, s, typ):
    with Quad(s):
        a = s.assemble()[0]["static"]
    fine(ctx, "residual", "residual of a %s solution" % typ, a.R, 0 * a.R, a.RE + np.abs(a.J).sum(axis=1), rel=mp.mpf("1e-20"))
    ctx.count("fine_solutions")


def storage(ctx, rs):
    """values given and taken keep their digits through either precision"""
    rng = ctx.rng
    n = rng.randint(4, 12)
    sim.line_device("d", n)
    kw = {"device": "d", "region": "r"}
    reg = ds.get_region_list(device="d")[0]
    kw["region"] = reg
    n = len(ds.get_node_model_values(name="x", **kw))
    ne = len(ds.get_edge_model_values(name="EdgeLength", **kw))
    kinds = {"node": (n, ds.node_solution, ds.set_node_values, ds.get_node_model_values, ds.node_model), "edge": (ne, ds.edge_solution, ds.set_edge_values, ds.get_edge_model_values, ds.edge_model)}
    ext = {}
    for k in range(8):
        on = rng.random() < 0.5
        ds.set_parameter(name="extended_model", value=on)
        kind = rng.choice(sorted(kinds))
        m, sol, put, get, model = kinds[kind]
        v = [float(x) for x in rs.uniform(-1, 1, m) * 10.0 ** rs.randint(-300, 300)] if rng.random() < 0.7 else [float(rs.uniform(-1, 1))] * m
        name = "s%d" % k
        sol(name=name, **kw)
        put(name=name, values=v, **kw)
        ext[kind, name] = on
        ctx.check(list(get(name=name, **kw)) == v, "storage", "%s values set and read differ (extended %s)" % (kind, on))
        model(name="c%d" % k, equation=name, **kw)
        ctx.check(list(get(name="c%d" % k, **kw)) == v, "copy", "a model of a %s value differs from it (extended %s)" % (kind, on))
        # a copy into a solution of the other precision
        if kind == "node":
            ds.set_parameter(name="extended_model", value=not on)
            sol(name=name + "o", **kw)
            put(name=name + "o", init_from=name, **kw)
            ctx.check(list(get(name=name + "o", **kw)) == v, "init_from", "a copied node value differs (extended %s to %s)" % (on, not on))
            i = rng.randrange(m)
            ds.set_node_value(name=name, index=i, value=0.1, **kw)
            w = list(v)
            w[i] = 0.1
            ctx.check(list(get(name=name, **kw)) == w, "set_node_value", "set_node_value (extended %s)" % on)
            ctx.check(list(get(name="c%d" % k, **kw)) == w, "follow", "a model did not follow set_node_value (extended %s)" % on)
        # a third that is exact in extended precision only
        ds.set_parameter(name="extended_model", value=on)
        sol(name="w%d" % k, **kw)
        put(name="w%d" % k, values=[float(rng.randint(1, 9)) for _ in range(m)], **kw)
        model(name="t%d" % k, equation="w%d/3" % k, **kw)
        later = rng.random() < 0.5
        ds.set_parameter(name="extended_model", value=later)
        model(name="u%d" % k, equation="t%d*3-w%d" % (k, k), **kw)
        u = get(name="u%d" % k, **kw)
        ctx.check(all(abs(x) < (1e-30 if on and later else 4e-15) for x in u), "third", "w/3*3-w = %r (extended %s, then %s)" % (u[0], on, later))
        if not on:
            # a third of a double is not one
            ctx.count("coarse", sum(1 for x in u if x))
        ctx.count("stored")
    ctx.distinct("storage", tuple(sorted(ext.values())))
