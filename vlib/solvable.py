"""Well posed random problems: diffusion, drift and reaction of up to three unknowns, tied to a circuit; and Newton's method
as documented, on the independent assembly of System."""
import numpy as np
import devsim as ds
from vlib import expr as X
from vlib.system import System, Model, Reg

N = lambda c: ("n", float(c))
V = lambda k: ("v", k)


def add(*a):
    return a[0] if len(a) == 1 else ("+",) + a


def mul(*a):
    return ("*",) + a


def sub(a, b):
    return ("+", a, ("neg", b))


class Solvable(System):
    """complete: the current models of a contact hold all of its bulk equation, so that currents balance"""

    def __init__(self, ctx, rs, complete=True, circuit=True, nonlinear=True, updates=("default",), time=True, element=True, tie=0.6, hard=False, interface=("continuous", "fluxterm", "hybrid"), **kw):
        self.complete, self.nonlinear, self.time, self.element, self.tie, self.hard, self.itypes = complete, nonlinear, time, element, tie, hard, interface
        System.__init__(self, ctx, rs, circuit=circuit, nested=False, assigned=False, updates=updates, **kw)

    def r(self, lo, hi):
        return float(np.round(self.rs.uniform(lo, hi), 3))

    # ---------------------------------------------------------------- circuit
    def make_circuit(self):
        rs, el = self.rs, []
        n = rs.randint(1, 4)
        self.nodes, self.terminals = [], []
        for i in range(n):
            src, t = "s%d" % i, "k%d" % i
            el.append(("Vs%d" % i, src, "0", self.r(-1.5, 1.5)))
            self.nodes += [src, t]
            self.terminals.append(t)
            if rs.rand() < 0.3:
                self.nodes.append("m%d" % i)
                el.append(("L%d" % i, src, "m%d" % i, self.r(0.1, 2)))
                src = "m%d" % i
            el.append(("R%d" % i, src, t, self.r(0.1, 3)))
            if rs.rand() < 0.4:
                el.append(("C%d" % i, t, "0", self.r(0.1, 2)))
            if rs.rand() < 0.3:
                el.append(("I%d" % i, t, "0", self.r(-1, 1)))
            if i and rs.rand() < 0.4:
                el.append(("Rx%d" % i, t, "k%d" % (i - 1), self.r(0.5, 3)))
        rs.shuffle(el)
        el = [tuple(e[:3]) + (float(e[3]),) for e in el]
        for name, a, b, v in el:
            ds.circuit_element(name=name, n1=a, n2=b, value=v)
        self.elements = el

    # ---------------------------------------------------------------- models
    def ast_model(self, reg, kind, ast, circuit=False, name=None):
        e = self.env(reg, kind, circuit)
        lv = self.leaves(reg, kind, circuit)
        of = {lv[k][1] for k in X.evaluate(ast, e).d if k in lv}
        # all derivative models of a variable exist
        ders = sorted(k for k, (_, x) in lv.items() if x in of)
        m = Model(kind, name or self.fresh({"node": "n", "edge": "e", "element": "t"}[kind]), ast, ders, reg)
        m.inner = False
        self.define(reg, m)
        reg.models[m.name] = m
        return m

    def add_equations(self):
        for d in self.devs.values():
            self.pars[d.name] = {}
            for c in d.contacts:
                self.pars[d.name]["b_" + c] = self.r(-1, 1)
                ds.set_parameter(device=d.name, name="b_" + c, value=self.pars[d.name]["b_" + c])
            allvars = {v for reg in d.regions.values() for v in reg.vars}
            for reg in d.regions.values():
                for v in reg.vars:
                    self.bulk(reg, v)
            for c in d.contacts:
                for eq in list(d.regions[d.contacts[c]["region"]].eqs):
                    self.terminal(d, c, eq)
            for i, s in d.interfaces.items():
                a, b = d.regions[s["r0"]], d.regions[s["r1"]]
                for v in allvars:
                    e0 = [e for e, q in a.eqs.items() if q["var"] == v]
                    e1 = [e for e, q in b.eqs.items() if q["var"] == v]
                    if e0 and e1:
                        self.couple(d, i, v, e0[0], e1[0])

    def bulk(self, reg, v):
        rng = self.rng
        name = "%sq%s" % (rng.choice(["E", "z"]), v)
        others = [w for w in reg.vars if w != v]
        a, b, il = V(v + "@n0"), V(v + "@n1"), V("EdgeInverseLength")
        spec = {"var": v, "update": rng.choice(list(self.updates))}
        form = rng.choice(["plain", "mobility", "drift"]) if self.nonlinear else "plain"
        c = N(self.r(0.2, 3))
        if form == "plain":
            flux = mul(c, sub(a, b), il)
        elif form == "mobility":
            flux = mul(add(c, mul(N(self.r(0.05, 0.5)), add(("^", a, 2), ("^", b, 2)))), sub(a, b), il)
        else:
            w = rng.choice(others) if others else v
            f = mul(N(self.r(0.2, 1.5)), sub(V(w + "@n0"), V(w + "@n1"))) if others else N(self.r(-1.5, 1.5))
            flux = mul(c, sub(mul(("f", "B", f), a), mul(("f", "B", ("neg", f)), b)), il)
        spec["edge_model"] = self.ast_model(reg, "edge", flux)
        x = V(v)
        reac = mul(N(self.r(0.1, 2)), x)
        if self.nonlinear:
            # monotone
            if rng.random() < 0.6:
                reac = add(reac, mul(N(self.r(0.1, 1)), ("^", x, 3)))
            if rng.random() < 0.3:
                reac = add(reac, mul(N(self.r(0.1, 0.5)), ("f", "sinh", x)))
            if others and rng.random() < 0.5:
                reac = add(reac, mul(N(self.r(-0.3, 0.3)), ("f", "tanh", V(rng.choice(others)))))
        reac = add(reac, mul(N(self.r(-1, 1)), V("x")), N(self.r(-0.5, 0.5)))
        if rng.random() < 0.8:
            spec["node_model"] = self.ast_model(reg, "node", reac)
        if self.element and reg.eledges is not None and rng.random() < 0.3:
            spec["element_model"] = self.ast_model(reg, "element", mul(N(self.r(0.1, 0.5)), sub(V(v + "@en0"), V(v + "@en1"))))
        if not self.complete:
            if rng.random() < 0.4:
                spec["edge_volume_model"] = self.ast_model(reg, "edge", mul(N(self.r(0.05, 0.3)), add(a, b)))
            if self.element and reg.eledges is not None and rng.random() < 0.3:
                k = rng.choice([0, 1])
                for j in ([0, 1] if rng.random() < 0.7 else [k]):
                    spec["volume_node%d_model" % j] = self.ast_model(reg, "element", mul(N(self.r(0.05, 0.3)), V("%s@en%d" % (v, j))))
        if self.time and (rng.random() < 0.8):
            q = mul(N(self.r(0.2, 2)), x)
            if self.nonlinear and rng.random() < 0.5:
                q = add(q, mul(N(self.r(0.05, 0.4)), ("^", x, 3)))
            spec["time_node_model"] = self.ast_model(reg, "node", q)
        ds.equation(name=name, variable_name=v, variable_update=spec["update"], **{k: m.name for k, m in spec.items() if isinstance(m, Model)}, **reg.kw())
        for k in spec:
            self.ctx.count("bulk_" + k)
        reg.eqs[name] = spec

    def terminal(self, d, c, eq):
        rng, s = self.rng, d.contacts[c]
        reg = d.regions[s["region"]]
        bulk = reg.eqs[eq]
        v = bulk["var"]
        if v != "V" and rng.random() < 0.25:
            return
        cn = rng.choice(self.terminals) if self.nodes and rng.random() < self.tie else None
        to = V(cn) if cn and rng.random() < 0.85 else V("b_" + c)
        spec = {"node_model": self.ast_model(reg, "node", mul(N(self.r(0.5, 2)), sub(V(v), to)), circuit=bool(cn))}
        for t, u in (("edge_model", "edge_current_model"), ("node_model", "node_current_model"), ("element_model", "element_current_model"), ("time_node_model", "node_charge_model")):
            if t in bulk:
                spec[u] = bulk[t]
        kw = {k: m.name for k, m in spec.items()}
        if cn:
            spec["circuit_node"] = kw["circuit_node"] = cn
            self.ctx.count("tied")
        ds.contact_equation(device=d.name, contact=c, name=eq, **kw)
        s["eqs"][eq] = spec

    def couple(self, d, i, v, e0, e1):
        rng, s = self.rng, d.interfaces[i]
        typ = rng.choice(self.itypes)
        k = self.r(0.5, 3)
        ast = mul(N(k), sub(V(v + "@r0"), V(v + "@r1")))
        ders = [v + "@r0", v + "@r1"]
        m = Model("interface", self.fresh("f"), ast, ders, None)
        t = X.text(ast, self.rng)
        ds.interface_model(device=d.name, interface=i, name=m.name, equation=t)
        ds.interface_model(device=d.name, interface=i, name="%s:%s" % (m.name, ders[0]), equation=repr(k))
        ds.interface_model(device=d.name, interface=i, name="%s:%s" % (m.name, ders[1]), equation=repr(-k))
        s["models"][m.name] = m
        name = self.fresh("iq")
        ds.interface_equation(device=d.name, interface=i, name=name, name0=e0, name1=e1, interface_model=m.name, type=typ)
        s["eqs"][name] = {"type": typ, "model": m, "name0": e0, "name1": e1}
        self.ctx.count("interface_" + typ)

    # ---------------------------------------------------------------- Newton's method
    def blocks(self):
        """[(device, region, equation, update, rows)] in the order they are reported"""
        return [(d, r, eq, self.devs[d].regions[r].eqs[eq]["update"], self.cols[d, r, self.devs[d].regions[r].eqs[eq]["var"]])
                for d in sorted(self.devs) for r in sorted(self.devs[d].regions) for eq in sorted(self.devs[d].regions[r].eqs)]

    def newton(self, x0, abs_err, rel_err, max_err=1e300, max_iter=20, max_div=20, a0=0.0, b0=1.0, const=None):
        """what the documented method does from x0: dict with converged, iterations, x, certain (False when a decision depends on rounding), reason"""
        x = np.array(x0)
        out = {"iterations": [], "converged": False, "certain": True, "reason": "iterations"}
        blocks = self.blocks()
        div, last = 0, (0.0, 0.0)

        # a neighbour of the start, to see how far rounding errors grow
        xp = x0 * (1 + 1e-13 * (1 - 2 * (np.arange(len(x0)) % 2)))

        def follow(x):
            try:
                acc, _, _ = self.assemble_at(x)
                R, J = b0 * acc["static"].R, b0 * acc["static"].J
                if a0:
                    R, J = R + a0 * acc["dynamic"].R, J + a0 * acc["dynamic"].J
                if const is not None:
                    R = R + const
                u = np.linalg.solve(J, -R)
            except Exception:
                return x * np.nan
            for d, r, eq, upd, rows in blocks:
                if upd == "log_damp":
                    u[rows] = np.where(np.abs(u[rows]) > 0.0259, np.sign(u[rows]) * 0.0259 * np.log1p(np.abs(u[rows]) / 0.0259), u[rows])
                elif upd == "positive":
                    u[rows] = np.where(x[rows] + u[rows] <= 0, -0.999 * x[rows], u[rows])
            return x + u

        def lt(a, b, noise):
            if abs(a - b) <= 1e-6 * abs(b) + noise:
                out["certain"] = False
            return a < b
        while len(out["iterations"]) < max_iter and not out["converged"] and div < max_div:
            acc, _, _ = self.assemble_at(x)
            R, J = b0 * acc["static"].R, b0 * acc["static"].J
            if a0:
                R, J = R + a0 * acc["dynamic"].R, J + a0 * acc["dynamic"].J
            if const is not None:
                R = R + const
            out["R"] = R
            if not np.isfinite(R).all() or not np.isfinite(J).all():
                out["reason"] = "nan"
                break
            cond = np.linalg.cond(J)
            if not cond < 1e10:
                out.update(reason="singular", certain=False)
                break
            dx = np.linalg.solve(J, -R)
            # accuracy of the update
            noise = 1e-15 * cond * max(1.0, np.abs(x).max(), np.abs(dx).max())
            with np.errstate(all="ignore"):
                before, xp = x.copy(), follow(xp)
                drift = 100 * np.abs(xp - follow(before)).max()
            if not drift < 1e-3 * max(1.0, np.abs(x).max()):
                out.update(certain=False, reason="chaotic")
                break
            noise += drift
            it = {"devices": {}, "noise": noise}
            for d, r, eq, upd, rows in blocks:
                u = dx[rows].copy()
                if upd == "log_damp":
                    big = np.abs(u) > 0.0259
                    u = np.where(big, np.sign(u) * 0.0259 * np.log1p(np.abs(u) / 0.0259), u)
                elif upd == "positive":
                    if (x[rows] <= 0).any():
                        out["reason"] = "nonpositive"
                        return out
                    bad = x[rows] + u <= 0
                    if (np.abs(x[rows] + u) < noise).any():
                        out["certain"] = False
                    u = np.where(bad, -0.999 * x[rows], u)
                x[rows] = x[rows] + u
                n1 = np.abs(u)
                rel = n1 / (np.abs(x[rows]) + 1e-10)
                # of the relative error
                rn = np.max((noise + noise * rel) / (np.abs(x[rows]) + 1e-10))
                it["devices"].setdefault(d, {}).setdefault(r, []).append((eq, float(n1.max()), float(rel.max()), n1, rel, float(rn)))
            cdx = np.array([dx[c] for c in self.ccol.values()])
            for k, c in self.ccol.items():
                x[c] += dx[c]
            conv, hit, mr, ma = True, False, 0.0, 0.0
            rnoise = 0.0
            for d, regs in it["devices"].items():
                rr = sum(e[2] for q in regs.values() for e in q)
                aa = max(sum(e[1] for e in q) for q in regs.values())
                rn = sum(e[5] for q in regs.values() for e in q)
                rnoise = max(rnoise, rn)
                mr, ma = max(mr, rr), max(ma, aa)
                conv = lt(rr, rel_err, rn) & lt(aa, abs_err, noise * 10) & conv
                hit = hit or not lt(aa, max_err, noise * 10)
                it["devices"][d] = {"rel": rr, "abs": aa, "regions": regs, "rnoise": rn}
            dv = False
            for v, lim, l, nz in ((mr, rel_err, last[0], rnoise), (ma, abs_err, last[1], noise * 10)):
                dv = dv or (not lt(v, lim, nz) and not lt(v, l, nz))
            div = div + 1 if dv else 0
            last = (mr, ma)
            if len(cdx):
                aa = float(np.abs(cdx).sum())
                cx = np.array([x[c] for c in self.ccol.values()])
                rel = np.abs(cdx) / (np.abs(cx) + 1e-10)
                rn = np.max((noise + noise * rel) / (np.abs(cx) + 1e-10))
                conv = lt(float(rel.max()), rel_err, rn) & lt(aa, abs_err, noise * 10 * len(cdx)) & conv
                hit = hit or not lt(aa, max_err, noise * 10)
                it["circuit"] = (aa, float(rel.max()), float(rn))
            out["iterations"].append(it)
            out["converged"] = bool(conv)
            if hit and not conv:
                out["reason"] = "maximum_error"
                break
        if div >= max_div and not out["converged"]:
            out["reason"] = "divergence"
        out["x"] = x
        return out
