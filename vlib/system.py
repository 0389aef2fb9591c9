"""A random system of equations on random devices and a circuit, and an independent assembly of it.

The right hand side R(x) and its derivative are formed from the definition of the equations (finite volume sums over nodes,
edges and element edges), with a bound of the rounding error of every entry."""
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.expr import D, EPS

SAFE = ["exp", "tanh", "B", "erf", "asinh"]
GETTERS = {"node": "get_node_model_values", "edge": "get_edge_model_values", "element": "get_element_model_values"}


class Reg:
    def __init__(self, dev, name, material):
        self.dev, self.name, self.material = dev, name, material
        self.vars, self.eqs, self.models, self.params = [], {}, {}, {}
        self.over = {}  # values of solution variables to use in place of the simulator's
        self.weights = {"node_volume_model": "NodeVolume", "edge_couple_model": "EdgeCouple", "element_edge_couple_model": "ElementEdgeCouple",
                        "edge_node0_volume_model": "EdgeNodeVolume", "edge_node1_volume_model": "EdgeNodeVolume",
                        "element_node0_volume_model": "ElementNodeVolume", "element_node1_volume_model": "ElementNodeVolume"}

    def kw(self):
        return {"device": self.dev.name, "region": self.name}

    def get(self, kind, name):
        if kind == "node" and name in self.over:
            return self.over[name]
        if X.F is object:
            return self.dev.digits(self, kind, name)
        return np.array(getattr(ds, GETTERS[kind])(name=name, **self.kw()), dtype=float)

    def load(self):
        d = self.dev
        self.pos = sim.nodes_of(d.name, self.name)
        self.n = len(self.pos)
        self.edges = sim.edges_of(d.name, self.name)
        self.eledges = sim.element_edges_of(d.name, self.name, d.dim) if d.dim > 1 else None
        at = {tuple(p): i for i, p in enumerate(np.round(self.pos, 12).tolist())}
        m = d.mesh
        self.at = {int(g): at[tuple(np.round(m.coords[g], 12).tolist())] for g in m.region_nodes(self.name)}
        self.count = {"node": self.n, "edge": len(self.edges), "element": 0 if self.eledges is None else len(self.eledges)}

    def weight(self, name):
        kind = "node" if name == "node_volume_model" else "element" if name.startswith("element") else "edge"
        return self.get(kind, self.weights[name])

    def var_of(self, eq):
        return self.eqs[eq]["var"]


class Dev:
    def __init__(self, name, mesh):
        self.name, self.mesh, self.dim = name, mesh, mesh.dim
        self.regions, self.contacts, self.interfaces = {}, {}, {}


class Model:
    """kind: node edge element interface; ast (None when its values are assigned); ders: leaves whose derivative model exists"""

    def __init__(self, kind, name, ast, ders, host):
        self.kind, self.name, self.ast, self.ders, self.host = kind, name, ast, ders, host


class System:
    def __init__(self, ctx, rs, style="any", ndev=1, dim=None, nreg=None, circuit=None, maxvars=3, kinds=("node", "edge", "element"), nested=True, assigned=True, kind=None, updates=("default", "default", "log_damp", "positive"), made=0.0):
        self.ctx, self.rng, self.rs, self.style = ctx, ctx.rng, rs, style
        self.devs, self.circuit, self.custom = {}, None, {}
        self.cover = None  # circuit values to use in place of the simulator's
        self.pars = {}  # device -> parameters that models refer to
        self.updates = updates
        self.nm, self.kinds, self.nested, self.assigned = 0, kinds, nested, assigned
        for i in range(ndev):
            mesh = sim.any_mesh(rs, dim, nreg, kind=kind)
            name = ["d%d", "z%d", "Q%d"][rs.randint(3)] % i
            d = Dev(name, mesh)
            self.extra_contacts(mesh)
            mesh.build(name)
            for r, (mat, _) in mesh.regions.items():
                d.regions[r] = Reg(d, r, mat)
                d.regions[r].load()
                reg = d.regions[r]
                for v in ["V", "W", "U"][:rs.randint(1, maxvars + 1)]:
                    self.variable(reg, v)
            for c, (r, f) in mesh.contacts.items():
                d.contacts[c] = {"region": r, "nodes": sorted({d.regions[r].at[int(g)] for g in np.unique(f)}), "eqs": {}}
            for i2, (a, b, f) in mesh.interfaces.items():
                d.interfaces[i2] = {"r0": a, "r1": b, "eqs": {}, "models": {}}
                ds.interface_model(device=name, interface=i2, name="order0", equation="node_index@r0")
                ds.interface_model(device=name, interface=i2, name="order1", equation="node_index@r1")
                for k in (0, 1):
                    d.interfaces[i2]["n%d" % k] = np.round(np.array(ds.get_interface_model_values(device=name, interface=i2, name="order%d" % k))).astype(int)
            if made and rs.rand() < made:
                self.made_interface(d)
            if made and rs.rand() < made and d.interfaces:
                self.made_contact(d)
            self.devs[name] = d
        if circuit is None:
            circuit = rs.rand() < 0.5
        self.nodes, self.elements = [], []
        if circuit:
            self.make_circuit()

    # ---------------------------------------------------------------- devices
    def extra_contacts(self, m):
        rs = self.rs
        if m.dim == 1 or rs.rand() < 0.4:
            return
        for k in range(rs.randint(1, 3)):
            r = list(m.regions)[rs.randint(len(m.regions))]
            f = m.boundary_faces(r)
            taken = {tuple(sorted(x)) for c, (_, y) in m.contacts.items() for x in y.tolist()} | {tuple(sorted(x)) for _, _, y in m.interfaces.values() for x in y.tolist()}
            f = np.array([x for x in f.tolist() if tuple(x) not in taken])
            if not len(f):
                continue
            # a connected patch around one boundary node, often one that another contact has as well
            cand = np.unique(f)
            have = np.unique(np.concatenate([np.ravel(y) for c, (q, y) in m.contacts.items() if q == r] or [np.array([], int)]))
            shared = np.intersect1d(cand, have)
            v = shared[rs.randint(len(shared))] if len(shared) and rs.rand() < 0.75 else cand[rs.randint(len(cand))]
            part = f[(f == v).any(axis=1)]
            m.contacts[["a%d", "x%d"][rs.randint(2)] % k] = (r, part)

    def made_interface(self, d):
        """pairs any nodes of two regions, or of one, in any order"""
        rs = self.rs
        names = [list(d.regions)[i] for i in rs.permutation(len(d.regions))[:2]]
        n = [d.regions[r].n for r in names]
        if rs.rand() < 0.25 or len(names) == 1:
            names = [names[0]] * 2
            p = rs.permutation(n[0])
            k = int(rs.randint(1, n[0] // 2 + 1))
            pairs = [p[:k], p[k:2 * k]]
            self.ctx.count("made_within_region")
        else:
            k = int(rs.randint(1, min(n) + 1))
            pairs = [rs.permutation(x)[:k] for x in n]
        ds.create_interface_from_nodes(device=d.name, name="made", region0=names[0], region1=names[1], nodes0=[int(x) for x in pairs[0]], nodes1=[int(x) for x in pairs[1]])
        d.interfaces["made"] = {"r0": names[0], "r1": names[1], "eqs": {}, "models": {}, "n0": pairs[0], "n1": pairs[1]}
        self.ctx.count("made_interfaces")

    def made_contact(self, d):
        i = list(d.interfaces)[self.rs.randint(len(d.interfaces))]
        k = self.rs.randint(2)
        if d.interfaces[i]["r0"] == d.interfaces[i]["r1"]:
            k = 0
        r = d.interfaces[i]["r%d" % k]
        ds.create_contact_from_interface(device=d.name, region=r, interface=i, name="cmade", material="metal")
        d.contacts["cmade"] = {"region": r, "nodes": sorted(int(x) for x in d.interfaces[i]["n%d" % k]), "eqs": {}}
        self.ctx.count("made_contacts")

    def variable(self, reg, v):
        ds.node_solution(name=v, **reg.kw())
        lo, hi = (-1.0, 1.0)
        ds.set_node_values(name=v, values=[float(x) for x in self.rs.uniform(lo, hi, reg.n)], **reg.kw())
        ds.edge_from_node_model(node_model=v, **reg.kw())
        if reg.eledges is not None:
            ds.element_from_node_model(node_model=v, **reg.kw())
        reg.vars.append(v)

    # ---------------------------------------------------------------- circuit
    def make_circuit(self):
        rs, el = self.rs, []
        n = rs.randint(1, 4)
        self.nodes = ["k%d" % i for i in range(n)]
        val = lambda: float(np.round(0.2 + 2 * rs.rand(), 4))
        for i in range(n):
            el.append(("R%d" % i, self.nodes[i], "0" if rs.rand() < 0.6 or n == 1 else self.nodes[(i + 1) % n], val()))
        for i in range(rs.randint(0, 4)):
            t = "RCLVI"[rs.randint(5)]
            a, b = self.nodes[rs.randint(n)], (["0"] + self.nodes)[rs.randint(n + 1)]
            el.append(("%sx%d" % (t, i), a, b, val()))
        for name, a, b, v in el:
            ds.circuit_element(name=name, n1=a, n2=b, value=v)
        self.elements = el

    def circuit_nodes(self):
        return list(self.nodes) + [e[0] + ".I" for e in self.elements if e[0][0] in "LV"]

    def circuit_values(self):
        return {k: float(ds.get_circuit_node_value(solution="dcop", node=k)) for k in self.circuit_nodes()}

    # ---------------------------------------------------------------- models
    def fresh(self, p):
        self.nm += 1
        return "%s%d" % (p, self.nm)

    def leaves(self, reg, kind, circuit=False):
        """name -> (array, derivative leaf?)"""
        out = {}
        if kind == "node":
            for v in reg.vars:
                out[v] = (reg.get("node", v), v)
            out["x"] = (reg.pos[:, 0], None)
            if circuit:
                for k in self.nodes:
                    out[k] = (np.array(self.cvals().get(k, 0.0)), k)
            for k, p in self.pars.get(reg.dev.name, {}).items():
                out[k] = (np.array(p), None)
        elif kind == "edge":
            for v in reg.vars:
                x = reg.get("node", v)
                for k in (0, 1):
                    out["%s@n%d" % (v, k)] = (x[reg.edges[:, k]], v)
            out["EdgeInverseLength"] = (reg.get("edge", "EdgeInverseLength"), None)
        elif kind == "element":
            for v in reg.vars:
                x = reg.get("node", v)
                for k in range(reg.eledges.shape[1]):
                    out["%s@en%d" % (v, k)] = (x[reg.eledges[:, k]], v)
            out["ElementEdgeCouple"] = (reg.get("element", "ElementEdgeCouple"), None)
        return out

    def cvals(self):
        if not self.nodes:
            return {}
        if self.cover is not None:
            return self.cover
        try:
            return self.circuit_values()
        except ds.error:
            return {k: 0.0 for k in self.circuit_nodes()}

    def env(self, reg, kind, circuit=False):
        e = {}
        for k, (v, der) in self.leaves(reg, kind, circuit).items():
            e[k] = X.var(k, v) if der else D(v)
        for m in reg.models.values():
            if m.kind == kind and m.ast is not None and getattr(m, "inner", False):
                e[m.name] = X.evaluate(m.ast, e)
        return e

    def define(self, reg, m):
        """create the model and its derivative models"""
        k = reg.kw()
        fn = {"node": ds.node_model, "edge": ds.edge_model, "element": ds.element_model}[m.kind]
        n = reg.count[m.kind]
        if m.ast is None:
            mk = {"node": ds.node_solution, "edge": ds.edge_solution, "element": ds.element_solution}[m.kind]
            put = {"node": ds.set_node_values, "edge": ds.set_edge_values, "element": ds.set_element_values}[m.kind]
            for name in [m.name] + ["%s:%s" % (m.name, x) for x in m.ders]:
                mk(name=name, **k)
                put(name=name, values=[float(x) for x in self.rs.uniform(-1, 1, n)], **k)
            return
        t = X.text(m.ast, self.rng)
        fn(name=m.name, equation=t, **k)
        wrap = self.rng.choice(["diff(%s, %s)", "simplify(diff(%s, %s))"])
        for x in m.ders:
            fn(name="%s:%s" % (m.name, x), equation=wrap % (t, x), **k)

    def model(self, reg, kind, need=None, circuit=False, depth=None, partial=True, inner=False):
        """a random model with derivative models for what it depends on"""
        rng = self.rng
        lv = {k: v for k, v in self.leaves(reg, kind, circuit).items()}
        name = self.fresh({"node": "n", "edge": "e", "element": "t"}[kind])
        if self.assigned and not inner and not circuit and rng.random() < 0.2:
            of = {d for _, d in lv.values() if d}
            if rng.random() < 0.5:
                of = {d for d in sorted(of) if rng.random() < 0.7}
            ders = [k for k, (_, d) in lv.items() if d in of]
            m = Model(kind, name, None, ders, reg)
        else:
            e = self.env(reg, kind, circuit)
            keys = sorted(e)
            if inner:
                keys = sorted(lv)
            vars_ = [k for k in keys if k not in lv or lv[k][1]]
            ast, _ = X.pick(rng, keys + vars_, e, depth or rng.choice([1, 2, 3]), functions=SAFE, need=need or vars_)
            d = X.evaluate(ast, e)
            # all derivative models of a variable exist, or none
            of = {lv[k][1] for k in d.d}
            if partial and not inner and rng.random() < 0.12:
                of = {k for k in sorted(of) if rng.random() < 0.5}
            ders = sorted(k for k, (_, x) in lv.items() if x in of)
            m = Model(kind, name, ast, ders, reg)
        m.inner = inner
        self.define(reg, m)
        reg.models[name] = m
        self.ctx.count("model_%s%s" % (kind, "_assigned" if m.ast is None else ""))
        return m

    def value(self, m, ends=None):
        """D of a model for the current solution, full size, with the derivative models that exist"""
        reg = m.host
        n = reg.count[m.kind]
        if m.ast is None:
            d = {k: (reg.get(m.kind, "%s:%s" % (m.name, k)), np.zeros(n)) for k in m.ders}
            return D(reg.get(m.kind, m.name), np.zeros(n), d)
        e = self.env(reg, m.kind, circuit=(m.kind == "node"))
        with np.errstate(all="ignore"):
            o = X.evaluate(m.ast, e)
        full = lambda a: np.broadcast_to(np.asarray(a, dtype=X.F), (n,)).copy()
        return D(full(o.v), full(o.e), {k: (full(a), full(b)) for k, (a, b) in o.d.items() if k in m.ders})

    # ---------------------------------------------------------------- equations
    def add_equations(self):
        for d in self.devs.values():
            for reg in d.regions.values():
                if self.nested and self.rng.random() < 0.5:
                    for kind in ("node", "edge"):
                        self.model(reg, kind, inner=True)
                if not reg.params and self.rng.random() < 0.3:
                    self.weights(reg)
                for v in reg.vars:
                    if self.rng.random() < 0.93 or v == "V":
                        self.equation(reg, v)
            for c in d.contacts:
                for eq in list(d.regions[d.contacts[c]["region"]].eqs):
                    if self.rng.random() < 0.7:
                        self.contact_equation(d, c, eq)
            for i in d.interfaces:
                self.interface_equations(d, i)

    def weights(self, reg):
        """control volume quantities of the user's choosing"""
        for p in list(reg.weights):
            if self.rng.random() < 0.4:
                kind = "node" if p == "node_volume_model" else "element" if p.startswith("element") else "edge"
                if kind == "element" and reg.eledges is None:
                    continue
                name = self.fresh("w")
                base = {"node": "NodeVolume", "edge": self.rng.choice(["EdgeCouple", "EdgeNodeVolume"]), "element": self.rng.choice(["ElementNodeVolume", "ElementEdgeCouple"])}[kind]
                fn = {"node": ds.node_model, "edge": ds.edge_model, "element": ds.element_model}[kind]
                fn(name=name, equation="%r * %s" % (self.rng.choice([2.0, 0.5, 3.25]), base), **reg.kw())
                ds.set_parameter(name=p, value=name, **reg.kw())
                reg.weights[p] = name
                self.ctx.count("own_weight")
        reg.params["w"] = True

    def equation(self, reg, v, name=None):
        rng = self.rng
        name = name or "%sq%s" % (rng.choice(["E", "e", "z"]), v)
        for o, s in list(reg.eqs.items()):
            if s["var"] == v and o != name:
                ds.delete_equation(name=o, **reg.kw())
                self.drop(reg, o)
        spec = {"var": v, "update": rng.choice(list(self.updates))}
        terms = []
        while not terms:
            terms = [t for t, p in (("node_model", 0.7), ("edge_model", 0.7), ("edge_volume_model", 0.35), ("element_model", 0.5), ("volume_node0_model", 0.35), ("volume_node1_model", 0.35), ("time_node_model", 0.6)) if rng.random() < p]
        for t in terms:
            kind = "node" if "node_model" in t else "edge" if t.startswith("edge") else "element"
            if kind == "element" and reg.eledges is None or kind not in self.kinds:
                continue
            if t == "volume_node1_model" and "volume_node0_model" in spec and rng.random() < 0.3:
                spec[t] = spec["volume_node0_model"]
                continue
            spec[t] = self.model(reg, kind)
            self.ctx.count("bulk_" + t)
        ds.equation(name=name, variable_name=v, variable_update=spec["update"], **{k: m.name for k, m in spec.items() if isinstance(m, Model)}, **reg.kw())
        reg.eqs[name] = spec
        return name

    def drop(self, reg, eq):
        """bookkeeping after a bulk equation has been deleted"""
        reg.eqs.pop(eq, None)
        for c, s in reg.dev.contacts.items():
            if s["region"] == reg.name and eq in s["eqs"]:
                ds.delete_contact_equation(device=reg.dev.name, contact=c, name=eq)
                s["eqs"].pop(eq)
        for i, s in reg.dev.interfaces.items():
            for q, o in list(s["eqs"].items()):
                if (s["r0"] == reg.name and o["name0"] == eq) or (s["r1"] == reg.name and o["name1"] == eq):
                    ds.delete_interface_equation(device=reg.dev.name, interface=i, name=q)
                    s["eqs"].pop(q)

    def contact_equation(self, d, c, eq):
        rng, s = self.rng, d.contacts[c]
        reg = d.regions[s["region"]]
        spec = {}
        cn = rng.choice(self.nodes) if self.nodes and rng.random() < 0.6 else None
        opts = [("node_model", 0.85), ("edge_model", 0.35), ("edge_volume_model", 0.25), ("element_model", 0.3), ("volume_node0_model", 0.2), ("volume_node1_model", 0.2),
                ("node_current_model", 0.4), ("edge_current_model", 0.5), ("element_current_model", 0.3), ("node_charge_model", 0.3), ("edge_charge_model", 0.4), ("element_charge_model", 0.3)]
        for t, p in opts:
            kind = "node" if t.startswith("node") else "edge" if t.startswith("edge") else "element"
            if rng.random() > p or kind == "element" and reg.eledges is None or kind not in self.kinds:
                continue
            if t == "volume_node1_model" and "volume_node0_model" in spec and rng.random() < 0.3:
                spec[t] = spec["volume_node0_model"]
                continue
            spec[t] = self.model(reg, kind, circuit=bool(cn) and kind == "node")
            self.ctx.count("contact_" + t)
        kw = {k: m.name for k, m in spec.items()}
        if cn:
            spec["circuit_node"] = cn
            kw["circuit_node"] = cn
            self.ctx.count("contact_circuit")
        ds.contact_equation(device=d.name, contact=c, name=eq, **kw)
        s["eqs"][eq] = spec

    def interface_equations(self, d, i):
        rng, s = self.rng, d.interfaces[i]
        a, b = d.regions[s["r0"]], d.regions[s["r1"]]
        free0, free1 = list(a.eqs), list(b.eqs)
        rng.shuffle(free0)
        rng.shuffle(free1)
        for e0, e1 in zip(free0, free1):
            if rng.random() < 0.25:
                continue
            self.interface_equation(d, i, e0, e1)

    def ienv(self, d, i):
        s = d.interfaces[i]
        e = {}
        for k, r in ((0, s["r0"]), (1, s["r1"])):
            reg = d.regions[r]
            for v in reg.vars:
                e["%s@r%d" % (v, k)] = X.var("%s@r%d" % (v, k), reg.get("node", v)[s["n%d" % k]])
            e["x@r%d" % k] = D(reg.pos[s["n%d" % k], 0])
        return e

    def interface_equation(self, d, i, e0, e1, name=None):
        rng, s = self.rng, d.interfaces[i]
        e = self.ienv(d, i)
        keys = sorted(e)
        vars_ = [k for k in keys if not k.startswith("x@")]
        ast, _ = X.pick(rng, keys + vars_, e, rng.choice([1, 2, 3]), functions=SAFE, need=vars_)
        ders = sorted(X.evaluate(ast, e).d)
        if rng.random() < 0.1:
            ders = [k for k in ders if rng.random() < 0.6]
        m = Model("interface", self.fresh("f"), ast, ders, None)
        t = X.text(ast, rng)
        for r in (s["r0"], s["r1"]):
            # a derivative taken on an interface refers to the derivative models of the regions
            reg = d.regions[r]
            for a in reg.vars + ["x"]:
                for b in reg.vars:
                    if a != b and (r, a, b) not in s["models"]:
                        s["models"][r, a, b] = None
                        ds.node_model(name="%s:%s" % (a, b), equation="0", **reg.kw())
        ds.interface_model(device=d.name, interface=i, name=m.name, equation=t)
        for x in ders:
            ds.interface_model(device=d.name, interface=i, name="%s:%s" % (m.name, x), equation="diff(%s, %s)" % (t, x))
        s["models"][m.name] = m
        typ = rng.choice(["continuous", "fluxterm", "hybrid"])
        name = name or self.fresh("iq")
        ds.interface_equation(device=d.name, interface=i, name=name, name0=e0, name1=e1, interface_model=m.name, type=typ)
        s["eqs"][name] = {"type": typ, "model": m, "name0": e0, "name1": e1}
        self.ctx.count("interface_" + typ)

    def custom_equation(self, name):
        """entries given by a callback, at equation numbers chosen by the test"""
        rng = self.rng
        spec = {"static": [], "dynamic": [], "calls": 0, "bulk": rng.random() < 0.5}
        self.custom[name] = spec

        def proc(what, when):
            spec["calls"] += 1
            mat, rhs = [], []
            for (r, c, v) in spec["dynamic" if when == "TIME" else "static"]:
                if c is None:
                    rhs += [int(r), float(v)]
                else:
                    mat += [int(r), int(c), float(v)]
            return (mat if what != "RHS" else [], rhs if what != "MATRIXONLY" else [], spec["bulk"])
        spec["proc"] = proc
        ds.custom_equation(name=name, procedure=proc)

    # ---------------------------------------------------------------- numbering
    def number(self, check=None):
        """equation numbers of every unknown (the simulator's), checked to be a numbering"""
        self.cols, seen = {}, []
        for d in self.devs.values():
            for reg in d.regions.values():
                for eq, s in reg.eqs.items():
                    v = np.array(ds.get_equation_numbers(equation=eq, **reg.kw()), dtype=int)
                    self.cols[d.name, reg.name, s["var"]] = v
                    seen.append(v)
                    if check:
                        w = np.array(ds.get_equation_numbers(variable=s["var"], **reg.kw()), dtype=int)
                        check(np.array_equal(v, w) and len(v) == reg.n, "numbers", "equation numbers by equation and by variable differ, or are not one per node")
        self.ccol = {k: int(ds.get_circuit_equation_number(node=k)) for k in self.circuit_nodes()}
        seen.append(np.array(list(self.ccol.values()), dtype=int))
        al = np.concatenate(seen)
        self.n = len(al)
        if check:
            check(np.array_equal(np.sort(al), np.arange(self.n)), "numbering", "equation numbers are not a numbering of the unknowns")
        return self.n

    # ---------------------------------------------------------------- states
    def state(self):
        """the simulator's solution, by equation number"""
        x = np.full(self.n, np.nan)
        for (d, r, v), c in self.cols.items():
            x[c] = np.array(ds.get_node_model_values(device=d, region=r, name=v))
        for k, c in self.ccol.items():
            x[c] = ds.get_circuit_node_value(solution="dcop", node=k)
        return x

    def put(self, x):
        for (d, r, v), c in self.cols.items():
            ds.set_node_values(device=d, region=r, name=v, values=[float(y) for y in x[c]])
        for k, c in self.ccol.items():
            ds.set_circuit_node_value(solution="dcop", node=k, value=float(x[c]))

    def assemble_at(self, x):
        """the assembly at another state, which the simulator does not see"""
        try:
            for (d, r, v), c in self.cols.items():
                self.devs[d].regions[r].over[v] = x[c]
            self.cover = {k: float(x[c]) for k, c in self.ccol.items()}
            return self.assemble()
        finally:
            self.cover = None
            for d in self.devs.values():
                for r in d.regions.values():
                    r.over = {}

    # ---------------------------------------------------------------- assembly
    def active(self, d, c, eq):
        s = d.contacts[c]
        order = sorted(d.contacts)
        lost = set()
        for o in order[:order.index(c)]:
            t = d.contacts[o]
            if t["region"] == s["region"] and eq in t["eqs"]:
                lost |= set(t["nodes"])
        return [n for n in s["nodes"] if n not in lost]

    def iactive(self, d, i, e0, e1):
        """positions along the interface where an interface equation applies"""
        s = d.interfaces[i]
        ok = np.ones(len(s["n0"]), dtype=bool)
        for k, e in ((0, e0), (1, e1)):
            r = s["r%d" % k]
            drop = set()
            for t in d.contacts.values():
                if t["region"] == r and e in t["eqs"]:
                    drop |= set(t["nodes"])
            for o, t in d.interfaces.items():
                if o == i:
                    continue
                for q in t["eqs"].values():
                    if t["r0"] == r and q["name0"] == e:
                        drop |= set(t["n0"].tolist())
                    if t["r1"] == r and q["name1"] == e:
                        drop |= set(t["n1"].tolist())
            ok &= ~np.isin(s["n%d" % k], sorted(drop))
        return ok

    def assemble(self):
        n = self.n
        A = {t: Acc(n) for t in ("static", "dynamic")}
        row, copy = np.arange(n), np.zeros(n, dtype=int)
        direct = {t: Acc(n) for t in ("static", "dynamic")}
        for d in self.devs.values():
            for c, s in d.contacts.items():
                reg = d.regions[s["region"]]
                for eq, q in s["eqs"].items():
                    if eq not in reg.eqs:
                        continue
                    act = np.array(self.active(d, c, eq), dtype=int)
                    rows = self.cols[d.name, reg.name, reg.var_of(eq)]
                    mine = np.full(reg.n, -1)
                    mine[act] = rows[act]
                    if "node_model" in q:
                        row[rows[act]] = -1
                    self.terms(direct["static"], reg, q, mine, "")
                    if "circuit_node" in q:
                        cr = np.full(reg.n, -1)
                        cr[act] = self.ccol[q["circuit_node"]]
                        for t, suf in (("static", "_current"), ("dynamic", "_charge")):
                            self.terms(direct[t], reg, q, cr, suf)
            for i, s in d.interfaces.items():
                a, b = d.regions[s["r0"]], d.regions[s["r1"]]
                for q in s["eqs"].values():
                    ok = self.iactive(d, i, q["name0"], q["name1"])
                    r0 = self.cols[d.name, a.name, a.var_of(q["name0"])][s["n0"]]
                    r1 = self.cols[d.name, b.name, b.var_of(q["name1"])][s["n1"]]
                    v = X.evaluate(q["model"].ast, self.ienv(d, i))
                    full = lambda y: np.broadcast_to(np.asarray(y, dtype=X.F), ok.shape)
                    v = D(full(v.v), full(v.e), {k: (full(x), full(y)) for k, (x, y) in v.d.items() if k in q["model"].ders})
                    cols = {}
                    for k in v.d:
                        nm, side = k.split("@r")
                        reg = (a, b)[int(side)]
                        if (d.name, reg.name, nm) in self.cols:
                            cols[k] = self.cols[d.name, reg.name, nm][s["n" + side]]
                    s0, s1 = a.get("node", "SurfaceArea")[s["n0"]], b.get("node", "SurfaceArea")[s["n1"]]
                    m0, m1 = np.where(ok, r0, -1), np.where(ok, r1, -1)
                    acc = direct["static"]
                    if q["type"] == "continuous":
                        acc.add(m1, v, cols, 1.0)
                    elif q["type"] == "fluxterm":
                        acc.add(m0, v, cols, s0)
                        acc.add(m1, v, cols, -s1)
                    else:
                        acc.add(m1, v, cols, -s1)
                    if q["type"] != "fluxterm":
                        row[r1[ok]] = r0[ok]
                        copy[r1[ok]] = 1 if q["type"] == "hybrid" else 0
            for reg in d.regions.values():
                for eq, q in reg.eqs.items():
                    rows = self.cols[d.name, reg.name, q["var"]]
                    self.terms(A["static"], reg, q, rows, "")
                    if "time_node_model" in q:
                        A["dynamic"].add(rows, self.value(q["time_node_model"]), self.colmap(reg, "node"), reg.weight("node_volume_model"))
        for spec in self.custom.values():
            for t in A:
                (A if spec["bulk"] else direct)[t].entries(spec[t])
        out = {}
        for t in A:
            r = direct[t]
            r.permuted(A[t], row, copy)
            self.stamp(r, t)
            out[t] = r
        return out, row, copy

    def colmap(self, reg, kind):
        out = {}
        for v in reg.vars:
            c = self.cols.get((reg.dev.name, reg.name, v))
            if c is None:
                continue
            if kind == "node":
                out[v] = c
            elif kind == "edge":
                for k in (0, 1):
                    out["%s@n%d" % (v, k)] = c[reg.edges[:, k]]
            else:
                for k in range(reg.eledges.shape[1]):
                    out["%s@en%d" % (v, k)] = c[reg.eledges[:, k]]
        return out

    def terms(self, acc, reg, q, rows, suf):
        """add the static terms of an equation, row of every node given (-1: nowhere)"""
        cc = {}
        if "circuit_node" in q:
            cc = {q["circuit_node"]: self.ccol[q["circuit_node"]]}
        g = lambda k: q.get(k.replace("_model", suf + "_model") if suf else k)
        m = g("node_model")
        if m:
            cols = dict(self.colmap(reg, "node"), **{k: np.full(reg.n, v) for k, v in cc.items()})
            acc.add(rows, self.value(m), cols, reg.weight("node_volume_model"))
        e = reg.edges
        m = g("edge_model")
        if m:
            v, w, cols = self.value(m), reg.weight("edge_couple_model"), self.colmap(reg, "edge")
            acc.add(rows[e[:, 0]], v, cols, w)
            acc.add(rows[e[:, 1]], v, cols, -w)
        m = q.get("edge_volume_model") if not suf else None
        if m:
            v, cols = self.value(m), self.colmap(reg, "edge")
            acc.add(rows[e[:, 0]], v, cols, reg.weight("edge_node0_volume_model"))
            acc.add(rows[e[:, 1]], v, cols, reg.weight("edge_node1_volume_model"))
        if reg.eledges is None:
            return
        t = reg.eledges
        m = g("element_model")
        if m:
            v, w, cols = self.value(m), reg.weight("element_edge_couple_model"), self.colmap(reg, "element")
            acc.add(rows[t[:, 0]], v, cols, w)
            acc.add(rows[t[:, 1]], v, cols, -w)
        if not suf:
            for k in (0, 1):
                m = q.get("volume_node%d_model" % k)
                if m:
                    acc.add(rows[t[:, k]], self.value(m), self.colmap(reg, "element"), reg.weight("element_node%d_volume_model" % k))

    def stamp(self, acc, t):
        if not self.nodes:
            return
        x = self.cvals()
        col = lambda k: self.ccol.get(k, -1)
        v = lambda k: x.get(k, 0.0)

        def put(r, val, ders):
            if r >= 0:
                acc.R[r] += val
                acc.RE[r] += 20 * abs(val)
                for c, y in ders:
                    if c >= 0:
                        acc.J[r, c] += y
                        acc.JE[r, c] += 20 * abs(y)
        for name, a, b, val in self.elements:
            ca, cb, k = col(a), col(b), name[0]
            br = col(name + ".I")
            if (k == "R" and t == "static") or (k == "C" and t == "dynamic"):
                g = 1.0 / val if k == "R" else val
                put(ca, g * (v(a) - v(b)), [(ca, g), (cb, -g)])
                put(cb, -g * (v(a) - v(b)), [(ca, -g), (cb, g)])
            elif k == "I" and t == "static":
                put(ca, -val, [])  # the current is delivered into the first node
                put(cb, val, [])
            elif k in "LV" and t == "static":
                i = x[name + ".I"]
                put(ca, i, [(br, 1.0)])
                put(cb, -i, [(br, -1.0)])
                if k == "V":
                    put(br, v(a) - v(b) - val, [(ca, 1.0), (cb, -1.0)])
                else:
                    put(br, -(v(a) - v(b)), [(ca, -1.0), (cb, 1.0)])
            elif k == "L" and t == "dynamic":
                put(br, val * x[name + ".I"], [(br, val)])


class Acc:
    def __init__(self, n):
        self.R, self.RE, self.J, self.JE = (np.zeros(s, dtype=X.F) for s in (n, n, (n, n), (n, n)))

    def add(self, rows, v, cols, w):
        rows = np.asarray(rows)
        ok = rows >= 0
        w = np.broadcast_to(np.asarray(w, dtype=X.F), rows.shape)[ok]
        r = rows[ok]
        a, e = v.v[ok], v.e[ok]
        np.add.at(self.R, r, a * w)
        np.add.at(self.RE, r, e * np.abs(w) + 20 * np.abs(a * w))
        for k, (x, y) in v.d.items():
            if k in cols:
                c = cols[k][ok]
                np.add.at(self.J, (r, c), x[ok] * w)
                np.add.at(self.JE, (r, c), y[ok] * np.abs(w) + 20 * np.abs(x[ok] * w))

    def entries(self, lst):
        for r, c, v in lst:
            if c is None:
                self.R[r] += v
                self.RE[r] += 20 * abs(v)
            else:
                self.J[r, c] += v
                self.JE[r, c] += 20 * abs(v)

    def permuted(self, o, row, copy):
        for i in range(len(row)):
            for r in ([row[i]] if row[i] >= 0 else []) + ([i] if copy[i] and row[i] >= 0 else []):
                self.R[r] += o.R[i]
                self.RE[r] += o.RE[i]
                self.J[r] += o.J[i]
                self.JE[r] += o.JE[i]


def dense(fmt, d, n):
    """dense matrix of a compressed one; None if it is not well formed"""
    ai, ap, av = np.array(d["ai"], dtype=int), np.array(d["ap"], dtype=int), np.array(d["av"], dtype=float)
    if len(ap) != n + 1 or ap[0] != 0 or ap[-1] != len(ai) or len(av) != len(ai) or (np.diff(ap) < 0).any() or (len(ai) and (ai.min() < 0 or ai.max() >= n)):
        return None
    M = np.zeros((n, n))
    major = np.repeat(np.arange(n), np.diff(ap))
    seq = major * n + ai
    if len(np.unique(seq)) != len(seq):
        return None
    if fmt == "csr":
        M[major, ai] = av
    else:
        M[ai, major] = av
    return M
