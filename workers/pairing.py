"""C21: contacts and interfaces against the description of the mesh, and models on them against the values of both sides."""
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.expr import D
from vlib.system import System, SAFE

DEEP = SAFE + ["sinh", "cosh", "erfc", "atanh", "log"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    for i in range(n):
        yield {"id": "p#%d" % (o + i), "k": o + i}


def run_case(ctx, case):
    sim.reset()
    P(ctx, case).run()


class P:
    def __init__(self, ctx, case):
        self.ctx, self.rng, self.rs = ctx, ctx.rng, ctx.np()
        nreg = int(self.rs.choice([1, 2, 2, 2, 3, 4]))
        self.s = System(ctx, self.rs, nreg=nreg, circuit=self.rs.rand() < 0.3, ndev=1 if self.rs.rand() < 0.85 else 2, made=0.0)
        self.devs = list(self.s.devs.values())
        self.models = []      # interface models: dict d, i, name, ast, ders, nested
        self.cmodels = []     # contact models
        self.users = []       # region models which refer to contact models
        self.par = {}         # (device, region, name) -> value; device or region may be ""
        self.n = 0
        self.ops = []

    # ---------------------------------------------------------------- what there is
    def fresh(self, p):
        self.n += 1
        return p + str(self.n)

    def run(self):
        ctx, rng = self.ctx, self.rng
        for d in self.devs:
            for i in d.interfaces.values():
                i["drawn"] = True
            for c in d.contacts.values():
                c["drawn"] = True
                c["faces"] = None
            for reg in d.regions.values():
                self.node_model(reg)
        for d in self.devs:
            for r in [""] + list(d.regions):
                if r == "" or rng.random() < 0.6:
                    self.set_par(d.name, r, "p")
            for r in d.regions:
                self.set_par(d.name, r, "own")
        self.set_par("", "", "glob")
        self.structure("as built")
        if self.s.nodes:
            # circuit nodes are there once the system was numbered
            try:
                ds.get_matrix_and_rhs(format="csr")
            except ds.error:
                pass
        self.ways = [self.new_model, self.new_model, self.new_contact_model, self.new_contact_model, self.values, self.values, self.parameter, self.parameter, self.redefine_node, self.redefine, self.redefine_contact,
                     self.made_interface, self.made_contact, self.refused, self.refused, self.delete, self.circuit, self.user, self.unknown]
        for k in range(rng.choice([3, 6, 10, 16])):
            f = rng.choice(self.ways) if k > 1 else rng.choice([self.new_model, self.new_contact_model])
            if f() is False:
                continue
            self.ops.append(f.__name__)
            ctx.count("op_" + f.__name__)
            self.look(f.__name__)
            if rng.random() < 0.3 or f in (self.made_interface, self.made_contact, self.refused):
                self.structure("after " + f.__name__)
        self.structure("at the end")
        self.look("at the end", True)
        ctx.distinct([d.dim for d in self.devs], len(self.models), len(self.cmodels), tuple(self.ops))
        ctx.count("dim%d" % self.devs[0].dim)

    def dev(self):
        return self.rng.choice(self.devs)

    def interface(self):
        """(device, name) of an interface with nodes"""
        c = [(d, i) for d in self.devs for i in d.interfaces if len(d.interfaces[i]["n0"])]
        return self.rng.choice(c) if c else None

    def contact(self):
        c = [(d, k) for d in self.devs for k in d.contacts]
        return self.rng.choice(c) if c else None

    # ---------------------------------------------------------------- structure
    def faces(self, reg, nodes):
        """faces of one element of the region with all nodes among those"""
        if reg.dev.dim == 1:
            return [tuple(sorted(int(n) for n in nodes))]
        f = [tuple(sorted(reg.at[int(g)] for g in q)) for q in reg.dev.mesh.boundary_faces(reg.name)]
        have = {int(n) for n in nodes}
        return sorted(q for q in f if set(q) <= have)

    def drawn(self, reg, faces):
        f = sorted(tuple(sorted(reg.at[int(g)] for g in q)) for q in faces)
        return f

    def structure(self, why):
        ctx = self.ctx
        for d in self.devs:
            m = d.mesh
            ctx.check(sorted(ds.get_contact_list(device=d.name)) == sorted(d.contacts), "contact_list", "contacts of %s are %s, expected %s (%s)" % (d.name, ds.get_contact_list(device=d.name), sorted(d.contacts), why))
            ctx.check(sorted(ds.get_interface_list(device=d.name)) == sorted(d.interfaces), "interface_list", "interfaces of %s are %s, expected %s (%s)" % (d.name, ds.get_interface_list(device=d.name), sorted(d.interfaces), why))
            for c, q in d.contacts.items():
                reg = d.regions[q["region"]]
                ctx.check(list(ds.get_region_list(device=d.name, contact=c)) == [reg.name], "contact_region", "contact %s is of %s (%s)" % (c, ds.get_region_list(device=d.name, contact=c), why))
                want = self.drawn(reg, m.contacts[c][1]) if q.get("drawn") else q["faces"]
                self.same(self.elements(d, reg, contact=c), want, "contact %s" % c, why)
                ctx.check(self.rows(d, c) == sorted(set(q["nodes"])), "contact_nodes", lambda: "contact %s has nodes %s, expected %s (%s)" % (c, self.rows(d, c), sorted(set(q["nodes"])), why))
                ctx.count("contacts_seen")
            for i, q in d.interfaces.items():
                r = [d.regions[q["r0"]], d.regions[q["r1"]]]
                got = list(ds.get_region_list(device=d.name, interface=i))
                ctx.check(got == [q["r0"], q["r1"]], "interface_regions", "interface %s joins %s, expected %s (%s)" % (i, got, [q["r0"], q["r1"]], why))
                for k in (0, 1):
                    if k == 1 and r[0] is r[1]:
                        continue
                    want = self.drawn(r[k], m.interfaces[i][2]) if q.get("drawn") else self.faces(r[k], q["n%d" % k])
                    self.same(self.elements(d, r[k], interface=i), want, "side %d of interface %s" % (k, i), why)
                pairs = [np.round(np.array(ds.get_interface_model_values(device=d.name, interface=i, name="order%d" % k))).astype(int) for k in (0, 1)]
                if q.get("drawn"):
                    # the order is free, the nodes and the pairs are not
                    want = sorted((r[0].at[int(g)], r[1].at[int(g)]) for g in m.interface_nodes(i))
                    ctx.check(sorted(zip(*[p.tolist() for p in pairs])) == want, "pairs", lambda: "pairs of interface %s are %s, expected %s (%s)" % (i, sorted(zip(*[p.tolist() for p in pairs]))[:30], want[:30], why))
                ctx.check(all(np.array_equal(pairs[k], q["n%d" % k]) for k in (0, 1)), "order", lambda: "pairs of interface %s are %s, they were given as %s (%s)" % (i, [p.tolist() for p in pairs], [q["n0"], q["n1"]], why))
                ctx.count("interfaces_seen")

    def elements(self, d, reg, **kw):
        return sorted(tuple(sorted(int(n) for n in e)) for e in ds.get_element_node_list(device=d.name, region=reg.name, **kw))

    def same(self, got, want, what, why):
        self.ctx.check(got == want, "elements", lambda: "%s consists of %s, expected %s (%s)" % (what, got[:30], want[:30], why))

    def rows(self, d, c):
        """the nodes of a contact: where a model of it has an effect"""
        q = d.contacts[c]
        k = dict(device=d.name, name="at_" + c)
        ds.contact_node_model(contact=c, equation="1", **k)
        v = np.array(ds.get_node_model_values(region=q["region"], **k))
        ds.delete_node_model(region=q["region"], **k)
        self.ctx.check(bool(np.isin(v, [0.0, 1.0]).all()), "contact_nodes", "a model which is one at contact %s has the values %s" % (c, sorted(set(v.tolist()))))
        return [int(i) for i in np.nonzero(v)[0]]

    # ---------------------------------------------------------------- parameters
    def set_par(self, d, r, name):
        v = round(self.rng.uniform(-2, 2), 4)
        self.par[d, r, name] = v
        kw = {}
        if d:
            kw["device"] = d
        if r:
            kw["region"] = r
        ds.set_parameter(name=name, value=v, **kw)

    def get_par(self, d, r, name):
        for k in ((d, r, name), (d, "", name), ("", "", name)):
            if k in self.par:
                return self.par[k]
        return None

    def parameter(self):
        k = self.rng.choice(sorted(self.par))
        if k[2] == "p" and self.rng.random() < 0.5:
            # at another level
            d = self.dev()
            k = (d.name, self.rng.choice(list(d.regions)), "p")
        self.set_par(*k)

    # ---------------------------------------------------------------- regions
    def renv(self, reg):
        e = {v: X.var(v, reg.get("node", v)) for v in reg.vars}
        e["x"] = D(reg.pos[:, 0])
        return e

    def node_model(self, reg, redo=False):
        e = self.renv(reg)
        ast, _ = X.pick(self.rng, sorted(e) + reg.vars, e, self.rng.choice([1, 2, 3]), functions=SAFE, need=reg.vars)
        reg.M = ast
        t = X.text(ast, self.rng)
        ds.node_model(name="M", equation=t, **reg.kw())
        for v in reg.vars:
            ds.node_model(name="M:" + v, equation="diff(%s, %s)" % (t, v), **reg.kw())
            for a in reg.vars + ["x"]:
                if a != v and not redo:
                    ds.node_model(name="%s:%s" % (a, v), equation="0", **reg.kw())
        if not redo:
            ds.edge_from_node_model(node_model="M", **reg.kw())

    def redefine_node(self):
        d = self.dev()
        self.node_model(d.regions[self.rng.choice(list(d.regions))], True)

    def values(self):
        d = self.dev()
        reg = d.regions[self.rng.choice(list(d.regions))]
        v = self.rng.choice(reg.vars)
        if self.rng.random() < 0.3:
            ds.set_node_value(name=v, index=self.rng.randrange(reg.n), value=self.rng.uniform(-1, 1), **reg.kw())
        else:
            ds.set_node_values(name=v, values=[float(x) for x in self.rs.uniform(-1, 1, reg.n)], **reg.kw())

    def circuit(self):
        if not self.s.nodes:
            return False
        try:
            self.s.circuit_values()
        except ds.error:
            pass
        for k in self.s.circuit_nodes():
            try:
                ds.set_circuit_node_value(solution="dcop", node=k, value=self.rng.uniform(-1, 1))
            except ds.error:
                return False

    # ---------------------------------------------------------------- interface models
    def ienv(self, d, i):
        q = d.interfaces[i]
        e, lv = {}, []
        for k in (0, 1):
            reg = d.regions[q["r%d" % k]]
            at = q["n%d" % k]
            for v in reg.vars:
                n = "%s@r%d" % (v, k)
                e[n] = X.var(n, reg.get("node", v)[at])
                lv.append(n)
            e["x@r%d" % k] = D(reg.pos[at, 0])
            side = {v: e["%s@r%d" % (v, k)] for v in reg.vars}
            side["x"] = e["x@r%d" % k]
            e["M@r%d" % k] = X.evaluate(reg.M, side)
            for p in ("p", "own"):
                e["%s@r%d" % (p, k)] = D(np.array(self.get_par(d.name, reg.name, p)))
        # without a side, both regions have to agree
        a, b = [self.get_par(d.name, q["r%d" % k], "p") for k in (0, 1)]
        if a == b:
            e["p"] = D(np.array(a))
        e["glob"] = D(np.array(self.par["", "", "glob"]))
        if self.s.nodes:
            v = self.s.cvals()
            for k in self.s.nodes:
                e[k] = D(np.array(v.get(k, 0.0)))
        for m in self.models:
            if m["d"] is d and m["i"] == i and m["nested"]:
                with np.errstate(all="ignore"):
                    e[m["name"]] = X.evaluate(m["ast"], e) if X.names(m["ast"]) <= set(e) else None
        return {k: v for k, v in e.items() if v is not None}, lv

    def write(self, m, redo=False):
        d, i, rng = m["d"], m["i"], self.rng
        e, lv = self.ienv(d, i)
        if m["nested"]:
            # only what cannot become unknown
            e = {k: v for k, v in e.items() if not (k == "p" or any(k == x["name"] for x in self.models))}
        w = lv + [x["name"] for x in self.models if x["name"] in e] * 2 + ["M@r0", "M@r1"]
        if "p" in e:
            w = w + ["p"] * 3
        smooth = m["nested"] or rng.random() < 0.6
        ast, _ = X.pick(rng, sorted(e) + w, e, rng.choice([1, 2, 3, 4]), smooth=smooth, functions=DEEP, need=w)
        m["ast"], m["smooth"] = ast, smooth
        t = X.text(ast, rng)
        ds.interface_model(device=d.name, interface=i, name=m["name"], equation=t)
        none = {"sgn", "step"} & X.funcs(ast)
        for v in m["ders"] or []:
            ds.delete_interface_model(device=d.name, interface=i, name="%s:%s" % (m["name"], v))
        m["ders"] = None
        if none:
            m["ders"] = []
        if m["ders"] is None:
            m["ders"] = lv if m["nested"] else [v for v in lv if rng.random() < 0.7]
        wrap = rng.choice(["diff(%s, %s)", "simplify(diff(%s, %s))"])
        for v in m["ders"]:
            ds.interface_model(device=d.name, interface=i, name="%s:%s" % (m["name"], v), equation=wrap % (t, v))

    def new_model(self):
        c = self.interface()
        if c is None:
            return False
        d, i = c
        m = {"d": d, "i": i, "name": self.fresh("f"), "nested": self.rng.random() < 0.4, "ders": None}
        self.write(m)
        self.models.append(m)

    def redefine(self):
        if not self.models:
            return False
        self.write(self.rng.choice(self.models), True)

    def delete(self):
        c = [m for m in self.models if not m["nested"]]
        if not c:
            return False
        m = self.rng.choice(c)
        k = dict(device=m["d"].name, interface=m["i"])
        for n in [m["name"]] + ["%s:%s" % (m["name"], v) for v in m["ders"]]:
            ds.delete_interface_model(name=n, **k)
        self.models.remove(m)
        self.error("deleted", lambda: ds.get_interface_model_values(name=m["name"], **k))

    def unknown(self):
        """a name nobody knows is an error when the model is asked for, and for that model only"""
        c = self.interface()
        if c is None:
            return False
        d, i = c
        n = self.fresh("u")
        k = dict(device=d.name, interface=i, name=n)
        ds.interface_model(equation=self.rng.choice(["V@r0 + nobody", "nobody@r1*2", "nobody@r0 - V@r1", "exp(nobody)", "V@r2 + V@r0"]), **k)
        self.error("unknown", lambda: ds.get_interface_model_values(**k))
        self.look("unknown")
        ds.interface_model(equation="V@r0 - V@r1", **k)
        q = d.interfaces[i]
        want = d.regions[q["r0"]].get("node", "V")[q["n0"]] - d.regions[q["r1"]].get("node", "V")[q["n1"]]
        self.ctx.close(ds.get_interface_model_values(**k), want, "unknown", "%s of %s after an error" % (n, i), 1e-13, 1e-15)
        ds.delete_interface_model(**k)

    # ---------------------------------------------------------------- contact models
    def cenv(self, d, c, kind):
        reg = d.regions[d.contacts[c]["region"]]
        if kind == "node":
            e = self.renv(reg)
            lv = list(reg.vars)
            e["M"] = X.evaluate(reg.M, e)
        else:
            e, lv = {}, []
            for k in (0, 1):
                at = reg.edges[:, k]
                side = {}
                for v in reg.vars:
                    n = "%s@n%d" % (v, k)
                    side[v] = e[n] = X.var(n, reg.get("node", v)[at])
                    lv.append(n)
                side["x"] = D(reg.pos[at, 0])
                # derivatives do not reach through it, unless models named M@n0:V@n0 exist
                o = X.evaluate(reg.M, side)
                e["M@n%d" % k] = D(o.v, o.e)
            e["EdgeInverseLength"] = D(reg.get("edge", "EdgeInverseLength"))
        for p in ("p", "own"):
            e[p] = D(np.array(self.get_par(d.name, reg.name, p)))
        e["glob"] = D(np.array(self.par["", "", "glob"]))
        return e, lv, reg

    def at(self, d, c, kind):
        q = d.contacts[c]
        reg = d.regions[q["region"]]
        nodes = np.zeros(reg.n, dtype=bool)
        nodes[np.array(sorted(q["nodes"]), dtype=int)] = True
        return nodes if kind == "node" else nodes[reg.edges].any(axis=1)

    def write_contact(self, m):
        d, c, rng = m["d"], m["c"], self.rng
        e, lv, reg = self.cenv(d, c, m["kind"])
        ast, _ = X.pick(rng, sorted(e) + lv, e, rng.choice([1, 2, 3]), smooth=rng.random() < 0.7, functions=DEEP, need=lv)
        if rng.random() < 0.1:
            ast = ("n", round(rng.uniform(-3, 3), 3))
        m["ast"] = ast
        t = X.text(ast, rng)
        f = ds.contact_node_model if m["kind"] == "node" else ds.contact_edge_model
        f(device=d.name, contact=c, name=m["name"], equation=t)
        for v in m["ders"] or []:
            (ds.delete_node_model if m["kind"] == "node" else ds.delete_edge_model)(name="%s:%s" % (m["name"], v), **reg.kw())
        m["ders"] = None
        if {"sgn", "step"} & X.funcs(ast):
            m["ders"] = []
        if m["ders"] is None:
            m["ders"] = [v for v in lv if rng.random() < 0.5] if m["kind"] == "node" else (lv if rng.random() < 0.6 else [])
        for v in m["ders"]:
            f(device=d.name, contact=c, name="%s:%s" % (m["name"], v), equation="diff(%s, %s)" % (t, v))

    def new_contact_model(self):
        k = self.contact()
        if k is None:
            return False
        d, c = k
        kind = self.rng.choice(["node", "edge"])
        # not with a drawn contact without nodes
        if not d.contacts[c]["nodes"]:
            return False
        m = {"d": d, "c": c, "kind": kind, "name": self.fresh("c"), "ders": None}
        self.write_contact(m)
        self.cmodels.append(m)

    def redefine_contact(self):
        if not self.cmodels:
            return False
        self.write_contact(self.rng.choice(self.cmodels))

    def user(self):
        """a model of the region which refers to a contact model"""
        c = [m for m in self.cmodels if m["kind"] == "node"]
        if not c:
            return False
        m = self.rng.choice(c)
        reg = m["d"].regions[m["d"].contacts[m["c"]]["region"]]
        u = {"reg": reg, "m": m, "name": self.fresh("g"), "a": round(self.rng.uniform(-2, 2), 3)}
        ds.node_model(name=u["name"], equation="%s*%r + V" % (m["name"], u["a"]), **reg.kw())
        self.users.append(u)

    # ---------------------------------------------------------------- interfaces and contacts made later
    def made_interface(self):
        d, rng, rs = self.dev(), self.rng, self.rs
        names = [rng.choice(list(d.regions)) for k in (0, 1)]
        r = [d.regions[n] for n in names]
        if r[0] is r[1]:
            if rng.random() < 0.5 and len(d.regions) > 1:
                return False
            p = rs.permutation(r[0].n)
            k = int(rs.randint(1, r[0].n // 2 + 1))
            pairs = [p[:k], p[k:2 * k]]
        elif rng.random() < 0.4 and d.interfaces:
            # the nodes of another one, in another order, the other way round
            q = d.interfaces[rng.choice(list(d.interfaces))]
            names = [q["r1"], q["r0"]]
            p = rs.permutation(len(q["n0"]))
            pairs = [q["n1"][p], q["n0"][p]]
            if not len(p):
                return False
        else:
            k = int(rs.randint(1, min(x.n for x in r) + 1))
            pairs = [rs.permutation(x.n)[:k] for x in r]
        n = self.fresh("made")
        lists = [[int(x) for x in p] for p in pairs]
        ds.create_interface_from_nodes(device=d.name, name=n, region0=names[0], region1=names[1], nodes0=lists[0], nodes1=tuple(lists[1]) if rng.random() < 0.3 else lists[1])
        d.interfaces[n] = {"r0": names[0], "r1": names[1], "n0": np.array(lists[0]), "n1": np.array(lists[1]), "eqs": {}, "models": {}}
        for k in (0, 1):
            ds.interface_model(device=d.name, interface=n, name="order%d" % k, equation="node_index@r%d" % k)
        if names[0] == names[1]:
            self.ctx.count("within_region")

    def made_contact(self):
        k = self.interface()
        if k is None:
            return False
        d, i = k
        q = d.interfaces[i]
        side = 0 if q["r0"] == q["r1"] else self.rng.randrange(2)
        reg = d.regions[q["r%d" % side]]
        n = self.fresh("cm")
        ds.create_contact_from_interface(device=d.name, region=reg.name, interface=i, name=n, material="metal")
        faces = self.drawn(reg, d.mesh.interfaces[i][2]) if q.get("drawn") else self.faces(reg, q["n%d" % side])
        d.contacts[n] = {"region": reg.name, "nodes": sorted(int(x) for x in q["n%d" % side]), "eqs": {}, "faces": faces}

    # ---------------------------------------------------------------- refused
    def error(self, key, f, what=""):
        try:
            f()
        except ds.error as ex:
            self.ctx.count("errors")
            self.ctx.check(len(str(ex).strip()) > 3, key, "an error without a message")
            return True
        self.ctx.violation(key, "no error was raised: %s %s" % (key, what))
        return False

    def refused(self):
        rng = self.rng
        d = self.dev()
        r = rng.choice(list(d.regions))
        reg = d.regions[r]
        c = rng.choice(list(d.contacts)) if d.contacts else None
        i = rng.choice(list(d.interfaces)) if d.interfaces else None
        n = self.fresh("bad")
        kw = dict(device=d.name, name=n, region0=r, region1=r, nodes0=[0], nodes1=[1])
        bad = [("lengths", lambda: ds.create_interface_from_nodes(**dict(kw, nodes0=[0, 1]))), ("empty", lambda: ds.create_interface_from_nodes(**dict(kw, nodes0=[], nodes1=[]))), ("one_empty", lambda: ds.create_interface_from_nodes(**dict(kw, nodes1=[]))),
               ("past_end", lambda: ds.create_interface_from_nodes(**dict(kw, nodes1=[reg.n]))), ("negative", lambda: ds.create_interface_from_nodes(**dict(kw, nodes0=[-1]))), ("strings", lambda: ds.create_interface_from_nodes(**dict(kw, nodes0=["a"]))),
               ("huge", lambda: ds.create_interface_from_nodes(**dict(kw, nodes0=[2 ** 63]))), ("region0", lambda: ds.create_interface_from_nodes(**dict(kw, region0="nobody"))), ("region1", lambda: ds.create_interface_from_nodes(**dict(kw, region1="nobody"))),
               ("device", lambda: ds.create_interface_from_nodes(**dict(kw, device="nobody"))), ("no_name", lambda: ds.create_interface_from_nodes(**dict(kw, name=""))),
               ("contact_model", lambda: ds.contact_node_model(device=d.name, contact="nobody", name=n, equation="1")), ("contact_edge", lambda: ds.contact_edge_model(device=d.name, contact="nobody", name=n, equation="1")),
               ("interface_model", lambda: ds.interface_model(device=d.name, interface="nobody", name=n, equation="1"))]
        if c:
            bad += [("contact_syntax", lambda: ds.contact_node_model(device=d.name, contact=c, name=n, equation="V +* 2"))]
        if i:
            q = d.interfaces[i]
            kc = dict(device=d.name, region=q["r0"], interface=i, name=n, material="metal")
            bad += [("existing", lambda: ds.create_interface_from_nodes(**dict(kw, name=i))), ("syntax", lambda: ds.interface_model(device=d.name, interface=i, name=n, equation="V@r0 + (V@r1")),
                    ("no_such_model", lambda: ds.get_interface_model_values(device=d.name, interface=i, name=n)), ("contact_interface", lambda: ds.create_contact_from_interface(**dict(kc, interface="nobody"))),
                    ("contact_region", lambda: ds.create_contact_from_interface(**dict(kc, region="nobody"))), ("contact_name", lambda: ds.create_contact_from_interface(**dict(kc, name="")))]
            if c:
                bad += [("contact_existing", lambda: ds.create_contact_from_interface(**dict(kc, name=c)))]
            other = [x for x in d.regions if x not in (q["r0"], q["r1"])]
            if other:
                bad += [("contact_other", lambda: ds.create_contact_from_interface(**dict(kc, region=other[0])))]
                bad += [("elements_other", lambda: ds.get_element_node_list(device=d.name, region=other[0], interface=i))]
        k, f = rng.choice(bad)
        self.ctx.count("refused_" + k)
        self.error("refused_" + k, f)
        if i:
            self.ctx.check(n not in ds.get_interface_model_list(device=d.name, interface=i), "left", "a refused command left the model %s (%s)" % (n, k))
        self.ctx.check(n not in ds.get_node_model_list(**reg.kw()), "left", "a refused command left the model %s (%s)" % (n, k))

    # ---------------------------------------------------------------- oracle
    def look(self, why, everything=False):
        rng, ctx = self.rng, self.ctx
        todo = [(self.look_interface, m) for m in self.models] + [(self.look_contact, m) for m in self.cmodels] + [(self.look_user, u) for u in self.users]
        rng.shuffle(todo)
        for f, m in todo:
            if everything or rng.random() < 0.8:
                f(m, why)
        if everything:
            for d in self.devs:
                for i in d.interfaces:
                    want = {"order0", "order1"} | {n for m in self.models if m["d"] is d and m["i"] == i for n in [m["name"]] + ["%s:%s" % (m["name"], v) for v in m["ders"]]}
                    got = ds.get_interface_model_list(device=d.name, interface=i)
                    ctx.check(sorted(got) == sorted(want), "model_list", "models of interface %s are %s, expected %s" % (i, sorted(got), sorted(want)))

    def compare(self, key, what, got, v, e):
        ctx = self.ctx
        n = len(got)
        got = np.array(got, dtype=float)
        v, e = np.broadcast_to(np.asarray(v, float), (n,)), np.broadcast_to(np.asarray(e, float), (n,))
        ctx.count("values", n)
        with np.errstate(all="ignore"):
            b = ~(np.abs(got - v) <= X.tol(e))
        if b.any():
            k = int(np.argmax(b))
            ctx.violation(key, "%s: at %d got %r, expected %r (%d of %d differ)" % (what, k, float(got[k]), float(v[k]), int(b.sum()), n))

    def usable(self, o, margin):
        return X.usable(o) and all(np.isfinite(y) and y > 1e-9 for y in margin)

    def look_interface(self, m, why):
        d, i = m["d"], m["i"]
        e, lv = self.ienv(d, i)
        k = dict(device=d.name, interface=i)
        if not X.names(m["ast"]) <= set(e):
            # a parameter the regions do not agree on; a factor which is zero everywhere ends a product early
            if not m["smooth"] or any(float(e[x].v) == 0.0 for x in X.names(m["ast"]) & set(self.s.nodes)):
                return
            self.ctx.count("disagree")
            self.error("disagree", lambda: ds.get_interface_model_values(name=m["name"], **k), X.text(m["ast"]))
            return
        margin = []
        with np.errstate(all="ignore"):
            o = X.evaluate(m["ast"], e, margin)
        if not self.usable(o, margin):
            self.ctx.count("unusable")
            return
        n = len(d.interfaces[i]["n0"])
        what = "interface model %s of %s = %s (%s)" % (m["name"], i, X.text(m["ast"]), why)
        self.compare("interface_model", what, self.length(ds.get_interface_model_values(name=m["name"], **k), n, what), o.v, o.e)
        self.ctx.count("interface_models")
        for v in m["ders"]:
            w = o.d.get(v, (0.0, 0.0))
            if not np.isfinite(w[1]).all():
                continue
            self.compare("interface_derivative", "derivative with respect to %s of %s" % (v, what), self.length(ds.get_interface_model_values(name="%s:%s" % (m["name"], v), **k), n, what), w[0], w[1])
            self.ctx.count("interface_derivatives")

    def length(self, x, n, what):
        self.ctx.check(len(x) == n, "length", "%d values instead of %d for %s" % (len(x), n, what))
        return x

    def look_contact(self, m, why):
        d, c, kind = m["d"], m["c"], m["kind"]
        e, lv, reg = self.cenv(d, c, kind)
        at = self.at(d, c, kind)
        # what happens away from the contact does not matter
        margin = []
        with np.errstate(all="ignore"):
            part = {k: D(x.v[at] if np.ndim(x.v) else x.v, x.e[at] if np.ndim(x.e) else x.e, {a: tuple(y[at] if np.ndim(y) else y for y in b) for a, b in x.d.items()}) for k, x in e.items()}
            o = X.evaluate(m["ast"], part, margin)
        if not self.usable(o, margin):
            self.ctx.count("unusable")
            return
        what = "contact %s model %s of %s = %s (%s)" % (kind, m["name"], c, X.text(m["ast"]), why)
        for name, v in [("", (o.v, o.e))] + [(":" + v, o.d.get(v, (0.0, 0.0))) for v in m["ders"]]:
            got = np.array(reg.get(kind, m["name"] + name))
            self.length(got, len(at), what)
            self.ctx.check(bool((got[~at] == 0.0).all()), "elsewhere", lambda: "%s%s has an effect at %s, which are not at the contact" % (what, name, [int(j) for j in np.nonzero(~at & (got != 0.0))[0]][:20]))
            self.compare("contact_model" if not name else "contact_derivative", what + name, got[at], v[0], v[1])
            self.ctx.count("contact_%s%s" % (kind, "_derivatives" if name else "_models"))

    def look_user(self, u, why):
        m, reg = u["m"], u["reg"]
        got = np.array(reg.get("node", u["name"]))
        want = np.array(reg.get("node", m["name"])) * u["a"] + reg.get("node", "V")
        self.ctx.close(got, want, "user", "node model which refers to a contact model (%s)" % why, 1e-12, 1e-13)
        self.ctx.count("users")
