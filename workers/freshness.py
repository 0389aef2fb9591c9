"""C04: long random histories of definitions, assignments, deletions and partial reads; everything is then compared with a
device that has never seen that history (same mesh, parameters, solutions and current definitions)."""
import collections
import numpy as np
import devsim as ds
from vlib import sim, expr as X
from vlib.worker import Skip

NP, NS, NN, NG, NA, NM = 4, 3, 4, 3, 2, 2
FUN = ["exp", "tanh", "B", "erf", "log"]
GET = {"node": "get_node_model_values", "edge": "get_edge_model_values", "element": "get_element_model_values", "interface": "get_interface_model_values"}
PLAN = ["history", "history", "history", "cycle", "history", "errors", "two", "history"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (PLAN[k % len(PLAN)], k), "what": PLAN[k % len(PLAN)], "k": k}


class Slot:
    """a definition: the commands that make it, what it makes, what it needs"""

    def __init__(self, level, cmds, deps, makes):
        self.level, self.cmds, self.deps, self.makes = level, cmds, set(deps), makes


NONE = Slot(0, [], [], [])


class Reg:
    def __init__(self, dim):
        self.dim = dim
        self.slots = {}
        self.onelements = {}
        self.values = {}     # (kind, name) -> values of solutions


class Dev:
    def __init__(self, ctx, rs, name, mesh):
        self.ctx, self.rs, self.name, self.mesh, self.dim = ctx, rs, name, mesh, mesh.dim
        self.reg = {r: Reg(mesh.dim) for r in mesh.regions}
        self.iface = {i: {} for i in mesh.interfaces}
        self.params = {}     # (region or None, name) -> value
        self.late = []       # device level commands
        mesh.build(name)
        for r in self.reg:
            self.start(r)

    # ------------------------------------------------------------ commands
    def call(self, fn, kw):
        getattr(ds, fn)(device=self.name, **kw)

    def put(self, r, name, slot):
        replay(self.name, r, slot)
        self.reg[r].slots[name] = slot

    def size(self, r, kind):
        return len(self.read(r, kind, {"node": "x", "edge": "EdgeLength", "element": "ElementEdgeCouple"}[kind])[1])

    def start(self, r):
        R = self.reg[r]
        for i in range(NS):
            self.solution(r, "s%d" % i, "node", -100 + i)
        self.solution(r, "e0", "edge", -90)
        if self.dim > 1:
            self.solution(r, "w0", "element", -89)
        for i in range(NN):
            self.node_slot(r, i)
        for n in ["s%d" % i for i in range(NS)] + ["n%d" % i for i in range(NN)]:
            self.spread(r, n)
        for i in range(NG):
            self.edge_slot(r, i)
        for i in range(NA):
            self.avg_slot(r, i)
        if self.dim > 1:
            self.elem_field(r)
            for i in range(NM):
                self.elem_slot(r, i)
        self.gradient(r)

    def solution(self, r, name, kind, level):
        R = self.reg[r]
        self.put(r, name, Slot(level, [(kind + "_solution", {"name": name})], [], [(kind, name)]))
        R.values[(kind, name)] = np.zeros(self.size(r, kind))
        self.assign(r, name, kind)

    def assign(self, r, name, kind):
        R, rs = self.reg[r], self.rs
        n = len(R.values[(kind, name)])
        how = rs.rand()
        kw = dict(device=self.name, region=r, name=name)
        if kind == "node" and how < 0.2:
            v = np.full(n, round(float(rs.uniform(-1, 1)), 2))
            ds.set_node_value(value=float(v[0]), **kw)
        elif kind == "node" and how < 0.45:
            v = R.values[(kind, name)].copy()
            j = int(rs.randint(n))
            v[j] = float(rs.uniform(-1.2, 1.2))
            ds.set_node_value(index=j, value=float(v[j]), **kw)
        else:
            v = rs.uniform(-1.2, 1.2, n)
            getattr(ds, "set_%s_values" % kind)(values=[float(x) for x in v], **kw)
        R.values[(kind, name)] = v

    def copy_from(self, r):
        """init_from another model"""
        R, rs = self.reg[r], self.rs
        kind = str(rs.choice(["node", "edge"] + (["element"] if self.dim > 1 else [])))
        targets = [n for k, n in R.values if k == kind]
        t = str(rs.choice(targets))
        srcs = [n for s in R.slots.values() for k, n in s.makes if k == kind and n != t and not self.tainted(r, n)]
        if not srcs:
            return
        s = str(rs.choice(srcs))
        want = self.read(r, kind, s)
        if want[0] != "v":
            return
        getattr(ds, "set_%s_values" % kind)(device=self.name, region=r, name=t, init_from=s)
        R.values[(kind, t)] = np.frombuffer(want[1], dtype=float).copy() if isinstance(want[1], bytes) else want[1].copy()
        self.ctx.count("copies")

    # ------------------------------------------------------------ definitions
    def expression(self, leaves, depth=3, need=None, smooth=False):
        for _ in range(50):
            t = X.gen(self.ctx.rng, leaves, depth, smooth=smooth or self.rs.rand() < 0.7, functions=FUN)
            if 2 <= len(X.names(t)) and X.size(t) < 45 and (not need or X.names(t) & set(need)):
                # keep magnitudes moderate through the levels
                return ("f", "tanh", t) if self.rs.rand() < 0.5 else t
        return ("+", ("v", leaves[-1]), ("v", leaves[0]))

    def globals_(self):
        return ["p%d" % i for i in range(NP)] + ["gp0", "cn0"]

    def node_slot(self, r, i, kind=None):
        R, rs = self.reg[r], self.rs
        name = "n%d" % i
        low = ["s%d" % k for k in range(NS)] + [n for n in ("n%d" % k for k in range(i)) if n in R.slots]
        R.values.pop(("node", name), None)
        kind = kind or str(rs.choice(["model", "model", "model", "model", "solution", "contact", "derivative"]))
        contacts = [c for c, (cr, f) in self.contacts().items() if cr == r]
        if kind == "contact" and not contacts:
            kind = "model"
        if kind == "solution":
            self.solution(r, name, "node", i)
            return
        t = self.expression(low * 2 + self.globals_() + ["NodeVolume", "SurfaceArea", "ContactSurfaceArea", "x"], smooth=kind == "derivative")
        deps = {n for n in X.names(t) if n in R.slots}
        eq = X.text(t, self.ctx.rng)
        if kind == "derivative":
            v = str(rs.choice(sorted(X.names(t))))
            eq = "diff(%s, %s)" % (eq, v)
        if kind == "contact":
            c = str(rs.choice(sorted(contacts)))
            cmds = [("contact_node_model", {"contact": c, "name": name, "equation": eq})]
        else:
            cmds = [("node_model", {"name": name, "equation": eq})]
        self.put(r, name, Slot(i, cmds, deps, [("node", name)]))
        self.ctx.count("def_" + kind)

    def contacts(self):
        c = dict(self.mesh.contacts)
        for fn, kw in self.late:
            if fn == "create_contact_from_interface":
                c[kw["name"]] = (kw["region"], None)
        return c

    def spread(self, r, n):
        """node model on edges and elements"""
        R = self.reg[r]
        cmds, makes = [("edge_from_node_model", {"node_model": n})], [("edge", n + "@n0"), ("edge", n + "@n1")]
        if self.dim > 1 and R.onelements.setdefault(n, bool(self.rs.rand() < 0.6)):
            cmds.append(("element_from_node_model", {"node_model": n}))
            makes += [("element", n + "@en%d" % k) for k in range(self.dim + 1)]
        self.put(r, n + "@", Slot(50 + R.slots[n].level, cmds, [n], makes))

    def edge_leaves(self, r, i):
        R = self.reg[r]
        out = []
        for n in R.slots:
            if n.endswith("@") and not self.tainted(r, n[:-1]):
                out += [n + "n0", n + "n1"]
        out += ["e0"] + [g for g in ("g%d" % k for k in range(i)) if g in R.slots]
        return out

    def owner(self, r, model):
        for s, S in self.reg[r].slots.items():
            if any(m == model for k, m in S.makes):
                return s
        return None

    def deps_of(self, r, t):
        o = {self.owner(r, n) for n in X.names(t)} | {self.owner(r, n.replace("@en", "@n")) for n in X.names(t)}
        return {x for x in o if x}

    def edge_slot(self, r, i):
        R, rs = self.reg[r], self.rs
        name = "g%d" % i
        t = self.expression(self.edge_leaves(r, i) + self.globals_() + ["EdgeLength", "EdgeCouple"])
        eq = X.text(t, self.ctx.rng)
        contacts = [c for c, (cr, f) in self.contacts().items() if cr == r]
        if contacts and rs.rand() < 0.2:
            cmds = [("contact_edge_model", {"contact": str(rs.choice(sorted(contacts))), "name": name, "equation": eq})]
            self.ctx.count("def_contact_edge")
        else:
            cmds = [("edge_model", {"name": name, "equation": eq})]
            self.ctx.count("def_edge")
        self.put(r, name, Slot(200 + i, cmds, self.deps_of(r, t), [("edge", name)]))

    def avg_slot(self, r, i):
        R, rs = self.reg[r], self.rs
        name = "a%d" % i
        nodes = [n for n in R.slots if n[0] in "sn" and not n.endswith("@") and not self.tainted(r, n)]
        n = str(rs.choice(nodes))
        kind = str(rs.choice(["arithmetic", "geometric", "gradient", "negative_gradient"]))
        cmds = [("edge_average_model", {"node_model": n, "edge_model": name, "average_type": kind})]
        # the average brings the node model to the edges if nobody did
        self.put(r, name, Slot(300 + i, cmds, [n, n + "@"], [("edge", name)]))
        self.ctx.count("def_average")

    def gradient(self, r):
        """x, y, z components at the nodes"""
        R, rs = self.reg[r], self.rs
        n = str(rs.choice([n for n in R.slots if n[0] in "sn" and not n.endswith("@") and not self.tainted(r, n)]))
        cmds = [("vector_gradient", {"node_model": n, "calc_type": str(rs.choice(["default", "avoidzero"]))})]
        self.put(r, "grad " + n, Slot(400, cmds, [n], [("node", n + "_grad" + "xyz"[k]) for k in range(self.dim)]))
        self.ctx.count("def_gradient")

    def elem_field(self, r):
        R, rs = self.reg[r], self.rs
        edges = [n for n in R.slots if n[0] in "ga" and not n.startswith("grad") and not self.tainted(r, n)]
        if not edges:
            return
        g = str(rs.choice(edges))
        cmds = [("element_from_edge_model", {"edge_model": g})]
        makes = [("element", g + "_" + "xyz"[k]) for k in range(self.dim)]
        if rs.rand() < 0.5 or len(R.slots.get("field " + g, NONE).cmds) > 1:
            cmds.append(("element_pair_from_edge_model", {"edge_model": g}))
            makes += [("element", g + "_node%d_%s" % (a, "xyz"[k])) for a in (0, 1) for k in range(self.dim)]
        self.put(r, "field " + g, Slot(500, cmds, [g], makes))
        self.ctx.count("def_field")

    def elem_slot(self, r, i):
        R, rs = self.reg[r], self.rs
        name = "m%d" % i
        leaves = ["w0"] + [g for g in list(R.slots) if g[0] in "ga" and not g.startswith("grad") and not self.tainted(r, g)] + [m for m in ("m%d" % k for k in range(i)) if m in R.slots]
        for s, S in R.slots.items():
            if S.level < 600 and not self.tainted(r, s):
                leaves += [m for k, m in S.makes if k == "element"]
        for n in R.slots:
            if n.endswith("@") and not self.tainted(r, n):
                leaves += [n + "en0", n + "en1"]     # falls back to the edge model
        t = self.expression(leaves + self.globals_() + ["ElementEdgeCouple", "EdgeLength"])
        deps = self.deps_of(r, t)
        self.put(r, name, Slot(600 + i, [("element_model", {"name": name, "equation": X.text(t, self.ctx.rng)})], deps, [("element", name)]))
        if rs.rand() < 0.4 and "vec " + name not in R.slots:
            self.put(r, "vec " + name, Slot(700 + i, [("vector_element_model", {"element_model": name})], [name], [("element", name + "_" + "xyz"[k]) for k in range(self.dim)]))
        self.ctx.count("def_element")

    def iface_slot(self, i):
        r0, r1, f = self.mesh.interfaces[i]
        rs = self.rs
        name = "if%d" % rs.randint(2)
        leaves = []
        for r, sfx in ((r0, "@r0"), (r1, "@r1")):
            leaves += [n + sfx for n in self.reg[r].slots if n[0] in "sn" and not n.endswith("@") and not self.tainted(r, n)]
        if name == "if1" and "if0" in self.iface[i]:
            leaves += ["if0"] * 3
        t = self.expression(leaves + ["gp0", "cn0"])
        deps = {(r0 if n.endswith("@r0") else r1, n[:-3]) for n in X.names(t) if "@r" in n} | ({(None, "if0")} if "if0" in X.names(t) else set())
        self.iface[i].pop(name, None)
        kw = {"interface": i, "name": name, "equation": X.text(t, self.ctx.rng)}
        self.call("interface_model", kw)
        self.iface[i][name] = (kw, deps)
        self.ctx.count("def_interface")

    # ------------------------------------------------------------ dependencies
    def tainted(self, r, name):
        """slot that needs, directly or not, a definition that is missing"""
        R = self.reg[r]
        seen, todo = set(), [name if name in R.slots else (self.owner(r, name) or name)]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n not in R.slots:
                if n.endswith("@") and name[0] == "a":
                    continue
                return True
            todo += list(R.slots[n].deps)
        return False

    def iface_tainted(self, i, name):
        kw, deps = self.iface[i][name]
        return any(self.iface_tainted(i, n) if r is None and n in self.iface[i] else (True if r is None else self.tainted(r, n)) for r, n in deps)

    # ------------------------------------------------------------ reading
    def read(self, r, kind, name):
        return read(self.name, r, kind, name)

    def all_models(self):
        for r, R in self.reg.items():
            for s, S in list(R.slots.items()):
                for k, m in S.makes:
                    yield r, s, k, m
            for m in ("NodeVolume", "SurfaceArea", "ContactSurfaceArea", "AtContactNode"):
                yield r, None, "node", m

    def read_some(self, p):
        for r, s, k, m in self.all_models():
            if self.rs.rand() < p:
                self.read(r, k, m)
                self.ctx.count("partial_reads")
        for i in self.iface:
            for n in self.iface[i]:
                if self.rs.rand() < p:
                    read(self.name, i, "interface", n)

    # ------------------------------------------------------------ the twin
    def compare(self, label):
        twin = "twin"
        self.mesh.build(twin)
        for fn, kw in self.late:
            getattr(ds, fn)(device=twin, **kw)
        for (r, n), v in self.params.items():
            kw = {"device": twin}
            if r:
                kw["region"] = r
            ds.set_parameter(name=n, value=v, **kw)
        names = {}
        for r, R in self.reg.items():
            ok = {s: not self.tainted(r, s) for s in R.slots}
            for s in sorted(R.slots, key=lambda s: R.slots[s].level):
                if not ok[s]:
                    continue
                replay(twin, r, R.slots[s])
                for k, m in R.slots[s].makes:
                    if (k, m) in R.values:
                        getattr(ds, "set_%s_values" % k)(device=twin, region=r, name=m, values=[float(x) for x in R.values[(k, m)]])
            names[r] = ok
        for i in self.iface:
            for n in sorted(self.iface[i]):
                if not self.iface_tainted(i, n):
                    getattr(ds, "interface_model")(device=twin, **self.iface[i][n][0])
        todo = [(r, s, k, m) for r, s, k, m in self.all_models() if s is None or names[r][s]]
        order = self.rs.permutation(len(todo))
        for j in order:
            r, s, k, m = todo[j]
            self.same(r, k, m, read(self.name, r, k, m), read(twin, r, k, m), label)
        for i in self.iface:
            for n in sorted(self.iface[i]):
                if not self.iface_tainted(i, n):
                    self.same(i, "interface", n, read(self.name, i, "interface", n), read(twin, i, "interface", n), label)
        ds.delete_device(device=twin)
        ds.delete_mesh(mesh=twin + "_mesh")

    def same(self, where, k, m, a, b, label):
        self.ctx.count("values", len(a[1]) if a[0] == "v" else 1)
        self.ctx.count("comparisons")
        S = None
        if a[0] != b[0]:
            self.ctx.violation("freshness-%s" % k, "%s %s %s: %s, a device without the history: %s" % (label, where, m, a[1] if a[0] == "e" else "a value", b[1] if b[0] == "e" else "a value"), self.describe(where, m))
        elif a[0] == "e":
            self.ctx.count("same_errors")
        elif a[1].tobytes() != b[1].tobytes() and not (len(a[1]) == len(b[1]) and np.allclose(a[1], b[1], rtol=1e-11, atol=1e-13 * (1 + np.abs(b[1]).max() if len(b[1]) else 1), equal_nan=True)):
            j = int(np.argmax(np.abs(a[1] - b[1]))) if len(a[1]) == len(b[1]) else -1
            self.ctx.violation("freshness-%s" % k, "%s %s %s[%d]: read %r, a device without the history has %r" % (label, where, m, j, a[1][j] if j >= 0 else len(a[1]), b[1][j] if j >= 0 else len(b[1])), self.describe(where, m))

    def describe(self, where, m):
        out = {"history": HISTORY[-60:], "params": [(str(k), str(v)) for k, v in self.params.items()]}
        if where in self.iface:
            out["interface"] = self.iface[where].get(m)
        if where in self.reg:
            s = self.owner(where, m)
            todo, seen = [s], {}
            while todo:
                n = todo.pop()
                if n in self.reg[where].slots and n not in seen:
                    seen[n] = self.reg[where].slots[n].cmds
                    todo += self.reg[where].slots[n].deps
            out["definitions"] = seen
        return out


HISTORY = []


def replay(dev, r, slot):
    for fn, kw in slot.cmds:
        if not fn.startswith("contact_"):
            kw = dict(kw, region=r)
        getattr(ds, fn)(device=dev, **kw)


def read(dev, where, kind, name):
    kw = {"device": dev, "name": name}
    kw["interface" if kind == "interface" else "region"] = where
    try:
        return ("v", np.array(getattr(ds, GET[kind])(**kw)))
    except ds.error as e:
        return ("e", str(e)[:200])


# ---------------------------------------------------------------- cases
def setup(ctx, rs, ndev=1):
    sim.reset()
    HISTORY.clear()
    for i in range(NP):
        ds.set_parameter(name="p%d" % i, value=float(rs.uniform(-1, 1)))
    ds.set_parameter(name="gp0", value=float(rs.uniform(-1, 1)))
    if rs.rand() < 0.2:
        ds.set_parameter(name="threads_available", value=3)
        ds.set_parameter(name="threads_task_size", value=2)
    ds.add_circuit_node(name="cn0", variable_update="default")
    ds.circuit_element(name="R0", n1="cn0", n2="0", value=1.0)
    ds.circuit_element(name="I0", n1="cn0", n2="0", value=float(rs.uniform(-1, 1)))
    ds.solve(type="dc", absolute_error=1.0, relative_error=1e-8, maximum_iterations=5)
    devs = []
    for k in range(ndev):
        mesh = small_mesh(rs)
        if k and rs.rand() < 0.5:
            mesh = devs[0].mesh
        devs.append(Dev(ctx, rs, "dev%d" % k, mesh))
    return devs


def small_mesh(rs):
    dim = int(rs.choice([1, 1, 2, 2, 3]))
    nreg = int(rs.choice([1, 2, 2]))
    if dim == 1:
        return sim.mesh1d(rs, nreg, n=int(rs.randint(2, 6)))
    if dim == 2:
        return sim.mesh2d(rs, nreg, nx=int(rs.randint(2, 4)), ny=int(rs.randint(1, 4)), kind="right")
    return sim.mesh3d(rs, nreg, n=(2, 1, 1))


def set_global(ctx, rs, devs):
    n = str(rs.choice(["p%d" % i for i in range(NP)] + ["gp0"]))
    ds.set_parameter(name=n, value=value(rs))
    return "global " + n


def value(rs):
    return float(rs.choice([0.0, 1.0, -0.5, 2.0])) if rs.rand() < 0.3 else float(rs.uniform(-1.5, 1.5))


def do(ctx, rs, devs):
    d = devs[rs.randint(len(devs))]
    r = str(rs.choice(sorted(d.reg)))
    R = d.reg[r]
    op = str(rs.choice(["global", "param", "param", "assign", "assign", "assign", "copy", "cnode", "node", "node", "edge", "avg", "elem", "field", "grad", "spread",
                        "iface", "delete", "recreate", "latecontact", "same", "resolve"]))
    what = "%s %s %s" % (op, d.name, r)
    if op == "global":
        what += set_global(ctx, rs, devs)
    elif op == "param":
        n = "p%d" % rs.randint(NP)
        sc = r if rs.rand() < 0.6 else None
        v = value(rs)
        if sc:
            ds.set_parameter(device=d.name, region=sc, name=n, value=v)
        else:
            ds.set_parameter(device=d.name, name=n, value=v)
        d.params[(sc, n)] = v
        what += " %s %s" % (sc, n)
    elif op == "assign":
        k, n = sorted(R.values)[rs.randint(len(R.values))]
        d.assign(r, n, k)
        what += " " + n
    elif op == "copy":
        d.copy_from(r)
    elif op == "cnode":
        ds.set_circuit_node_value(solution="dcop", node="cn0", value=value(rs))
    elif op == "resolve":
        ds.circuit_alter(name="I0", value=value(rs))
        saved = {}
        ds.solve(type="dc", absolute_error=1.0, relative_error=1e-8, maximum_iterations=5)
    elif op == "node":
        i = int(rs.randint(NN))
        d.node_slot(r, i)
        what += " n%d" % i
    elif op == "edge":
        i = int(rs.randint(NG))
        d.edge_slot(r, i)
        what += " g%d" % i
    elif op == "avg":
        d.avg_slot(r, int(rs.randint(NA)))
    elif op == "grad":
        d.gradient(r)
    elif op == "elem" and d.dim > 1:
        d.elem_slot(r, int(rs.randint(NM)))
    elif op == "field" and d.dim > 1:
        d.elem_field(r)
    elif op == "spread":
        n = str(rs.choice([n for n in R.slots if n[0] in "sn" and not n.endswith("@") and not d.tainted(r, n)]))
        d.spread(r, n) if n + "@" not in R.slots else None
    elif op == "iface" and d.iface:
        d.iface_slot(str(rs.choice(sorted(d.iface))))
    elif op == "delete":
        cand = [n for n in R.slots if (n[0] in "ngm" and not n.startswith("grad") and not n.endswith("@"))]
        n = str(rs.choice(cand))
        k = {"n": "node", "g": "edge", "m": "element"}[n[0]]
        if n[0] == "n":
            # what was made from it goes first, or survives and is unusable until the node model is back
            if rs.rand() < 0.5 and n + "@" in R.slots:
                for kk, m in R.slots[n + "@"].makes:
                    getattr(ds, "delete_%s_model" % kk)(device=d.name, region=r, name=m)
                del R.slots[n + "@"]
        getattr(ds, "delete_%s_model" % k)(device=d.name, region=r, name=n)
        del R.slots[n]
        R.values.pop((k, n), None)
        ctx.count("deletions")
        what += " " + n
    elif op == "recreate":
        for n in ["n%d" % i for i in range(NN)]:
            if n not in R.slots:
                d.node_slot(r, int(n[1:]))
                what += " " + n
            if n + "@" not in R.slots and not d.tainted(r, n):
                d.spread(r, n)
        for i in range(NG):
            if "g%d" % i not in R.slots:
                d.edge_slot(r, i)
                what += " g%d" % i
        if d.dim > 1:
            for i in range(NM):
                if "m%d" % i not in R.slots:
                    d.elem_slot(r, i)
    elif op == "latecontact" and d.iface and not d.late and rs.rand() < 0.5:
        i = str(rs.choice(sorted(d.iface)))
        if r in d.mesh.interfaces[i][:2]:
            kw = {"region": r, "interface": i, "material": "m", "name": "late"}
            d.call("create_contact_from_interface", kw)
            d.late.append(("create_contact_from_interface", kw))
            ctx.count("late_contacts")
    elif op == "same":
        # the same definition once more
        same = [n for n in R.slots if not n.endswith("@") and not d.tainted(r, n) and not any((k, m) in R.values for k, m in R.slots[n].makes)]
        if not same:
            return
        n = str(rs.choice(same))
        d.put(r, n, R.slots[n])
        what += " " + n
    else:
        return
    HISTORY.append(what)
    ctx.count("operations")
    ctx.distinct(op, d.dim, len(ctx.dist))


def run_case(ctx, case):
    globals()["case_" + case["what"]](ctx, ctx.np(), case)


def case_history(ctx, rs, case, ndev=1):
    devs = setup(ctx, rs, ndev)
    for step in range(int(rs.randint(4, 9))):
        for _ in range(int(rs.choice([1, 1, 2, 3, 6]))):
            do(ctx, rs, devs)
            if rs.rand() < 0.6:
                devs[rs.randint(len(devs))].read_some(float(rs.choice([0.05, 0.2, 0.6, 1.0])))
        for d in devs:
            d.compare("%s after %d operations" % (d.name, len(HISTORY)))
        if ctx.nviol:
            return


def case_two(ctx, rs, case):
    case_history(ctx, rs, case, 2)


def case_cycle(ctx, rs, case):
    d, = setup(ctx, rs)
    r = str(rs.choice(sorted(d.reg)))
    R = d.reg[r]
    for i in range(NN):
        d.node_slot(r, i, "model")
    kind = str(rs.choice(["node", "node", "edge"] + (["element"] if d.dim > 1 else [])))
    pre = {"node": "n", "edge": "g", "element": "m"}[kind]
    top = {"node": NN, "edge": NG, "element": NM}[kind]
    lo = 0
    hi = int(rs.randint(0, top))
    # a chain lo .. hi, then the lowest is made to use the highest
    chain = ["%s%d" % (pre, k) for k in range(lo, hi + 1)]
    leaf = {"node": "s0", "edge": "e0", "element": "w0"}[kind]
    fn = kind + "_model"

    def define(n, eq, deps):
        d.put(r, n, Slot({"node": 0, "edge": 200, "element": 600}[kind] + int(n[1:]), [(fn, {"name": n, "equation": eq})], deps, [(kind, n)]))
    define(chain[0], "%s + p0" % leaf, {leaf})
    for a, b in zip(chain, chain[1:]):
        define(b, "%s * p1 + %s" % (a, leaf), {a, leaf})
    if rs.rand() < 0.7:
        d.read_some(0.7)
    for k in range(int(rs.randint(1, 4))):
        d.call(fn, {"region": r, "name": chain[0], "equation": "%s*0.5 + p%d" % (chain[-1], k)})
        HISTORY.append("cycle through %s" % chain)
        bad, ok = [], []
        for s in list(R.slots):
            seen, todo = set(), [s]
            while todo:
                n = todo.pop()
                if n in seen or n not in R.slots:
                    continue
                seen.add(n)
                todo += list(R.slots[n].deps)
            (bad if seen & set(chain) else ok).append(s)
        for rep in range(2):
            for s in bad:
                if s.rstrip("@") not in chain:
                    continue      # may not need the value: a factor that is 0
                for kk, m in R.slots[s].makes:
                    x = read(d.name, r, kk, m)
                    ctx.check(x[0] == "e", "cycle-silent-%s" % kk, lambda: "%s %s depends on a dependency cycle through %s and returned %s (read %d)" % (kk, m, chain, list(x[1][:3]), rep), d.describe(r, m))
                    ctx.count("cyclic_reads")
            for s in ok:
                for kk, m in R.slots[s].makes:
                    x = read(d.name, r, kk, m)
                    ctx.check(x[0] == "v" or "floating point" in x[1], "cycle-spreads-%s" % kk, lambda: "%s %s does not depend on the cycle through %s: %s" % (kk, m, chain, x[1]), d.describe(r, m))
            if rs.rand() < 0.5:
                ds.set_parameter(name="p%d" % k, value=value(rs) or 0.75)   # a product with 0 needs no other operand
            else:
                d.assign(r, leaf, kind)
        define(chain[0], "%s*%s" % (leaf, "p2"), {leaf})
        HISTORY.append("cycle broken")
        d.compare("after a cycle was broken")
        ctx.distinct("cycle", kind, hi, d.dim)


def case_errors(ctx, rs, case):
    """parameters that are text and values out of a function's range: an error on every read, until it is repaired"""
    d, = setup(ctx, rs)
    r = str(rs.choice(sorted(d.reg)))
    R = d.reg[r]
    k = int(rs.randint(NN - 1))
    d.put(r, "n%d" % k, Slot(k, [("node_model", {"name": "n%d" % k, "equation": str(rs.choice(["log(s0)*p0", "1/s0 + p1", "p0*s1^0.5", "p1/s2"]))})], {"s0", "s1", "s2"}, [("node", "n%d" % k)]))
    R.values.pop(("node", "n%d" % k), None)
    d.put(r, "g0", Slot(200, [("edge_model", {"name": "g0", "equation": str(rs.choice(["log(s0@n0 - s0@n1 + p0)", "1/(s1@n0*p1)", "n%d@n0*n%d@n1" % (k, k), "exp(800*e0)"]))})],
                     {"s0@", "s1@", "n%d@" % k, "e0"}, [("edge", "g0")]))
    for step in range(int(rs.randint(3, 8))):
        what = rs.rand()
        if what < 0.25:
            n = "p%d" % rs.randint(2)
            v = "text"
            sc = int(rs.randint(3))
            if sc == 0:
                ds.set_parameter(name=n, value=v)
            elif sc == 1:
                ds.set_parameter(device=d.name, name=n, value=v)
                d.params[(None, n)] = v
            else:
                ds.set_parameter(device=d.name, region=r, name=n, value=v)
                d.params[(r, n)] = v
            HISTORY.append("text %s %d" % (n, sc))
        elif what < 0.5:
            for n in ("p0", "p1"):
                for key in list(d.params):
                    if key[1] == n:
                        v = value(rs)
                        d.params[key] = v
                        if key[0]:
                            ds.set_parameter(device=d.name, region=key[0], name=n, value=v)
                        else:
                            ds.set_parameter(device=d.name, name=n, value=v)
                ds.set_parameter(name=n, value=value(rs))
            HISTORY.append("numbers")
        elif what < 0.75:
            n = "s%d" % rs.randint(3)
            v = rs.uniform(0.1, 1, len(R.values[("node", n)]))
            if rs.rand() < 0.5:
                v[rs.randint(len(v))] = rs.choice([0.0, -1.0])
            ds.set_node_values(device=d.name, region=r, name=n, values=v.tolist())
            R.values[("node", n)] = v
            HISTORY.append("values " + n)
        else:
            for _ in range(2):
                do(ctx, rs, [d])
        if rs.rand() < 0.6:
            d.read_some(0.3)
        d.compare("after %d operations" % len(HISTORY))
        d.compare("again, after %d operations" % len(HISTORY))
        if ctx.nviol:
            return
    ctx.distinct("errors", case["k"])
