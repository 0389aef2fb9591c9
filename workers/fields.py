"""C07: edge, element edge and node models made from the values of others: averages, gradients, field components, vectors,
ends; their values and derivatives against an independent evaluation from positions, and against changes of the solution."""
import numpy as np
import devsim as ds
from vlib import sim, grad
from vlib.worker import Skip

DEV = "d"
PLAN = ["averages", "fields", "fields", "gradients", "difference", "averages", "fields", "stored", "linear", "difference", "gradients", "linear"]
AXES = "xyz"


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan", PLAN)
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


def build(ctx, rs, dims=(1, 2, 2, 3)):
    sim.reset()
    dim = int(rs.choice(dims))
    m = sim.any_mesh(rs, dim=dim, nreg=int(rs.choice([1, 1, 2])), scale=float(rs.choice([1.0, 1e-4, 50.0])))
    ext = rs.rand() < 0.2
    if ext:
        ds.set_parameter(name="extended_model", value=True)
        ctx.count("extended")
    m.build(DEV)
    ctx.count("dim%d" % dim)
    return m, dim, str(rs.choice(list(m.regions)))


def E(reg, name, eq):
    ds.edge_model(device=DEV, region=reg, name=name, equation=eq)


def N(reg, name, eq):
    ds.node_model(device=DEV, region=reg, name=name, equation=eq)


class Region:
    """positions, edges, elements of a region as the simulator numbers them"""

    def __init__(self, reg, dim):
        self.reg, self.dim = reg, dim
        self.x = sim.nodes_of(DEV, reg)
        self.edges = sim.edges_of(DEV, reg)
        self.vec = self.x[self.edges[:, 1]] - self.x[self.edges[:, 0]]
        self.len = np.sqrt((self.vec ** 2).sum(axis=1))
        self.unit = self.vec / self.len[:, None]
        if dim > 1:
            self.el = sim.element_edges_of(DEV, reg, dim)
            self.per = 3 if dim == 2 else 6
            where = {}
            for i, (a, b) in enumerate(self.edges.tolist()):
                where[(a, b)] = i
            # rows of the element edges: the region's edge, which has the same first and second node
            self.row_edge = np.array([where.get((int(r[0]), int(r[1])), -1) for r in self.el])
            self.couple = sim.elv(DEV, reg, "ElementEdgeCouple")
            # edges of the element at either end of a row
            self.corner = []
            for t in range(len(self.el) // self.per):
                rows = list(range(t * self.per, (t + 1) * self.per))
                for r in rows:
                    ends = []
                    for k in (0, 1):
                        n = self.el[r][k]
                        ends.append([q for q in rows if n in self.el[q][:2]])
                    self.corner.append(ends)

    def check_elements(self, ctx):
        good = ctx.check((self.row_edge >= 0).all(), "element-ends", "an element edge does not have the first and second node of an edge of the region",
                         {"rows": np.nonzero(self.row_edge < 0)[0][:4]})
        for t, nodes in enumerate(ds.get_element_node_list(device=DEV, region=self.reg)):
            rows = self.el[t * self.per:(t + 1) * self.per]
            for r in rows:
                good = good and ctx.check(sorted(r.tolist()) == sorted(nodes), "element-nodes", "the nodes of an element edge are not those of its element", {"element": t, "row": r, "nodes": nodes})
        return good

    def corners(self, data):
        """field vectors at both ends of each row, from the edge projections data (per row): R x 2 x dim, and their error scale"""
        R, d = len(self.el), self.dim
        out, mag = np.zeros((R, 2, d)), np.zeros((R, 2))
        for r in range(R):
            for k in (0, 1):
                q = self.corner[r][k]
                m = self.unit[self.row_edge[q]][:, :d]
                inv = np.linalg.inv(m)
                out[r, k] = inv @ data[q]
                mag[r, k] = np.abs(inv).sum() * (np.abs(data[q]).max() + 0.0) * max(1.0, np.abs(inv).max())
        return out, mag

    def mean(self, c, mag):
        """the element's field on a row: corner vectors weighted in 2D by the couple of the other edge at that corner"""
        if self.dim == 3:
            return c.mean(axis=1), mag.max(axis=1)
        w = np.zeros(c.shape[:2])
        for r in range(len(w)):
            for k in (0, 1):
                o = [q for q in self.corner[r][k] if q != r][0]
                w[r, k] = self.couple[o]
        s = w.sum(axis=1)
        return (c * w[:, :, None]).sum(axis=1) / s[:, None], mag.max(axis=1) * np.maximum(1.0, np.abs(w).sum(axis=1) / np.abs(s))


def solution(rs, reg, names, x, positive=False):
    out = {}
    for n in names:
        ds.node_solution(device=DEV, region=reg, name=n)
        v = rs.uniform(0.3, 2.0, len(x)) if positive or rs.rand() < 0.5 else rs.uniform(-1.5, 1.5, len(x))
        ds.set_node_values(device=DEV, region=reg, name=n, values=v.tolist())
        ds.edge_from_node_model(device=DEV, region=reg, node_model=n)
        out[n] = v
    return out


FORMS = [("V*W+2*V", lambda v, w: v * w + 2 * v, lambda v, w: w + 2, lambda v, w: v),
         ("V^2+W", lambda v, w: v * v + w, lambda v, w: 2 * v, lambda v, w: 1 + 0 * w),
         ("3*V+exp(0.5*W)", lambda v, w: 3 * v + np.exp(0.5 * w), lambda v, w: 3 + 0 * v, lambda v, w: 0.5 * np.exp(0.5 * w)),
         ("V^2*W^2+1", lambda v, w: v * v * w * w + 1, lambda v, w: 2 * v * w * w, lambda v, w: 2 * w * v * v)]


def node_form(rs, reg):
    eq, f, fv, fw = FORMS[rs.randint(len(FORMS))]
    N(reg, "f", eq)
    N(reg, "f:V", "diff(%s,V)" % eq)
    N(reg, "f:W", "diff(%s,W)" % eq)
    return f, fv, fw


EDGES = [("(V@n1-V@n0)*EdgeInverseLength", lambda a, b, c, d, i: (b - a) * i, [lambda a, b, c, d, i: -i, lambda a, b, c, d, i: i, None, None]),
         ("V@n0*W@n1-2*V@n1*V@n1+W@n0", lambda a, b, c, d, i: a * d - 2 * b * b + c,
          [lambda a, b, c, d, i: d, lambda a, b, c, d, i: -4 * b, lambda a, b, c, d, i: 1 + 0 * a, lambda a, b, c, d, i: a]),
         ("exp(0.3*V@n0)-W@n1*V@n1", lambda a, b, c, d, i: np.exp(0.3 * a) - d * b,
          [lambda a, b, c, d, i: 0.3 * np.exp(0.3 * a), lambda a, b, c, d, i: -d, lambda a, b, c, d, i: 0 * a, lambda a, b, c, d, i: -b])]


def edge_form(rs, reg):
    eq, f, der = EDGES[rs.randint(len(EDGES))]
    E(reg, "e", eq)
    for j, v in enumerate(("V@n0", "V@n1", "W@n0", "W@n1")):
        E(reg, "e:" + v, "diff(%s,%s)" % (eq, v))
        if der[j] is None:
            der = list(der)
            der[j] = lambda a, b, c, d, i: 0 * a
    return f, der


def run_case(ctx, case):
    rs = np.random.RandomState(ctx.rng.randrange(2 ** 31))
    globals()["case_" + case["what"]](ctx, rs)
    ctx.distinct("what", case["what"])


def cmp(ctx, reg, kind, name, want, what, scale, rtol=1e-11):
    get = {"n": sim.nv, "e": sim.ev, "m": sim.elv}[kind]
    ctx.count("compared", len(want))
    return ctx.close(get(DEV, reg, name), want, what, "%s (%s)" % (name, what), rtol, 0.0, scale)


# ---------------------------------------------------------------- averages and ends
def case_averages(ctx, rs):
    m, dim, reg = build(ctx, rs)
    R = Region(reg, dim)
    s = solution(rs, reg, ["V", "W"], R.x, positive=True)
    f, fv, fw = node_form(rs, reg)
    a, b = R.edges[:, 0], R.edges[:, 1]
    nodes = {"V": (s["V"], {"V": np.ones(len(R.x))}), "f": (f(s["V"], s["W"]), {"V": fv(s["V"], s["W"]), "W": fw(s["V"], s["W"])})}
    for n, (val, ders) in nodes.items():
        ds.edge_from_node_model(device=DEV, region=reg, node_model=n)
        sc = np.abs(val).max()
        cmp(ctx, reg, "e", n + "@n0", val[a], "ends", sc, 1e-14)
        cmp(ctx, reg, "e", n + "@n1", val[b], "ends", sc, 1e-14)
        for t in ("arithmetic", "geometric", "gradient", "negative_gradient"):
            if t == "geometric" and (val <= 0).any():
                continue
            args = {} if t == "arithmetic" and rs.rand() < 0.5 else {"average_type": t}
            nm = n + "_" + t
            x, y, L = val[a], val[b], 1 / R.len
            want, s0, s1 = {"arithmetic": lambda: (0.5 * (x + y), 0.5, 0.5),
                            "geometric": lambda: (np.sqrt(x * y), 0.5 * np.sqrt(y / x), 0.5 * np.sqrt(x / y)),
                            "gradient": lambda: ((y - x) * L, -L, L),
                            "negative_gradient": lambda: ((x - y) * L, L, -L)}[t]()
            ds.edge_average_model(device=DEV, region=reg, node_model=n, edge_model=nm, **args)
            lm = 1.0 if t in ("arithmetic", "geometric") else L
            cmp(ctx, reg, "e", nm, want, "average", sc * lm)
            for v, d in ders.items():
                ds.edge_average_model(device=DEV, region=reg, node_model=n, edge_model=nm, derivative=v, **args)
                sd = np.abs(d).max() + 1e-30
                cmp(ctx, reg, "e", nm + ":" + v + "@n0", s0 * d[a], "average-derivative", sd * np.abs(s0))
                cmp(ctx, reg, "e", nm + ":" + v + "@n1", s1 * d[b], "average-derivative", sd * np.abs(s1))
            ctx.count("average_" + t)
            ctx.distinct("average", (t, n, dim))
    # they follow the solution
    s["V"] = rs.uniform(0.3, 2.0, len(R.x))
    ds.set_node_values(device=DEV, region=reg, name="V", values=s["V"].tolist())
    cmp(ctx, reg, "e", "V_arithmetic", 0.5 * (s["V"][a] + s["V"][b]), "average", 2.0)
    cmp(ctx, reg, "e", "V_gradient", (s["V"][b] - s["V"][a]) / R.len, "average", 2 / R.len)
    g0 = sim.ev(DEV, reg, "V_geometric:V@n0")
    ctx.close(g0, 0.5 * np.sqrt(s["V"][b] / s["V"][a]), "average-derivative", "V_geometric:V@n0 after a change", 1e-11, 0.0, 4.0)
    for bad in ({"average_type": "harmonic"}, {"derivative": "nothere"}, {"node_model": "nothere"}):
        kw = {"node_model": "V", "edge_model": "bad"}
        kw.update(bad)
        try:
            ds.edge_average_model(device=DEV, region=reg, **kw)
            ctx.violation("accepted", "edge_average_model accepted %r" % (bad,))
        except ds.error:
            ctx.count("rejected")
        left = [k for k in ds.get_edge_model_list(device=DEV, region=reg) if k.startswith("bad")]
        ctx.check(not left, "rejected-effect", "a rejected average left a model", {"models": left, "arguments": bad})


# ---------------------------------------------------------------- fields on elements
def field_names(model, pair, d):
    return [["%s%s_%s" % (model, ("_node%d" % k) if pair else "", AXES[i]) for i in range(d)] for k in range(2 if pair else 1)]


def case_fields(ctx, rs):
    m, dim, reg = build(ctx, rs, dims=(2, 2, 3, 1))
    R = Region(reg, dim)
    s = solution(rs, reg, ["V", "W"], R.x)
    f, der = edge_form(rs, reg)
    if dim == 1:
        for c, kw in (("element_from_edge_model", {"edge_model": "e"}), ("element_pair_from_edge_model", {"edge_model": "e"}), ("element_from_node_model", {"node_model": "V"}),
                      ("vector_element_model", {"element_model": "e"}), ("element_from_edge_model", {"edge_model": "e", "derivative": "V"})):
            try:
                getattr(ds, c)(device=DEV, region=reg, **kw)
                ctx.violation("1d", c + " was accepted in 1D")
            except ds.error:
                ctx.count("rejected_1d")
        return
    if not R.check_elements(ctx):
        return
    a, b = R.edges[:, 0], R.edges[:, 1]
    arg = (s["V"][a], s["V"][b], s["W"][a], s["W"][b], 1 / R.len)
    order = list(rs.permutation(["field", "pair", "vector", "ends"]))
    if rs.rand() < 0.3:
        ds.get_element_model_values(device=DEV, region=reg, name="ElementNodeVolume")
    data = f(*arg)[R.row_edge]
    for what in order:
        if what in ("field", "pair"):
            pair = what == "pair"
            cmd = ds.element_pair_from_edge_model if pair else ds.element_from_edge_model
            cmd(device=DEV, region=reg, edge_model="e")
            c, mag = R.corners(data)
            compare_field(ctx, R, reg, "e", "", pair, c, mag, what)
            for v, j in (("V", 0), ("W", 2)):
                cmd(device=DEV, region=reg, edge_model="e", derivative=v)
                d0, d1 = der[j](*arg), der[j + 1](*arg)
                top = max(np.abs(d0).max(), np.abs(d1).max())
                for k in range(dim + 1):
                    n = R.el[:, k]
                    # the derivative of the projections of an element on its edges with respect to the value at one of its nodes
                    cc, mm = np.zeros((len(R.el), 2, dim)), np.zeros((len(R.el), 2))
                    for r in range(len(R.el)):
                        for e in (0, 1):
                            q = R.corner[r][e]
                            dd = np.array([d0[R.row_edge[i]] if R.el[i][0] == n[r] else d1[R.row_edge[i]] if R.el[i][1] == n[r] else 0.0 for i in q])
                            inv = np.linalg.inv(R.unit[R.row_edge[q]][:, :dim])
                            cc[r, e] = inv @ dd
                            mm[r, e] = np.abs(inv).sum() * top * max(1.0, np.abs(inv).max())
                    compare_field(ctx, R, reg, "e", ":%s@en%d" % (v, k), pair, cc, mm, what + "-derivative")
        elif what == "vector":
            ds.element_model(device=DEV, region=reg, name="m", equation="ElementEdgeCouple*0+e+0.5")
            ds.element_from_node_model(device=DEV, region=reg, node_model="V")
            if rs.rand() < 0.5:
                ds.element_model(device=DEV, region=reg, name="m", equation="V@en0-2*V@en1+V@en2*e")
                md = s["V"][R.el[:, 0]] - 2 * s["V"][R.el[:, 1]] + s["V"][R.el[:, 2]] * data
            else:
                md = data + 0.5
            ds.vector_element_model(device=DEV, region=reg, element_model="m")
            c, mag = R.corners(md)
            compare_field(ctx, R, reg, "m", "", False, c, mag, "vector")
        else:
            ds.element_from_node_model(device=DEV, region=reg, node_model="V")
            for k in range(dim + 1):
                cmp(ctx, reg, "m", "V@en%d" % k, s["V"][R.el[:, k]], "element-ends", np.abs(s["V"]).max(), 1e-14)
        ctx.count("made_" + what)
        ctx.distinct("field", (what, dim))


def compare_field(ctx, R, reg, model, suffix, pair, c, mag, what):
    names = field_names(model, pair, R.dim)
    if pair:
        for k in (0, 1):
            for i in range(R.dim):
                cmp(ctx, reg, "m", names[k][i] + suffix, c[:, k, i], what, mag[:, k] + 1e-300, 1e-10)
    else:
        v, mg = R.mean(c, mag)
        for i in range(R.dim):
            cmp(ctx, reg, "m", names[0][i] + suffix, v[:, i], what, mg + 1e-300, 1e-10)


# ---------------------------------------------------------------- potentials linear in the position
def case_linear(ctx, rs):
    m, dim, reg = build(ctx, rs, dims=(2, 2, 3, 1))
    x = sim.nodes_of(DEV, reg)
    g = rs.uniform(-2, 2, 3)
    V = x[:, :dim] @ g[:dim] + rs.uniform(-1, 1) * np.abs(x).max()
    ds.node_solution(device=DEV, region=reg, name="V")
    ds.set_node_values(device=DEV, region=reg, name="V", values=V.tolist())
    ds.edge_average_model(device=DEV, region=reg, node_model="V", edge_model="F", average_type="negative_gradient")
    ds.vector_gradient(device=DEV, region=reg, node_model="V")
    R = Region(reg, dim)
    tol = 1e-9 * np.abs(V).max() / R.len.min() + 1e-9
    cond = 1.0
    if dim > 1:
        ds.element_from_edge_model(device=DEV, region=reg, edge_model="F")
        ds.element_pair_from_edge_model(device=DEV, region=reg, edge_model="F")
        ds.element_model(device=DEV, region=reg, name="m", equation="-F")
        ds.vector_element_model(device=DEV, region=reg, element_model="m")
        cond = max(np.abs(np.linalg.inv(R.unit[R.row_edge[q]][:, :dim])).sum() for e in R.corner for q in e)
    tol *= cond
    for i in range(dim):
        ctx.close(sim.nv(DEV, reg, "V_grad" + AXES[i]), np.full(len(x), g[i]), "linear-gradient", "gradient of a linear potential", 0.0, tol)
        if dim > 1:
            for n, sg in (("F_%s", -1), ("F_node0_%s", -1), ("F_node1_%s", -1), ("m_%s", 1)):
                ctx.close(sim.elv(DEV, reg, n % AXES[i]), np.full(len(R.el), sg * g[i]), "linear-field", (n % AXES[i]) + " of a linear potential", 0.0, tol)
                ctx.count("linear_fields")
    ctx.close(sim.ev(DEV, reg, "F"), -(R.unit[:, :dim] @ g[:dim]), "linear-edge", "edge field of a linear potential", 0.0, tol)
    ctx.count("linear")


# ---------------------------------------------------------------- node gradients
def case_gradients(ctx, rs):
    m, dim, reg = build(ctx, rs)
    x = sim.nodes_of(DEV, reg)
    ds.node_solution(device=DEV, region=reg, name="V")
    for kind in rs.permutation(["default", "avoidzero"]):
        v = rs.uniform(-1, 1, len(x))
        v[rs.rand(len(x)) < rs.choice([0.0, 0.1, 0.3, 0.8, 1.0])] = 0.0
        ds.set_node_values(device=DEV, region=reg, name="V", values=v.tolist())
        kw = {} if kind == "default" and rs.rand() < 0.5 else {"calc_type": str(kind)}
        ds.vector_gradient(device=DEV, region=reg, node_model="V", **kw)
        for again in range(2):
            want, mag = grad.vector_gradient(DEV, reg, dim, v, kind == "avoidzero")
            scale = np.maximum(mag.max() * 1e-3, mag) + 1e-300
            for i in range(dim):
                cmp(ctx, reg, "n", "V_grad" + AXES[i], want[:, i], "gradient", scale[:, ] if mag.ndim == 1 else scale.max(axis=1), 1e-10)
            v = v.copy()
            v[rs.randint(len(v))] = float(rs.choice([0.0, 0.7]))
            ds.set_node_values(device=DEV, region=reg, name="V", values=v.tolist())
        ctx.count("gradient_" + str(kind))
    try:
        ds.vector_gradient(device=DEV, region=reg, node_model="V", calc_type="sometimes")
        ctx.violation("accepted", "vector_gradient accepted an unknown kind")
    except ds.error:
        ctx.count("rejected")


# ---------------------------------------------------------------- derivatives against changes of the solution
def case_difference(ctx, rs):
    m, dim, reg = build(ctx, rs)
    R = Region(reg, dim)
    s = solution(rs, reg, ["V", "W"], R.x, positive=True)
    f, fv, fw = node_form(rs, reg)
    edge_form(rs, reg)
    t = str(rs.choice(["arithmetic", "geometric", "gradient", "negative_gradient"]))
    if t == "geometric" and (f(s["V"], s["W"]) <= 0).any():
        t = "gradient"
    ds.edge_average_model(device=DEV, region=reg, node_model="f", edge_model="af", average_type=t)
    watch = [("e", "af", "@n", 2), ("e", "e", "@n", 2)]
    for v in ("V", "W"):
        ds.edge_average_model(device=DEV, region=reg, node_model="f", edge_model="af", average_type=t, derivative=v)
    if dim > 1:
        for cmd, names in ((ds.element_from_edge_model, field_names("e", False, dim)), (ds.element_pair_from_edge_model, field_names("e", True, dim))):
            cmd(device=DEV, region=reg, edge_model="e")
            for v in ("V", "W"):
                cmd(device=DEV, region=reg, edge_model="e", derivative=v)
            for g in names:
                watch += [("m", k, "@en", dim + 1) for k in g]
    get = {"e": sim.ev, "m": sim.elv}
    ends = {"e": R.edges, "m": R.el if dim > 1 else None}
    for v in ("V", "W"):
        n = int(rs.randint(len(R.x)))
        h = 1e-4
        vals = []
        for sg in (1, -1, 0):
            ds.set_node_value(device=DEV, region=reg, name=v, index=n, value=float(s[v][n] + sg * h))
            vals.append({w: get[w[0]](DEV, reg, w[1]) for w in watch})
        for w in watch:
            got = (vals[0][w] - vals[1][w]) / (2 * h)
            want = np.zeros(len(got))
            for k in range(w[3]):
                d = get[w[0]](DEV, reg, "%s:%s%s%d" % (w[1], v, w[2], k))
                want += np.where(ends[w[0]][:, k] == n, d, 0.0)
            scale = np.abs(want).max() + np.abs(got).max() + np.abs(vals[2][w]).max() * 1e-2
            ctx.close(got, want, "difference", "change of %s with %s at node %d against its derivatives" % (w[1], v, n), 0.0, 3e-6 * scale)
            ctx.count("differences")
            ctx.distinct("difference", (w[1], v, dim))


# ---------------------------------------------------------------- stored values
def case_stored(ctx, rs):
    m, dim, reg = build(ctx, rs)
    kinds = [("node", ds.node_solution, ds.set_node_values, ds.get_node_model_values, ds.get_node_model_list, "x"),
             ("edge", ds.edge_solution, ds.set_edge_values, ds.get_edge_model_values, ds.get_edge_model_list, "EdgeLength")]
    if dim > 1:
        kinds.append(("element", ds.element_solution, ds.set_element_values, ds.get_element_model_values, ds.get_element_model_list, "ElementEdgeCouple"))
    for kind, make, put, get, lst, ref in kinds:
        n = len(get(device=DEV, region=reg, name=ref))
        make(device=DEV, region=reg, name="s_"+kind)
        ctx.check("s_"+kind in lst(device=DEV, region=reg), "stored", "%s solution missing from the list" % kind)
        make(device=DEV, region=reg, name="t_"+kind)
        val = rs.uniform(-3, 3, n)
        val[rs.rand(n) < 0.1] = float(rs.choice([0.0, 1e308, 5e-324, -0.0]))
        put(device=DEV, region=reg, name="s_"+kind, values=val.tolist() if rs.rand() < 0.5 else (tuple(val.tolist()) if rs.rand() < 0.5 else val))
        got = np.array(get(device=DEV, region=reg, name="s_"+kind))
        ctx.check(got.shape == val.shape and got.tobytes() == val.tobytes(), "stored", "%s values given and read differ" % kind)
        for bad in (val.tolist()[:-1], val.tolist() + [1.0], [], val.tolist()[:-1] + ["a"], 3.0, None):
            try:
                put(device=DEV, region=reg, name="s_"+kind, values=bad)
                ctx.violation("stored", "%s values of the wrong shape accepted" % kind, {"values": str(bad)[-60:], "n": n})
            except ds.error:
                ctx.count("rejected")
            now = np.array(get(device=DEV, region=reg, name="s_"+kind))
            ctx.check(now.tobytes() == val.tobytes(), "rejected-effect", "rejected %s values changed the model" % kind)
        put(device=DEV, region=reg, name="t_"+kind, init_from="s_"+kind)
        now = np.array(get(device=DEV, region=reg, name="t_"+kind))
        ctx.check(now.tobytes() == val.tobytes(), "stored", "%s values copied differ" % kind)
        if kind == "node":
            i = int(rs.randint(n))
            ds.set_node_value(device=DEV, region=reg, name="t_"+kind, index=i, value=0.25)
            want = val.copy()
            want[i] = 0.25
            now = np.array(get(device=DEV, region=reg, name="t_"+kind))
            ctx.check(now.tobytes() == want.tobytes(), "stored", "one value set")
            ctx.check(np.array(get(device=DEV, region=reg, name="s_"+kind)).tobytes() == val.tobytes(), "stored", "a copy shares its values with its source")
            for bad in (n, n + 7, -2):
                try:
                    ds.set_node_value(device=DEV, region=reg, name="t_"+kind, index=bad, value=1.0)
                    ctx.violation("stored", "index %d of %d nodes accepted" % (bad, n))
                except ds.error:
                    ctx.count("rejected")
        elif rs.rand() < 0.5:
            other = reg if len(m.regions) == 1 else [r for r in m.regions if r != reg][0]
            try:
                get(device=DEV, region=other, name="s_"+kind)
                ctx.check(other == reg, "stored", "a %s solution shows in another region" % kind)
            except ds.error:
                pass
        ctx.count("stored_" + kind)
