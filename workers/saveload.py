"""C15: what a device is, before it is saved and after it is loaded again; and what broken files do."""
import os
import re
import resource
import numpy as np
import devsim as ds
from vlib import sim
from vlib.system import System, dense
from vlib.worker import Skip

PLAN = ["system", "content", "system", "built", "truncated", "content", "corrupt", "multi", "refused", "built", "hand"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


def bits(v):
    a = np.array(v, dtype=float)
    return ("values", a.tobytes(), a)


def snapshot(dev):
    """everything that can be asked about a device"""
    s = {}
    d = dict(device=dev)
    s["dimension"] = ds.get_dimension(**d)
    s["regions"], s["contacts"], s["interfaces"] = (tuple(sorted(f(**d))) for f in (ds.get_region_list, ds.get_contact_list, ds.get_interface_list))
    for r in s["regions"]:
        k = dict(device=dev, region=r)
        s[r, "material"] = ds.get_material(**k)
        s[r, "elements"] = repr(ds.get_element_node_list(**k))
        for kind in ("node", "edge", "element"):
            if kind == "element" and s["dimension"] == 1:
                continue
            ms = sorted(getattr(ds, "get_%s_model_list" % kind)(**k))
            s[r, kind, "models"] = tuple(ms)
            for m in ms:
                try:
                    s[r, kind, m] = bits(getattr(ds, "get_%s_model_values" % kind)(name=m, **k))
                except ds.error as e:
                    s[r, kind, m] = "error"
        s[r, "equations"] = tuple(sorted(ds.get_equation_list(**k)))
        for e in s[r, "equations"]:
            s[r, "equation", e] = repr(sorted(ds.get_equation_command(name=e, **k).items()))
    for c in s["contacts"]:
        k = dict(device=dev, contact=c)
        s[c, "region"] = repr(ds.get_region_list(**k))
        s[c, "material"] = ds.get_material(**k)
        s[c, "elements"] = repr(ds.get_element_node_list(region=ds.get_region_list(**k)[0], **k))
        s[c, "contact equations"] = tuple(sorted(ds.get_contact_equation_list(**k)))
        for e in s[c, "contact equations"]:
            s[c, "contact equation", e] = repr(sorted(ds.get_contact_equation_command(name=e, **k).items()))
    for i in s["interfaces"]:
        k = dict(device=dev, interface=i)
        s[i, "regions"] = repr(ds.get_region_list(**k))
        for q, r in enumerate(ds.get_region_list(**k)):
            s[i, "elements", q] = repr(ds.get_element_node_list(region=r, **k))
        s[i, "interface models"] = tuple(sorted(ds.get_interface_model_list(**k)))
        for m in s[i, "interface models"]:
            s[i, "interface model", m] = bits(ds.get_interface_model_values(name=m, **k))
        s[i, "interface equations"] = tuple(sorted(ds.get_interface_equation_list(**k)))
        for e in s[i, "interface equations"]:
            s[i, "interface equation", e] = repr(sorted(ds.get_interface_equation_command(name=e, **k).items()))
    return s


def differ(ctx, a, b, why, key="content", tol=0.0):
    """compares two snapshots"""
    ok = True
    for k in sorted(set(a) | set(b), key=repr):
        x, y = a.get(k), b.get(k)
        ctx.count("items")
        if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ("values",):
            ctx.count("values", x[2].size)
            if x[1] != y[1] and not (np.isnan(x[2]) == np.isnan(y[2])).all() or x[2].shape != y[2].shape or (x[1] != y[1] and not same(x[2], y[2], tol)):
                i = np.argwhere(x[2] != y[2])[:1].tolist() if x[2].shape == y[2].shape else []
                ok = False
                ctx.violation(key, "%s: %r differs at %r: %r and %r" % (why, k, i, x[2][i[0][0]] if i else x[2].shape, y[2][i[0][0]] if i else y[2].shape))
        elif x != y:
            ok = False
            ctx.violation(key, "%s: %r is %.300r and not %.300r" % (why, k, y, x))
        if not ok:
            return False
    ctx.count("snapshots")
    return ok


def same(x, y, tol):
    n = np.isnan(x) & np.isnan(y)
    if tol == 0.0:
        return bool((n | ((x == y) & (np.signbit(x) == np.signbit(y)))).all())
    # models may be sums which cancel completely
    sc = max(np.abs(x[np.isfinite(x)]).max(initial=0.0), 1e-3)
    return bool((n | (x == y) | (np.abs(x - y) <= tol * sc)).all())


def save(ctx, name, **kw):
    p = os.path.join(ctx.scratch, name)
    ds.write_devices(file=p, type=ctx.rng.choice(["devsim", "devsim", ""]), **kw)
    with open(p, "rb") as f:
        return p, f.read()


def roundtrip(ctx, devs, why, params=lambda: None, circuit=lambda: None, tol=0.0, text=True):
    """saves, compares what a load gives, and saves that again"""
    before = {d: snapshot(d) for d in devs}
    p, text1 = save(ctx, "a.msh")
    after = {d: snapshot(d) for d in devs}
    for d in devs:
        differ(ctx, before[d], after[d], why + ", by saving", key="saving_changes")
    ds.reset_devsim()
    circuit()
    ds.load_devices(file=p)
    params()
    got = tuple(sorted(ds.get_device_list()))
    ctx.check(got == tuple(sorted(devs)), "devices", "%s: the devices %r are loaded, and %r were saved" % (why, got, sorted(devs)))
    ok = True
    for d in devs:
        ok = differ(ctx, before[d], snapshot(d), "%s: loaded %s" % (why, d), tol=tol) and ok
    if ok:
        p2, text2 = save(ctx, "b.msh")
        l1, l2 = text1.split(b"\n"), text2.split(b"\n")
        if not text:
            # what an expression looks like is up to the library which simplifies it
            l1, l2 = ([re.sub(rb'-equation "[^"]*;"', b"", q) for q in l] for l in (l1, l2))
        if l1 != l2:
            q = [(a, b) for a, b in zip(l1, l2) if a != b][:1]
            ctx.violation("second_save", "%s: saving what was loaded gives other content, first %.200r" % (why, q or (len(l1), len(l2))))
        ctx.count("second_saves")
    return before, text1


def extreme(rs, n):
    r = rs.randint(6)
    if r == 0:
        return rs.uniform(-1, 1, n)
    if r == 1:
        return np.ldexp(rs.uniform(-1, 1, n), rs.randint(-1070, 1023, n))
    if r == 2:
        return rs.choice([0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1.0 / 3, 0.1, 1e22, 9007199254740993.0, 1 + 2.0 ** -52], n)
    if r == 3:
        return rs.randint(-9, 10, n).astype(float)
    if r == 4:
        return np.full(n, float(rs.uniform(-1, 1) * 10.0 ** rs.randint(-300, 300)))
    return np.nan_to_num(np.frombuffer(rs.bytes(8 * n), dtype=float), nan=1.5)


NAMES = ["V", "a_b", "E_field", "n1", "Potential@n0", "x1:y", "with space", "z.z", "#hash", "-minus", "1st", "end_region", "begin_nodes", "DATA", "COMMAND", "\u00e9t\u00e9", "a=b", "tab\there", "'q'", "{}[]", "50%", "UNIFORM"]


def content(ctx, dev, rs):
    """models of every kind on a device"""
    rng = ctx.rng
    for r in ds.get_region_list(device=dev):
        k = dict(device=dev, region=r)
        dim = ds.get_dimension(device=dev)
        names = rng.sample(NAMES, rng.randint(2, 6))
        counts = {"node": len(ds.get_node_model_values(name="x", **k)), "edge": len(ds.get_edge_model_values(name="EdgeLength", **k))}
        if dim > 1:
            counts["element"] = len(ds.get_element_model_values(name="ElementEdgeCouple", **k))
        made = {q: [] for q in counts}
        for nm in names:
            kind = rng.choice(list(counts))
            v = extreme(rs, counts[kind])
            v[~np.isfinite(v)] = 1.5
            getattr(ds, kind + "_solution")(name=nm, **k)
            ctx.count(kind + "_solutions")
            if rng.random() < 0.85:
                getattr(ds, "set_%s_values" % kind)(name=nm, values=[float(x) for x in v], **k)
            if kind == "node":
                made["node"].append(nm)
        # models that follow others
        ds.node_solution(name="P", **k)
        v = rs.uniform(-1, 1, counts["node"])
        ds.set_node_values(name="P", values=[float(x) for x in v], **k)
        ds.edge_from_node_model(node_model="P", **k)
        todo = ["node_model", "edge_model", "average", "gradient", "from_edge", "from_node", "pair", "vector", "element_model", "average_d", "from_edge_d", "parent", "display", "nested", "order"]
        for t in rng.sample(todo, rng.randint(3, len(todo))):
            ctx.count("made_" + t)
            if t == "node_model":
                ds.node_model(name="nm", equation="exp(P)*%r+x" % rs.uniform(-2, 2), **k)
                ds.node_model(name="nm:P", equation="exp(P)", **k)
            elif t == "edge_model":
                ds.edge_model(name="em", equation="(P@n0-P@n1)*EdgeInverseLength", **k)
                for q in "01":
                    ds.edge_model(name="em:P@n" + q, equation="diff((P@n0-P@n1)*EdgeInverseLength,P@n%s)" % q, **k)
            elif t in ("average", "average_d"):
                ty = rng.choice(["arithmetic", "geometric", "gradient", "negative_gradient"])
                ds.node_model(name="PP", equation="2+P", **k)
                ds.node_model(name="PP:P", equation="1", **k)
                ds.edge_average_model(node_model="PP", edge_model="avg", average_type=ty, **k)
                if t == "average_d":
                    ds.edge_average_model(node_model="PP", edge_model="avg", average_type=ty, derivative="P", **k)
            elif t == "gradient":
                ds.vector_gradient(node_model="P", calc_type=rng.choice(["default", "avoidzero"]), **k)
            elif t == "display":
                ds.node_model(name="hid", equation="P*P", display_type=rng.choice(["scalar", "nodisplay"]), **k)
                ds.edge_model(name="ehid", equation="P@n0*P@n1", display_type=rng.choice(["scalar", "nodisplay", "vector"]), **k)
            elif t == "nested":
                # the names are in the other order than what they need
                ds.node_model(name="zz", equation="P+1", **k)
                ds.node_model(name="mm", equation="zz*zz", **k)
                ds.node_model(name="aa", equation="mm-zz", **k)
                ds.edge_from_node_model(node_model="aa", **k)
                ds.edge_model(name="Ea", equation="aa@n0-aa@n1", **k)
            elif t == "order":
                ds.node_solution(name="zsol", **k)
                ds.node_solution(name="asol", **k)
                ds.set_node_values(name="asol", init_from="P", **k)
                ds.set_node_value(name="zsol", index=-1, value=float(extreme(rs, 1)[0]) if rng.random() < 0.5 else 0.25, **k) if rng.random() < 0.9 else None
            elif t == "parent":
                ds.node_solution(name="q9", **k)
                ds.set_node_values(name="q9", init_from="P", **k)
                ds.edge_from_node_model(node_model="q9", **k)
            if dim == 1:
                continue
            if t in ("from_edge", "pair", "vector", "from_edge_d"):
                ds.edge_model(name="fe", equation="P@n0+2*P@n1", **k)
                for q in "01":
                    ds.edge_model(name="fe:P@n" + q, equation="diff(P@n0+2*P@n1,P@n%s)" % q, **k)
            if t == "from_edge":
                ds.element_from_edge_model(edge_model="fe", **k)
            elif t == "from_edge_d":
                ds.element_from_edge_model(edge_model="fe", **k)
                ds.element_from_edge_model(edge_model="fe", derivative="P", **k)
            elif t == "pair":
                ds.element_pair_from_edge_model(edge_model="fe", **k)
                if rng.random() < 0.5:
                    ds.element_pair_from_edge_model(edge_model="fe", derivative="P", **k)
            elif t == "from_node":
                ds.element_from_node_model(node_model="P", **k)
            elif t == "vector":
                ds.element_model(name="vm", equation="ElementEdgeCouple*2", **k)
                ds.vector_element_model(element_model="vm", **k)
            elif t == "element_model":
                ds.element_from_node_model(node_model="P", **k)
                ds.element_model(name="elm", equation="P@en0*P@en1+P@en2", **k)
    for i in ds.get_interface_list(device=dev):
        if rng.random() < 0.7:
            ds.interface_model(device=dev, interface=i, name="cont", equation="P@r0-P@r1")
            ds.interface_model(device=dev, interface=i, name="cont:P@r0", equation="1")
            ds.interface_model(device=dev, interface=i, name="cont:P@r1", equation="-1")
            ds.interface_model(device=dev, interface=i, name="acont", equation="cont*cont")
            ctx.count("interface_models")
        if rng.random() < 0.4 and ds.get_dimension(device=dev) > 1:
            ds.interface_normal_model(device=dev, region=ds.get_region_list(device=dev, interface=i)[0], interface=i)
            ctx.count("interface_normals")
    for c in ds.get_contact_list(device=dev):
        if rng.random() < 0.7:
            ds.contact_node_model(device=dev, contact=c, name=c + "_bc", equation="P-%r" % rs.uniform(-1, 1))
            ds.contact_node_model(device=dev, contact=c, name=c + "_bc:P", equation="1")
            ds.contact_edge_model(device=dev, contact=c, name=c + "_eb", equation="P@n0")
            ctx.count("contact_models")


def built(ctx, rs):
    """devices of the built in 1D and 2D meshers, with interfaces and contacts made afterwards"""
    rng = ctx.rng
    w = rng.choice(["1d", "2d", "array", "rename"])
    if w == "1d":
        a, b, c = 0.0, float(rs.uniform(0.5, 2)), float(rs.uniform(3, 5))
        sc = 10.0 ** rng.randint(-7, 2)
        ds.create_1d_mesh(mesh="m")
        for p, t in ((a, "t a"), (b, "tb"), (c, "tc")):
            ds.add_1d_mesh_line(mesh="m", pos=p * sc, ps=float(rs.uniform(0.1, 0.6)) * sc, tag=t)
        ds.add_1d_contact(mesh="m", name="left side", tag="t a", material="metal")
        ds.add_1d_contact(mesh="m", name="right", tag="tc", material="gold 2")
        ds.add_1d_region(mesh="m", region="R 1", material="Si", tag1="t a", tag2="tb")
        ds.add_1d_region(mesh="m", region="R2", material="Ox 2", tag1="tb", tag2="tc")
        ds.add_1d_interface(mesh="m", name="inter face", tag="tb")
        ds.finalize_mesh(mesh="m")
        ds.create_device(mesh="m", device="dev 1")
        return "dev 1"
    if w == "2d":
        sc = 10.0 ** rng.randint(-6, 1)
        ds.create_2d_mesh(mesh="m")
        xs, ys = [0.0, float(rs.uniform(0.5, 1)), float(rs.uniform(1.5, 2))], [0.0, float(rs.uniform(0.5, 1))]
        for p in xs:
            ds.add_2d_mesh_line(mesh="m", dir="x", pos=p * sc, ps=float(rs.uniform(0.2, 0.6)) * sc)
        for p in ys:
            ds.add_2d_mesh_line(mesh="m", dir="y", pos=p * sc, ps=float(rs.uniform(0.2, 0.6)) * sc)
        X, Y = [p * sc for p in xs], [p * sc for p in ys]
        ds.add_2d_region(mesh="m", material="a", region="r0", xl=X[0], xh=X[1], yl=Y[0], yh=Y[1])
        ds.add_2d_region(mesh="m", material="b", region="r1", xl=X[1], xh=X[2], yl=Y[0], yh=Y[1])
        ds.add_2d_interface(mesh="m", name="i0", region0="r0", region1="r1")
        ds.add_2d_contact(mesh="m", name="c0", region="r0", material="metal", yl=Y[0], yh=Y[1], xl=X[0], xh=X[0], bloat=1e-10 * sc)
        ds.add_2d_contact(mesh="m", name="c1", region="r1", material="metal", yl=Y[0], yh=Y[1], xl=X[2], xh=X[2], bloat=1e-10 * sc)
        ds.finalize_mesh(mesh="m")
        ds.create_device(mesh="m", device="d")
        return "d"
    m = sim.any_mesh(rs, nreg=2, scale=10.0 ** rng.randint(-6, 3))
    if w == "rename":
        # the interface is made from pairs of nodes after the device is there
        keep, m.interfaces = m.interfaces, {}
        m.build("d")
        names = list(m.regions)
        pos = {r: sim.nodes_of("d", r) for r in names[:2]}
        for i, (a, b, f) in keep.items():
            at = [{tuple(p): j for j, p in enumerate(sim.nodes_of("d", r).tolist())} for r in (a, b)]
            pts = [tuple(m.coords[g].tolist()) for g in np.unique(f)]
            rng.shuffle(pts)
            ds.create_interface_from_nodes(device="d", name=i, region0=a, region1=b, nodes0=[at[0][p] for p in pts], nodes1=[at[1][p] for p in pts])
            ctx.count("interface_from_nodes")
        return "d"
    m.build("d")
    for i, (a, b, f) in m.interfaces.items():
        if rng.random() < 0.6:
            ds.create_contact_from_interface(device="d", region=rng.choice([a, b]), interface=i, material="metal", name="from_" + i)
            ctx.count("contact_from_interface")
    return "d"


def run_case(ctx, case):
    ds.reset_devsim()
    what, rng, rs = case["what"], ctx.rng, ctx.np()
    if what == "system":
        s = System(ctx, rs, circuit=rng.random() < 0.4, kind=None, ndev=rng.choice([1, 1, 2]))
        s.add_equations()
        pars = {}
        for d in s.devs:
            for p in ds.get_parameter_list(device=d):
                pars[d, None, p] = ds.get_parameter(device=d, name=p)
            for r in ds.get_region_list(device=d):
                for p in ds.get_parameter_list(device=d, region=r):
                    pars[d, r, p] = ds.get_parameter(device=d, region=r, name=p)
        x0 = matrices(ctx, s)
        nodes = s.circuit_values() if s.circuit_nodes() else {}

        def params():
            for (d, r, p), v in pars.items():
                ds.set_parameter(name=p, value=v, device=d, **({"region": r} if r else {}))
            if nodes:
                ds.get_matrix_and_rhs(format="csc")
            for k, v in nodes.items():
                ds.set_circuit_node_value(solution="dcop", node=k, value=v)

        def circuit():
            for name, a, b, v in (s.elements if nodes else []):
                ds.circuit_element(name=name, n1=a, n2=b, value=v)
        if nodes:
            ctx.count("with_circuit")
        roundtrip(ctx, list(s.devs), "a system of equations", params, circuit, tol=1e-9, text=False)
        x1 = matrices(ctx, s)
        compare(ctx, x0, x1)
        ctx.count("systems")
        ctx.distinct("system", [(d.dim, len(d.regions), len(d.contacts), len(d.interfaces)) for d in s.devs.values()], len(x0[1]))
        return
    if what == "content":
        m = sim.any_mesh(rs, scale=10.0 ** rng.randint(-7, 3))
        dev = rng.choice(["d", "my device", "D-1", "d#2"])
        m.build(dev)
        content(ctx, dev, rs)
        roundtrip(ctx, [dev], "a device with models")
        ctx.distinct("content", m.dim, len(m.regions), case["k"])
        ctx.count("contents_%dd" % m.dim)
        return
    if what == "built":
        dev = built(ctx, rs)
        content(ctx, dev, rs)
        roundtrip(ctx, [dev], "a device of the mesher")
        ctx.distinct("built", case["k"])
        ctx.count("built")
        return
    {"truncated": truncated, "corrupt": corrupt, "multi": multi, "refused": refused, "hand": hand}[what](ctx, rs)


def refuses(ctx, path, key, why):
    """True when the load is refused with an error of the simulator"""
    try:
        ds.load_devices(file=path)
    except ds.error:
        ctx.count("refused")
        return True
    ctx.count("accepted")
    return False


def some_device(ctx, rs, name="d"):
    rng = ctx.rng
    if rng.random() < 0.3:
        s = System(ctx, rs, circuit=False, kind=None, ndev=1)
        s.add_equations()
        d = list(s.devs)[0]
        # parameters are not saved
        return d if not any(ds.get_parameter_list(device=d, region=r) for r in ds.get_region_list(device=d)) else some_device_plain(ctx, rs, name)
    return some_device_plain(ctx, rs, name)


def some_device_plain(ctx, rs, name):
    ds.reset_devsim()
    m = sim.any_mesh(rs, scale=10.0 ** ctx.rng.randint(-7, 3))
    m.build(name)
    if ctx.rng.random() < 0.7:
        content(ctx, name, rs)
    return name


def complete(text):
    """is a text of whole devices"""
    tail = text.rstrip(b"\n \t")
    return not tail or tail.endswith(b"\nend_device")


def again(ctx, path, dev, before, key, why):
    """the file which is right loads after the failure, and gives the same"""
    ds.load_devices(file=path)
    differ(ctx, before, snapshot(dev), why + ", then the whole file", key=key)
    ctx.count("loaded_after_failure")


def truncated(ctx, rs):
    rng = ctx.rng
    dev = some_device_plain(ctx, rs, "d")
    before = snapshot(dev)
    p, text = save(ctx, "a.msh")
    q = os.path.join(ctx.scratch, "t.msh")
    ds.reset_devsim()
    for j in range(4):
        # often right after a line, or in what comes last
        k = rng.choice([rng.randint(1, len(text) - 1), text.index(b"\n", rng.randint(0, len(text) - 2)) + 1, len(text) - rng.randint(1, 40)])
        cut = text[:k]
        with open(q, "wb") as f:
            f.write(cut)
        r = refuses(ctx, q, "truncated", "cut")
        full = complete(cut)
        ctx.check(r != full, "truncated", "a file cut after %d of %d bytes, ending in %r, is %s" % (k, len(text), cut[-60:], "refused" if r else "accepted"))
        ctx.check(bool(ds.get_device_list()) == (not r), "left_over", "the devices %r are there after a load %s" % (ds.get_device_list(), "which failed" if r else "which did not fail"))
        if r and rng.random() < 0.5:
            again(ctx, p, dev, before, "after_truncated", "a file cut after %d bytes" % k)
        ds.reset_devsim()
    ctx.count("truncations", 4)
    ctx.distinct("truncated", k, len(text))


def corrupt(ctx, rs):
    rng = ctx.rng
    dev = some_device_plain(ctx, rs, "d")
    before = snapshot(dev)
    p, text = save(ctx, "a.msh")
    q = os.path.join(ctx.scratch, "t.msh")
    ds.reset_devsim()
    words = ["begin_device \"d\"", "end_device", "begin_region \"zz\" \"m\"", "end_region", "begin_nodes", "end_nodes", "begin_edges", "end_edges", "begin_triangles", "end_triangles", "begin_tetrahedra", "end_tetrahedra", "begin_contact \"q\" \"r0\" \"m\"", "end_contact", "begin_interface \"q\" \"r0\" \"r1\"", "end_interface", "begin_node_solution \"q\"", "end_node_solution",
             "begin_edge_solution \"q\"", "end_edge_solution", "begin_node_model \"V9\"", "end_node_model", "DATA", "UNIFORM 1", "BUILTIN", "DATAPARENT \"x\"", "begin_coordinates", "end_coordinates", "COMMAND node_model -device \"d\" -region \"r0\" -name \"zz\" -equation \"1\"", "COMMAND", "begin_equation \"e\"", "end_equation", "0", "-1", "1e400", "99999999999999999999", "3 4 5", "\x00", "\u00ff", "\"", "@", "-x"]
    for j in range(6):
        lines = text.split(b"\n")
        for w in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randrange(len(lines))
            t = rng.randint(0, 9)
            if t == 0:
                del lines[i]
            elif t == 1:
                lines.insert(i, rng.choice(words).encode("latin1"))
            elif t == 2:
                lines.insert(i, lines[rng.randrange(len(lines))])
            elif t == 3:
                a = rng.randrange(len(lines))
                lines[i], lines[a] = lines[a], lines[i]
            elif t == 4:
                lines[i] = re.sub(rb"[-+0-9.eE]+", rng.choice([b"0", b"1", b"7", b"-1", b"100000", b"2147483647", b"2147483648", b"-2147483649", b"1e999", b"", b"nan", b"1.5"]), lines[i], count=rng.choice([0, 1]))
            elif t == 5:
                lines[i] = re.sub(rb'"[^"]*"', rng.choice([b'""', b'"r0"', b'"r1"', b'"d"', b'"nothing"', b'x', b'"c0"', b'"x"', b'"1;"', b'"((("', b'5']), lines[i], count=rng.choice([0, 1]))
            elif t == 6:
                x = bytearray(lines[i])
                if x:
                    x[rng.randrange(len(x))] = rng.randrange(256)
                lines[i] = bytes(x)
            elif t == 7:
                a = rng.randint(1, 30)
                del lines[i:i + a]
            elif t == 8:
                a = rng.randint(1, 30)
                lines[i:i] = lines[i:i + a]
            else:
                # an index of an element
                ks = [a for a in range(len(lines)) if re.fullmatch(rb"[0-9]+(\t[0-9]+)*", lines[a])]
                if ks:
                    i = rng.choice(ks)
                    lines[i] = re.sub(rb"[0-9]+$", str(rng.choice([-1, 0, 1, 2, 1000, 2 ** 31 - 1, 2 ** 40])).encode(), lines[i])
        bad = b"\n".join(lines)
        if re.search(rb"COMMAND (?!node_model|edge_model|element_model|edge_from_node_model|edge_average_model|vector_gradient|element_from|element_pair|vector_element|interface_model|interface_normal|equation|contact_equation|interface_equation)", bad) and b"COMMAND " in bad:
            ctx.count("unknown_commands")
        with open(q, "wb") as f:
            f.write(bad)
        r = refuses(ctx, q, "corrupt", "changed")
        devs = list(ds.get_device_list())
        if r:
            whole = re.search(rb"\nend_device\s*[^\s]", bad) is not None
            ctx.check(not devs or whole, "left_over", "a load which failed leaves the devices %r" % (devs,))
            for d in devs:
                snapshot(d)
            if rng.random() < 0.5:
                if devs:
                    ds.reset_devsim()
                again(ctx, p, dev, before, "after_corrupt", "a changed file")
        else:
            # whatever it is now can be asked for and saved
            for d in devs:
                try:
                    snapshot(d)
                except ds.error:
                    ctx.count("odd_devices")
            try:
                ds.write_devices(file=q)
            except ds.error:
                ctx.count("odd_writes")
        ds.reset_devsim()
    ctx.count("corruptions", 6)
    ctx.distinct("corrupt", len(text), len(bad))


def multi(ctx, rs):
    """several devices in a file, and files which hold a device that is there already"""
    rng = ctx.rng
    n = rng.randint(2, 3)
    names = rng.sample(["dev", "a", "zz", "B b", "m1"], n)
    for d in names:
        m = sim.any_mesh(rs, dim=rng.choice([1, 1, 2]), scale=10.0 ** rng.randint(-6, 2))
        m.build(d)
        content(ctx, d, rs)
    before = {d: snapshot(d) for d in names}
    one = rng.choice(names)
    p1, _ = save(ctx, "one.msh", device=one)
    pa, _ = save(ctx, "all.msh")
    try:
        ds.write_devices(file=os.path.join(ctx.scratch, "none.msh"), device="none such", type="devsim")
        ctx.violation("write_unknown", "a device which is not there is written")
    except ds.error:
        pass
    ds.reset_devsim()
    ds.load_devices(file=p1)
    ctx.check(list(ds.get_device_list()) == [one], "one_device", "%r is saved and %r is loaded" % (one, ds.get_device_list()))
    differ(ctx, before[one], snapshot(one), "one device of a file for it")
    v = before[one]
    ctx.check(refuses(ctx, p1, "twice", "twice"), "twice", "a device which is there already is loaded again")
    differ(ctx, v, snapshot(one), "a device, after its name was refused", key="twice")
    ds.reset_devsim()
    ds.load_devices(file=pa)
    ctx.check(sorted(ds.get_device_list()) == sorted(names), "devices", "the devices %r are loaded of %r" % (ds.get_device_list(), names))
    for d in names:
        differ(ctx, before[d], snapshot(d), "one of %d devices in a file" % n)
    # deleted, and loaded again
    ds.delete_device(device=one)
    ds.delete_mesh(mesh=one)
    ds.load_devices(file=p1)
    for d in names:
        differ(ctx, before[d], snapshot(d), "deleted and loaded again", key="deleted")
    ctx.count("files_of_devices")
    ctx.distinct("multi", n, case_dims(before))


def case_dims(before):
    return sorted(b["dimension"] for b in before.values())


def refused(ctx, rs):
    """one thing made wrong, in a way which cannot be given a meaning: an error, and nothing left"""
    rng = ctx.rng
    dev = some_device_plain(ctx, rs, "d")
    r0 = sorted(ds.get_region_list(device=dev))[0]
    k = dict(device=dev, region=r0)
    nn = len(ds.get_node_model_values(name="x", **k))
    ds.node_solution(name="S1", **k)
    ds.set_node_values(name="S1", values=[1.0 + i * 0.25 for i in range(nn)], **k)
    ds.edge_solution(name="T1", **k)
    ne = len(ds.get_edge_model_values(name="T1", **k))
    ds.set_edge_values(name="T1", values=[1.0 + i * 0.25 for i in range(ne)], **k)
    ds.node_model(name="M1", equation="S1*2", **k)
    ds.edge_from_node_model(node_model="S1", **k)
    ds.edge_model(name="M2", equation="S1@n0", **k)
    ds.equation(name="Q1", variable_name="S1", node_model="M1", variable_update="default", **k)
    c0 = sorted(ds.get_contact_list(device=dev))[0]
    ds.contact_equation(device=dev, contact=c0, name="Q1", node_model="M1") if c0 in contacts_of(dev, r0) else None
    i0 = sorted(ds.get_interface_list(device=dev))
    if i0:
        ds.interface_model(device=dev, interface=i0[0], name="I1", equation="1")
    before = snapshot(dev)
    p, text = save(ctx, "a.msh")
    dim = before["dimension"]
    L = text.split(b"\n")

    def where(start, end, of=0):
        i = [a for a, l in enumerate(L) if l.startswith(start)][of]
        return i, next(a for a in range(i, len(L)) if L[a].startswith(end))
    W = ["few_node", "many_node", "few_edge", "model_equation", "model_region", "coordinate_index", "element_index", "negative_index", "contact_region", "contact_index", "no_nodes", "command_name", "second_device"]
    if i0:
        W += ["interface_region", "interface_model"]
    if c0 in contacts_of(dev, r0):
        W += ["contact_equation"]
    w = rng.choice(W)
    el = {1: b"edges", 2: b"triangles", 3: b"tetrahedra"}[dim]
    N = list(L)
    if w in ("few_node", "many_node"):
        i, j = where(b'begin_node_model "S1"', b"end_node_model")
        if w == "few_node":
            del N[j - 1 - rng.randrange(nn)]
        else:
            N.insert(j, b"1.0e0")
    elif w == "few_edge":
        i, j = where(b'begin_edge_model "T1"', b"end_edge_model")
        del N[j - 1 - rng.randrange(ne)]
    elif w in ("model_equation", "model_region", "command_name"):
        i, j = where(b'begin_%s_model "%s"' % ((b"node", b"M1") if rng.random() < 0.5 else (b"edge", b"M2")), b"end_")
        N[i + 1] = {"model_equation": lambda x: re.sub(rb'-equation "[^"]*"', b'-equation "((;"', x), "model_region": lambda x: x.replace(b'-region "' + r0.encode(), b'-region "zq'), "command_name": lambda x: re.sub(rb"COMMAND \w+", b"COMMAND no_such_command", x)}[w](N[i + 1])
    elif w == "contact_equation":
        i, j = where(b'begin_contact "' + c0.encode(), b"end_contact")
        q = next(a for a in range(i, j) if N[a].startswith(b"COMMAND contact_equation"))
        N[q] = N[q].replace(b'-contact "' + c0.encode(), b'-contact "zq')
    elif w == "coordinate_index":
        i, j = where(b"begin_nodes", b"end_nodes")
        a, b = where(b"begin_coordinates", b"end_coordinates")
        N[rng.randrange(i + 1, j)] = rng.choice([b"1000000", str(b - a - 1).encode()])
    elif w in ("element_index", "negative_index"):
        i, j = where(b"begin_" + el, b"end_" + el)
        a = rng.randrange(i + 1, j)
        v = N[a].split(b"\t")
        v[rng.randrange(len(v))] = b"-1" if w == "negative_index" else str(nn + rng.choice([0, 1, 1000])).encode()
        N[a] = b"\t".join(v)
    elif w == "contact_region":
        i, j = where(b"begin_contact", b"end_contact")
        N[i] = re.sub(rb'^(begin_contact "[^"]*") "[^"]*"', rb'\1 "zq"', N[i])
    elif w == "contact_index":
        i, j = where(b"begin_contact", b"end_contact")
        a = next(a for a in range(i, j) if re.fullmatch(rb"[0-9\t]+", N[a]))
        v = N[a].split(b"\t")
        k = next(a for a in range(len(L)) if L[a].startswith(b'begin_region "' + N[i].split(b'"')[3] + b'"'))
        k = next(a for a in range(k, len(L)) if L[a].startswith(b"begin_nodes"))
        count = next(a for a in range(k, len(L)) if L[a].startswith(b"end_nodes")) - k - 1
        v[rng.randrange(len(v))] = rng.choice([b"1000000", str(count).encode()])
        N[a] = b"\t".join(v)
    elif w == "no_nodes":
        i, j = where(b"begin_nodes", b"end_nodes")
        del N[i + 1:j]
        i = next(a for a in range(len(N)) if N[a].startswith(b"begin_" + el))
        j = next(a for a in range(i, len(N)) if N[a].startswith(b"end_" + el))
        del N[i + 1:j]
    elif w == "interface_region":
        i, j = where(b"begin_interface", b"end_interface")
        N[i] = re.sub(rb'"[^"]*"$', b'"zq"', N[i])
    elif w == "interface_model":
        i, j = where(b'begin_interface_node_model "I1"', b"end_")
        N[i + 1] = re.sub(rb'-equation "[^"]*"', b'-equation "((;"', N[i + 1])
    elif w == "second_device":
        N = L + L
    q = os.path.join(ctx.scratch, "t.msh")
    with open(q, "wb") as f:
        f.write(b"\n".join(N))
    ds.reset_devsim()
    ctx.check(refuses(ctx, q, "refused", w), "accepted:" + w, "a file with %s is accepted" % w)
    if w != "second_device":
        ctx.check(not ds.get_device_list(), "left_over", "%s: the devices %r are there after the load failed" % (w, ds.get_device_list()))
    else:
        ds.reset_devsim()
    again(ctx, p, dev, before, "after_refused", w)
    # and files which cannot be written
    if rng.random() < 0.5:
        for f, ty in (("/dev/full", ("", "devsim", "devsim_data", "tecplot")), (os.path.join(ctx.scratch, "no", "such"), ("", "devsim_data", "tecplot", "vtk")), (ctx.scratch, ("", "devsim_data", "tecplot"))):
            ty = rng.choice(ty)
            try:
                ds.write_devices(file=f, type=ty, device=dev)
                ctx.violation("unwritable", "write_devices(file=%r, type=%r) succeeds" % (f, ty))
            except ds.error:
                ctx.count("unwritable")
        g = os.path.join(ctx.scratch, "full.msh")
        ty = rng.choice(["", "devsim_data"])
        ds.write_devices(file=g, type=ty, device=dev)
        most = os.path.getsize(g)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        for limit in (rng.randrange(most), max(0, most - rng.randint(1, 40))):
            try:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                ds.write_devices(file=g, type=ty, device=dev)
                bad = True
            except ds.error:
                bad = False
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            ctx.check(not bad, "unwritable", "a file of %d bytes is written without an error where %d are possible" % (most, limit))
            ctx.count("full_disk")
        differ(ctx, before, snapshot(dev), "after a file could not be written", key="unwritable")
        ds.reset_devsim()
        for f in (ctx.scratch, os.path.join(ctx.scratch, "not there")):
            ctx.check(refuses(ctx, f, "unreadable", f), "unreadable", "%r is loaded" % f)
    ctx.count("refused_" + w)
    ctx.distinct("refused", w, dim)


def contacts_of(dev, r):
    return [c for c in ds.get_contact_list(device=dev) if r in ds.get_region_list(device=dev, contact=c)]


def hand(ctx, rs):
    """files written here: any order of nodes in each region, contacts and interfaces by elements or by nodes, and values"""
    rng = ctx.rng
    m = sim.any_mesh(rs, nreg=rng.choice([1, 2, 2, 3]), scale=10.0 ** rng.randint(-5, 3))
    dim = m.dim
    out = ['begin_device "h"', "# a comment", "begin_coordinates"]
    integral = rng.random() < 0.2
    out += ["%s\t%s %s" % tuple(repr(float(x)) for x in c) for c in m.coords] + ["end_coordinates"]
    local, vals = {}, {}
    ei = {1: ("edges", 2), 2: ("triangles", 3), 3: ("tetrahedra", 4)}[dim][0]
    for r, (mat, elt) in m.regions.items():
        nodes = [int(x) for x in np.unique(elt)]
        rng.shuffle(nodes)
        local[r] = {g: i for i, g in enumerate(nodes)}
        out += ['begin_region "%s" %s' % (r, rng.choice([mat, '"%s"' % mat])), "begin_nodes"] + [str(x) for x in nodes] + ["end_nodes"]
        out += ["begin_" + ei]
        for e in elt.tolist():
            e = [local[r][g] for g in e]
            rng.shuffle(e)
            out.append("\t".join(map(str, e)))
        out += ["end_" + ei]
        v = rs.uniform(-1, 1, len(nodes)) * 10.0 ** rng.randint(-20, 20)
        if rng.random() < 0.2:
            v = rs.randint(-5, 5, len(nodes)).astype(float) * rng.choice([1, 10 ** 9, 10 ** 12])
        txt = [("%d" % x if float(x).is_integer() and rng.random() < 0.7 else repr(float(x))) for x in v]
        if rng.random() < 0.5:
            out += ['begin_node_model "v"', "DATA"] + txt + ["end_node_model"]
        else:
            out += ['begin_node_solution "v"'] + txt + ["end_node_solution"]
        u = rng.choice(["2", "-3.5", "1e-300", "12345678901"])
        out += ['begin_node_model "u"', "UNIFORM " + u, "end_node_model"]
        vals[r] = (nodes, v, float(u))
        out += ["end_region"]
    kinds = {2: "edges", 3: "triangles"}
    cn = {}
    for c, (r, f) in m.contacts.items():
        out += ['begin_contact "%s" "%s" "metal"' % (c, r)]
        by = "nodes" if dim == 1 or rng.random() < 0.4 else kinds[dim]
        nodes = [int(x) for x in np.unique(f)]
        if by == "nodes":
            rng.shuffle(nodes)
            out += ["begin_nodes"] + [str(local[r][g]) for g in nodes] + ["end_nodes"]
        else:
            out += ["begin_" + by] + ["\t".join(str(local[r][g]) for g in rng.sample(q, len(q))) for q in f.tolist()] + ["end_" + by]
        ctx.count("hand_contacts_by_" + by)
        cn[c] = (r, nodes, by)
        out += ["end_contact"]
    ifn = {}
    for i, (a, b, f) in m.interfaces.items():
        out += ['begin_interface "%s" "%s" "%s"' % (i, a, b)]
        by = "nodes" if dim == 1 or rng.random() < 0.4 else kinds[dim]
        nodes = [int(x) for x in np.unique(f)]
        if by == "nodes":
            rng.shuffle(nodes)
            out += ["begin_nodes"] + ["%d\t%d" % (local[a][g], local[b][g]) for g in nodes] + ["end_nodes"]
        else:
            out += ["begin_" + by]
            for q in f.tolist():
                out.append("\t".join(str(local[a][g]) for g in q) + "\t" + "\t".join(str(local[b][g]) for g in q))
            out += ["end_" + by]
        ctx.count("hand_interfaces_by_" + by)
        ifn[i] = (a, b, nodes, by)
        out += ["end_interface"]
    out += ["end_device", ""]
    p = os.path.join(ctx.scratch, "h.msh")
    with open(p, "w") as f:
        f.write("\n".join(out))
    ds.load_devices(file=p)
    ctx.check(ds.get_dimension(device="h") == dim, "hand_dimension", "the dimension is %r" % ds.get_dimension(device="h"))
    at = {}
    for r in m.regions:
        nodes, v, u = vals[r]
        x = sim.nodes_of("h", r)
        ctx.check(np.array_equal(x, m.coords[nodes]), "hand_nodes", "the nodes of %s are not those of the file in their order" % r)
        ctx.check(np.array_equal(sim.nv("h", r, "v"), v), "hand_values", "values of %s are not those of the file" % r)
        ctx.check((sim.nv("h", r, "u") == u).all(), "hand_uniform", "a uniform value %r is %r" % (u, sim.nv("h", r, "u")[:1]))
        want = sorted(sorted(local[r][g] for g in e) for e in m.regions[r][1].tolist())
        got = sorted(sorted(e) for e in ds.get_element_node_list(device="h", region=r))
        ctx.check(want == got, "hand_elements", "the elements of %s are not those of the file" % r)
        at[r] = np.zeros(len(nodes))
        ctx.count("hand_nodes", len(nodes))
    for c, (r, nodes, by) in cn.items():
        for g in nodes:
            at[r][local[r][g]] = 1
        if by != "nodes":
            want = sorted(sorted(local[r][g] for g in e) for e in m.contacts[c][1].tolist())
            got = sorted(sorted(e) for e in ds.get_element_node_list(device="h", region=r, contact=c))
            ctx.check(want == got, "hand_contact", "the elements of contact %s are not those of the file" % c)
    for r in m.regions:
        ctx.check(np.array_equal(sim.nv("h", r, "AtContactNode") > 0, at[r] > 0), "hand_contact", "the nodes of contacts in %s are not those of the file" % r)
    for i, (a, b, nodes, by) in ifn.items():
        # the pairs, as an interface model sees them
        ds.node_solution(device="h", region=a, name="which")
        ds.set_node_values(device="h", region=a, name="which", values=[float(g) + 1 for g in vals[a][0]])
        ds.node_solution(device="h", region=b, name="which")
        ds.set_node_values(device="h", region=b, name="which", values=[float(g) + 1 for g in vals[b][0]])
        ds.interface_model(device="h", interface=i, name="p0", equation="which@r0")
        ds.interface_model(device="h", interface=i, name="p1", equation="which@r1")
        p0, p1 = (np.array(ds.get_interface_model_values(device="h", interface=i, name=q)) - 1 for q in ("p0", "p1"))
        ctx.check(np.array_equal(p0, p1), "hand_pairs", "interface %s by %s pairs nodes which are not at the same place: %r with %r" % (i, by, p0.tolist()[:5], p1.tolist()[:5]))
        ctx.check(sorted(p0.tolist()) == sorted(nodes), "hand_pairs", "interface %s by %s has other nodes than the file" % (i, by))
        ctx.count("hand_pairs", len(nodes))
    ctx.count("hand_files")
    roundtrip(ctx, ["h"], "a device of a file written by hand")
    # the older format with values only
    nm = {(r, k, q): s for r in m.regions for k in ("node", "edge") for q, s in values_of("h", r, k).items()}
    p = os.path.join(ctx.scratch, "v.msh")
    ds.write_devices(file=p, type="devsim_data")
    ds.reset_devsim()
    ds.load_devices(file=p)
    for r in m.regions:
        for k in ("node", "edge"):
            got = values_of("h", r, k)
            ctx.check(set(got) == {q for a, b, q in nm if (a, b) == (r, k)}, "data_format", "other models in the file of values")
            for q, v in got.items():
                # normals follow from elements of contacts and interfaces, which this format has not
                if "Normal" not in q and not q.endswith("SurfaceArea"):
                    ctx.check((r, k, q) in nm and np.array_equal(nm[r, k, q], v), "data_format", "%s %s of %s is not what was written" % (k, q, r))
    ctx.count("data_files")
    ctx.distinct("hand", dim, len(m.regions), ctx.case["k"])


def values_of(dev, r, kind):
    k = dict(device=dev, region=r)
    return {q: np.array(getattr(ds, "get_%s_model_values" % kind)(name=q, **k)) for q in getattr(ds, "get_%s_model_list" % kind)(**k)}


def matrices(ctx, s):
    """the assembled system by names: {(row, col): value}, {row: value}"""
    out = []
    for part in ("static", "dynamic"):
        m = ds.get_matrix_and_rhs(format="csc")
        if not out:
            s.number()
            lab = {}
            for (d, r, v), c in s.cols.items():
                for j, q in enumerate(c):
                    lab[int(q)] = (d, r, v, j)
            for k, c in s.ccol.items():
                lab[c] = ("circuit", "", k, 0)
        A = dense("csc", m[part], s.n) if part == "static" or "rhs" in m[part] else None
        out.append(({(lab[i], lab[j]): float(A[i, j]) for i, j in zip(*np.nonzero(A))}, {lab[i]: float(v) for i, v in enumerate(m[part]["rhs"])}))
    pm = {lab[i]: (lab[int(q)] if q >= 0 else -1, bool(c)) for i, (q, c) in enumerate(zip(m["permutation"]["row"], m["permutation"]["copy"]))} if len(m["permutation"]["row"]) == s.n else {}
    out.append((pm,))
    return out


def compare(ctx, a, b):
    """assembled again after a load: the same terms, perhaps summed in another order"""
    for name, x, y in zip(("static matrix", "static rhs", "dynamic matrix", "dynamic rhs", "permutation"), [q for p in a for q in p], [q for p in b for q in p]):
        if not ctx.check(set(x) == set(y), "assembled", "%s after loading: other entries %.300r" % (name, sorted(set(x) ^ set(y))[:3])):
            return
        if name == "permutation":
            ctx.check(x == y, "assembled", "the permutation differs after loading")
            continue
        ks = sorted(x)
        sc = max((abs(v) for v in x.values()), default=0.0)
        ctx.close([y[k] for k in ks], [x[k] for k in ks], "assembled", name + " after loading", rtol=1e-12, atol=1e-13 * sc)
        ctx.count("assembled", len(ks))
