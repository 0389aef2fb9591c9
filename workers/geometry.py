"""C06: built-in geometry models against an independent computation on the mesh coordinates."""
import numpy as np
import devsim as ds
from vlib import sim
from vlib.geo import Geo


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = [(1, None), (2, "right"), (2, "acute"), (2, "delaunay"), (3, "kuhn"), (3, "delaunay")]
    for i in range(n):
        d, k = plan[(o + i) % len(plan)]
        yield {"id": "geo%d" % (o + i), "dim": d, "kind": k}


def order_of(ctx, dev, reg, m, key):
    """simulator node -> row in m.region_nodes(reg); checks the node set while at it"""
    pos = sim.nodes_of(dev, reg)
    want = m.region_nodes(reg)
    ci = np.round(sim.nv(dev, reg, "coordinate_index")).astype(int)
    ctx.check(sorted(ci.tolist()) == sorted(want.tolist()), key + ":coordinate_index", "coordinate_index of region %s is not its node set" % reg)
    ctx.close(sim.nv(dev, reg, "node_index"), np.arange(len(pos)), key + ":node_index", "node_index", rtol=0)
    ctx.close(pos, m.coords[ci], key + ":position", "x,y,z of nodes", rtol=1e-12)
    return pos, ci


def run_case(ctx, case):
    rs = ctx.np()
    dim, kind = case["dim"], case["kind"]
    sim.reset()
    nreg = int(rs.choice([1, 2, 3]))
    scale = float(10.0 ** rs.randint(-6, 4))
    ext = rs.rand() < 0.25
    if ext:
        ds.set_parameter(name="extended_model", value=True)
    if dim == 1:
        m = sim.mesh1d(rs, nreg, scale=scale, axis=int(rs.choice([0, 0, 1, 2])))
    elif dim == 2:
        m = sim.mesh2d(rs, nreg, kind=kind, scale=scale, offset=(scale * rs.rand(), scale * rs.rand()) if rs.rand() < 0.5 else (0., 0.))
    else:
        m = sim.mesh3d(rs, nreg, kind=kind, scale=scale)
    if dim > 1:
        # extra contacts: another side, overlapping the corner of the first contact
        r = "r0"
        f = m.boundary_faces(r)
        c = m.coords[f][:, :, 1]
        on = np.abs(c - m.coords[:, 1].min()).max(axis=1) < 1e-9 * scale
        inter = {tuple(x) for v in m.interfaces.values() for x in np.sort(v[2], axis=1).tolist()}
        on &= np.array([tuple(sorted(x)) not in inter for x in f.tolist()])
        if on.any():
            m.contacts["c2"] = (r, f[on])
    m.build("dev")
    key = "geom:%dd" % dim
    for r in m.regions:
        check_region(ctx, rs, m, "dev", r, key, scale)
    if dim == 2:
        for r in m.regions:
            check_cylindrical(ctx, rs, m, "dev", r, key, scale)
    if dim > 1 and m.interfaces:
        check_normal(ctx, rs, m, "dev", key, scale)
    # a contact made later changes the surfaces
    if m.interfaces and dim > 1:
        iname = sorted(m.interfaces)[0]
        a, b, f = m.interfaces[iname]
        ds.create_contact_from_interface(device="dev", region=a, interface=iname, name="late", material="metal")
        m.contacts["late"] = (a, f)
        check_surfaces(ctx, m, "dev", a, key + ":late", scale)
        check_surfaces(ctx, m, "dev", b, key + ":late", scale)
    ctx.distinct(dim, kind, nreg, len(m.coords), scale, ext)
    ctx.sample({"dim": dim, "kind": kind, "regions": {r: len(m.region_nodes(r)) for r in m.regions}, "scale": scale, "extended": bool(ext)})


def local(m, reg, ci):
    look = {c: i for i, c in enumerate(ci.tolist())}
    return np.array([[look[x] for x in e] for e in m.regions[reg][1].tolist()]), look


def check_region(ctx, rs, m, dev, reg, key, scale):
    dim = m.dim
    pos, ci = order_of(ctx, dev, reg, m, key)
    el, look = local(m, reg, ci)
    g = Geo(pos, el, dim)
    # reads in a random order: a model must not depend on what was read before
    names = ["EdgeCouple", "EdgeLength", "EdgeInverseLength", "EdgeNodeVolume", "unitx", "unity", "unitz", "edge_index"][: 8]
    if dim == 1:
        names.remove("unity"), names.remove("unitz")
    if dim == 2:
        names.remove("unitz")
    order = [names[i] for i in rs.permutation(len(names))]
    read_node_first = rs.rand() < 0.5
    if read_node_first:
        nvol = sim.nv(dev, reg, "NodeVolume")
    vals = {n: sim.ev(dev, reg, n) for n in order}
    if not read_node_first:
        nvol = sim.nv(dev, reg, "NodeVolume")
    ee = sim.edges_of(dev, reg)
    try:
        idx = np.array([g.eindex[(min(a, b), max(a, b))] for a, b in ee.tolist()])
    except KeyError as e:
        ctx.violation(key + ":edges", "edge between nodes %s is not an edge of any element of %s" % (e, reg))
        return
    ctx.check(len(set(idx.tolist())) == len(g.edges) == len(idx), key + ":edges", "edges of region are not each present once: %d of %d" % (len(set(idx.tolist())), len(g.edges)))
    ctx.count("edges", len(idx))
    ctx.count("nodes", len(pos))
    tol = 1e-8
    ctx.close(vals["EdgeLength"], g.length[idx], key + ":EdgeLength", "EdgeLength", rtol=1e-10)
    ctx.close(vals["EdgeInverseLength"], 1 / g.length[idx], key + ":EdgeInverseLength", "EdgeInverseLength", rtol=1e-10)
    ctx.close(vals["edge_index"], np.arange(len(idx)), key + ":edge_index", "edge_index", rtol=0)
    u = (pos[ee[:, 1]] - pos[ee[:, 0]]) / g.length[idx][:, None]
    for k, n in enumerate(("unitx", "unity", "unitz")):
        if n in vals and not (dim == 1):
            ctx.close(vals[n], u[:, k], key + ":unit", n, rtol=1e-9, atol=1e-9)
    if dim == 1 and abs(u[:, 0]).min() > 0.5:
        ctx.close(vals["unitx"], u[:, 0], key + ":unit", "unitx", rtol=1e-9, atol=1e-9)
    cs = np.abs(g.couple).max()
    ctx.close(vals["EdgeCouple"], g.couple[idx], key + ":EdgeCouple", "EdgeCouple", rtol=tol, scale=cs)
    vs = np.abs(g.evol).max()
    ctx.close(vals["EdgeNodeVolume"], g.evol[idx], key + ":EdgeNodeVolume", "EdgeNodeVolume", rtol=tol, scale=vs)
    ctx.close(nvol, g.nvol, key + ":NodeVolume", "NodeVolume", rtol=tol, scale=np.abs(g.nvol).max())
    if dim > 1:
        en = sim.element_edges_of(dev, reg, dim)
        ne = len(g.pairs)
        eli = elem_index(ctx, g, en, ne, key)
        if eli is None:
            return
        c = sim.elv(dev, reg, "ElementEdgeCouple")
        v = sim.elv(dev, reg, "ElementNodeVolume")
        want_c, want_v = [], []
        for row, (e, nn) in enumerate(zip(eli, en)):
            j = pair_of(g, e, nn[0], nn[1])
            want_c.append(g.ecouple_el[e, j])
            want_v.append(g.envol_el[e, j])
        ctx.close(c, want_c, key + ":ElementEdgeCouple", "ElementEdgeCouple", rtol=tol, scale=cs)
        ctx.close(v, want_v, key + ":ElementNodeVolume", "ElementNodeVolume", rtol=tol, scale=vs)
        ctx.count("element_edges", len(eli))
    inside = dim == 1 or bool((g.lam >= -1e-10).all() and (g.lam.sum(axis=1) <= 1 + 1e-10).all())
    if inside:
        tot = sim.simplex_measure(pos, el).sum()
        ctx.close(nvol.sum(), tot, key + ":partition", "sum of NodeVolume against the measure of the region", rtol=1e-8)
        ctx.count("partitions")
    check_surfaces(ctx, m, dev, reg, key, scale)


def elem_index(ctx, g, en, ne, key):
    out = []
    seen = set()
    k = g.dim + 1
    for i, nn in enumerate(en.tolist()):
        try:
            e = g.element_of(nn[:k])
        except KeyError:
            ctx.violation(key + ":elements", "element edge %d has nodes %s, which are no element" % (i, nn))
            return None
        out.append(e)
        seen.add((e, min(nn[0], nn[1]), max(nn[0], nn[1])))
    ctx.check(len(seen) == len(en) == ne * len(g.el), key + ":elements", "element edges are not each present once")
    return out


def pair_of(g, e, a, b):
    l = g.el[e].tolist()
    i, j = l.index(a), l.index(b)
    return g.pairs.index((min(i, j), max(i, j)))


def faces_of(m, reg):
    """contact faces and interface faces of a region"""
    c = [f for (r, f) in m.contacts.values() if r == reg]
    i = [f for (a, b, f) in m.interfaces.values() if reg in (a, b)]
    return c, i


def check_surfaces(ctx, m, dev, reg, key, scale):
    pos = sim.nodes_of(dev, reg)
    ci = np.round(sim.nv(dev, reg, "coordinate_index")).astype(int)
    el, look = local(m, reg, ci)
    g = Geo(pos, el, m.dim)
    c, i = faces_of(m, reg)
    loc = lambda fs: np.array([[look[x] for x in f] for ff in fs for f in ff.tolist()], dtype=int).reshape(-1, m.dim)
    cf, jf = loc(c), loc(i)
    want_c = g.face_area(cf, len(pos)) if len(cf) else np.zeros(len(pos))
    want_i = g.face_area(jf, len(pos)) if len(jf) else np.zeros(len(pos))
    sc = max(want_c.max(), want_i.max(), 1e-300)
    ctx.close(sim.nv(dev, reg, "SurfaceArea"), want_i, key + ":SurfaceArea", "SurfaceArea of %s" % reg, rtol=1e-8, scale=sc)
    ctx.close(sim.nv(dev, reg, "ContactSurfaceArea"), want_c, key + ":ContactSurfaceArea", "ContactSurfaceArea of %s" % reg, rtol=1e-8, scale=sc)
    at = np.zeros(len(pos))
    for ff in c:
        at[[look[x] for x in np.unique(ff).tolist()]] += 1
    ctx.close(sim.nv(dev, reg, "AtContactNode"), at, key + ":AtContactNode", "AtContactNode of %s" % reg, rtol=0)
    ctx.count("surfaces", 2)
    if m.dim == 1:
        return
    for faces, pre in ((jf, "NSurfaceNormal_"), (cf, "ContactNSurfaceNormal_")):
        n = np.column_stack([sim.nv(dev, reg, pre + a) for a in "xyz"[: m.dim]] + ([np.zeros(len(pos))] if m.dim == 2 else []))
        adj = {}
        if len(faces):
            faces = np.unique(np.sort(faces, axis=1), axis=0)
            p = pos[faces]
            if m.dim == 2:
                t = p[:, 1] - p[:, 0]
                fn = np.column_stack([t[:, 1], -t[:, 0], np.zeros(len(t))])
            else:
                fn = np.cross(p[:, 1] - p[:, 0], p[:, 2] - p[:, 0])
            fn /= np.linalg.norm(fn, axis=1)[:, None]
            for f, v in zip(faces.tolist(), fn):
                for x in f:
                    adj.setdefault(x, []).append(v)
        for x in range(len(pos)):
            if x not in adj:
                ctx.check(np.abs(n[x]).max() == 0, key + ":normal", "%s is not zero away from the surface" % pre)
                continue
            vs = np.array(adj[x])
            if (np.abs(vs @ vs[0]) > 1 - 1e-10).all():
                ctx.check(abs(abs(n[x] @ vs[0]) - 1) < 1e-7 and abs(np.linalg.norm(n[x]) - 1) < 1e-7, key + ":normal",
                          lambda: "%s at node %d is %s, the flat surface there has %s" % (pre, x, n[x], vs[0]))
            else:
                ctx.check(abs(np.linalg.norm(n[x]) - 1) < 1e-7, key + ":normal", lambda: "%s at node %d is not a unit vector: %s" % (pre, x, n[x]))


def check_cylindrical(ctx, rs, m, dev, reg, key, scale):
    pos = sim.nodes_of(dev, reg)
    ci = np.round(sim.nv(dev, reg, "coordinate_index")).astype(int)
    el, look = local(m, reg, ci)
    g = Geo(pos, el, 2)
    ds.cylindrical_edge_couple(device=dev, region=reg)
    ds.cylindrical_node_volume(device=dev, region=reg)
    ds.cylindrical_surface_area(device=dev, region=reg)
    en = sim.element_edges_of(dev, reg, 2)
    ee = sim.edges_of(dev, reg)
    eli = elem_index(ctx, g, en, 3, key)
    if eli is None:
        return
    for step in range(2):
        axis = "xy"[rs.randint(2)]
        ai = 0 if axis == "x" else 1
        lo, hi = min(pos[:, ai].min(), g.cc[:, ai].min()), max(pos[:, ai].max(), g.cc[:, ai].max())
        r0 = float(lo - rs.choice([0.0, 0.3]) * (hi - lo)) if rs.rand() < 0.7 else float(hi + 0.2 * (hi - lo))
        # sometimes device wide, sometimes overridden on the region: geometry follows either way
        if step == 0:
            ds.set_parameter(device=dev, name="raxis_variable", value=axis)
            ds.set_parameter(device=dev, name="raxis_zero", value=r0)
        else:
            ds.set_parameter(device=dev, region=reg, name="raxis_variable", value=axis)
            ds.set_parameter(device=dev, region=reg, name="raxis_zero", value=r0)
        c, v0, v1 = g.cyl(axis, r0)
        ec, ev0, ev1 = np.zeros(len(ee)), np.zeros(len(ee)), np.zeros(len(ee))
        wc, w0, w1 = [], [], []
        where = {tuple(sorted(e)): i for i, e in enumerate(ee.tolist())}
        for e, nn in zip(eli, en.tolist()):
            j = pair_of(g, e, nn[0], nn[1])
            a = g.el[e][g.pairs[j][0]]
            va, vb = (v0[e, j], v1[e, j]) if a == nn[0] else (v1[e, j], v0[e, j])
            wc.append(c[e, j]), w0.append(va), w1.append(vb)
            i = where[tuple(sorted(nn[:2]))]
            ec[i] += c[e, j]
            if ee[i][0] == nn[0]:
                ev0[i] += va
                ev1[i] += vb
            else:
                ev0[i] += vb
                ev1[i] += va
        k = key + ":cyl"
        cs, vs = max(wc), max(max(w0), max(w1))
        ctx.close(sim.elv(dev, reg, "ElementCylindricalEdgeCouple"), wc, k + ":ElementEdgeCouple", "ElementCylindricalEdgeCouple", rtol=1e-7, scale=cs)
        ctx.close(sim.elv(dev, reg, "ElementCylindricalNodeVolume@en0"), w0, k + ":ElementNodeVolume", "ElementCylindricalNodeVolume@en0", rtol=1e-7, scale=vs)
        ctx.close(sim.elv(dev, reg, "ElementCylindricalNodeVolume@en1"), w1, k + ":ElementNodeVolume", "ElementCylindricalNodeVolume@en1", rtol=1e-7, scale=vs)
        ctx.close(sim.ev(dev, reg, "CylindricalEdgeCouple"), ec, k + ":EdgeCouple", "CylindricalEdgeCouple", rtol=1e-7, scale=cs)
        ctx.close(sim.ev(dev, reg, "CylindricalEdgeNodeVolume@n0"), ev0, k + ":EdgeNodeVolume", "CylindricalEdgeNodeVolume@n0", rtol=1e-7, scale=vs)
        ctx.close(sim.ev(dev, reg, "CylindricalEdgeNodeVolume@n1"), ev1, k + ":EdgeNodeVolume", "CylindricalEdgeNodeVolume@n1", rtol=1e-7, scale=vs)
        n = np.zeros(len(pos))
        np.add.at(n, ee[:, 0], ev0)
        np.add.at(n, ee[:, 1], ev1)
        got = sim.nv(dev, reg, "CylindricalNodeVolume")
        ctx.close(got, n, k + ":NodeVolume", "CylindricalNodeVolume", rtol=1e-7, scale=n.max())
        inside = bool((g.lam >= -1e-10).all() and (g.lam.sum(axis=1) <= 1 + 1e-10).all())
        if inside:
            area = sim.simplex_measure(pos, el)
            cen = pos[el].mean(axis=1)[:, ai] - r0
            ctx.close(got.sum(), (2 * np.pi * np.abs(cen) * area).sum(), k + ":partition", "sum of CylindricalNodeVolume against the volume of revolution", rtol=1e-7)
            ctx.count("partitions")
        cfs, ifs = faces_of(m, reg)
        al = [tuple(sorted((look[a], look[b]))) for ff in cfs + ifs for a, b in ff.tolist()]
        w = np.zeros(len(pos))
        for a, b in sorted(set(al)):
            L = np.linalg.norm(pos[a] - pos[b])
            ra, rb = pos[a][ai] - r0, pos[b][ai] - r0
            rm = 0.5 * (ra + rb)
            w[a] += np.pi * abs(ra + rm) * L / 2
            w[b] += np.pi * abs(rb + rm) * L / 2
        ctx.close(sim.nv(dev, reg, "CylindricalSurfaceArea"), w, k + ":SurfaceArea", "CylindricalSurfaceArea", rtol=1e-8, scale=max(w.max(), 1e-300))
        ctx.count("cylindrical")


def check_normal(ctx, rs, m, dev, key, scale):
    for iname, (a, b, f) in m.interfaces.items():
        for reg in (a, b):
            ds.interface_normal_model(device=dev, region=reg, interface=iname)
            pos = sim.nodes_of(dev, reg)
            ci = np.round(sim.nv(dev, reg, "coordinate_index")).astype(int)
            look = {c: i for i, c in enumerate(ci.tolist())}
            inod = np.array([look[x] for x in np.unique(f).tolist()])
            ee = sim.edges_of(dev, reg)
            mid = 0.5 * (pos[ee[:, 0]] + pos[ee[:, 1]])
            d = np.linalg.norm(mid[:, None, :] - pos[inod][None, :, :], axis=2)
            dist = sim.ev(dev, reg, iname + "_distance")
            ctx.close(dist, d.min(axis=1), key + ":interface_distance", "%s_distance in %s" % (iname, reg), rtol=1e-9, scale=scale * 1e-3)
            nn = np.column_stack([sim.nv(dev, reg, "NSurfaceNormal_" + x) for x in "xyz"[: m.dim]])
            got = np.column_stack([sim.ev(dev, reg, "%s_normal_%s" % (iname, x)) for x in "xyz"[: m.dim]])
            near = d <= d.min(axis=1)[:, None] * (1 + 1e-9)
            for i in range(len(ee)):
                ok = False
                for k in np.flatnonzero(near[i]):
                    n = nn[inod[k]]
                    t = (pos[inod[k]] - mid[i])[: m.dim]
                    s = t @ n
                    tt = np.linalg.norm(t) + 1e-300
                    if abs(s) < 1e-9 * tt:
                        ok |= min(np.abs(got[i] - n).max(), np.abs(got[i] + n).max()) < 1e-7
                    else:
                        ok |= np.abs(got[i] - (n if s > 0 else -n)).max() < 1e-7
                if not ok:
                    ctx.violation(key + ":interface_normal", "edge %d of %s: normal to %s is %s" % (i, reg, iname, got[i]))
                    break
            ctx.count("interface_normals", len(ee))
