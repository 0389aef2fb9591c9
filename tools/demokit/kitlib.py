"""small devices for the demonstrations"""
import sys
import devsim as ds


def line(dev, n=10, regions=1, length=1.0, material="Si"):
    """1D device of equal regions r0, r1, ..., contacts "left" and "right", interfaces i0, i1, ..."""
    m = dev + "_mesh"
    ds.create_1d_mesh(mesh=m)
    for k in range(regions + 1):
        ds.add_1d_mesh_line(mesh=m, pos=k * length, ps=length / n, tag="t%d" % k)
    ds.add_1d_contact(mesh=m, name="left", tag="t0", material="metal")
    ds.add_1d_contact(mesh=m, name="right", tag="t%d" % regions, material="metal")
    for k in range(regions):
        ds.add_1d_region(mesh=m, material=material, region="r%d" % k, tag1="t%d" % k, tag2="t%d" % (k + 1))
    for k in range(regions - 1):
        ds.add_1d_interface(mesh=m, name="i%d" % k, tag="t%d" % (k + 1))
    ds.finalize_mesh(mesh=m)
    ds.create_device(mesh=m, device=dev)


TYPES = {"point": 0, "line": 1, "tri": 2, "tet": 3}


def array_mesh(dev, coords, parts, regions, contacts=(), interfaces=()):
    """parts: [(name, [(node, ...), ...])]; regions: [(part, region)], contacts: [(part, region, contact)], interfaces: [(part, region0, region1, interface)]"""
    m = dev + "_mesh"
    c = [float(x) for p in coords for x in p]
    e = []
    for k, (name, els) in enumerate(parts):
        for q in els:
            e += [len(q) - 1, k] + list(q)
    ds.create_gmsh_mesh(mesh=m, coordinates=c, physical_names=[p[0] for p in parts], elements=e)
    for part, r in regions:
        ds.add_gmsh_region(mesh=m, gmsh_name=part, region=r, material="Si")
    for part, r, k in contacts:
        ds.add_gmsh_contact(mesh=m, gmsh_name=part, region=r, name=k, material="metal")
    for part, a, b, k in interfaces:
        ds.add_gmsh_interface(mesh=m, gmsh_name=part, region0=a, region1=b, name=k)
    ds.finalize_mesh(mesh=m)
    ds.create_device(mesh=m, device=dev)


def grid(nx, ny):
    """coordinates and triangles of an nx by ny grid of unit squares; node(i, j)"""
    node = lambda i, j: i * (ny + 1) + j
    xy = [(float(i), float(j), 0.0) for i in range(nx + 1) for j in range(ny + 1)]
    cell = lambda i, j: [(node(i, j), node(i + 1, j), node(i + 1, j + 1)), (node(i, j), node(i + 1, j + 1), node(i, j + 1))]
    return node, xy, cell


def laplace(dev, region, var="V", name="pot", k="1"):
    kw = dict(device=dev, region=region)
    ds.node_solution(name=var, **kw)
    ds.edge_from_node_model(node_model=var, **kw)
    ds.edge_model(name="F" + var, equation="%s*(%s@n0-%s@n1)*EdgeInverseLength" % (k, var, var), **kw)
    ds.edge_model(name="F%s:%s@n0" % (var, var), equation="%s*EdgeInverseLength" % k, **kw)
    ds.edge_model(name="F%s:%s@n1" % (var, var), equation="-%s*EdgeInverseLength" % k, **kw)
    ds.equation(name=name, variable_name=var, edge_model="F" + var, **kw)


def dirichlet(dev, contact, value, var="V", name="pot", current=True):
    n = "%s_%s" % (contact, var)
    ds.contact_node_model(device=dev, contact=contact, name=n, equation="%s-(%s)" % (var, value))
    ds.contact_node_model(device=dev, contact=contact, name="%s:%s" % (n, var), equation="1")
    kw = {"edge_current_model": "F" + var} if current else {}
    ds.contact_equation(device=dev, contact=contact, name=name, node_model=n, **kw)


def values(dev, region, name):
    return list(ds.get_node_model_values(device=dev, region=region, name=name))


def near(got, want, tol=1e-9):
    return abs(got - want) <= tol * max(1.0, abs(want))


def verdict(ok, text=""):
    print("DEMO", "holds" if ok else "BROKEN", text)
    sys.stdout.flush()
    sys.exit(0 if ok else 1)
