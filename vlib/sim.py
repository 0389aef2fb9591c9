"""Helpers for workers that drive the simulator: meshes with an independent description of what they are."""
import numpy as np
import devsim as ds

error = ds.error


def reset():
    ds.reset_devsim()


class Mesh:
    """coords N x 3; regions name -> (material, simplices); contacts name -> (region, faces); interfaces name -> (r0, r1, faces)"""

    def __init__(self, dim, coords):
        self.dim, self.coords = dim, np.asarray(coords, dtype=float)
        self.regions, self.contacts, self.interfaces = {}, {}, {}

    # --- what the mesh describes
    def region_nodes(self, r):
        return np.unique(self.regions[r][1])

    def contact_nodes(self, c):
        return np.unique(self.contacts[c][1])

    def interface_nodes(self, i):
        return np.unique(self.interfaces[i][2])

    def region_edges(self, r):
        el = self.regions[r][1]
        k = el.shape[1]
        e = np.concatenate([el[:, [a, b]] for a in range(k) for b in range(a + 1, k)])
        return np.unique(np.sort(e, axis=1), axis=0)

    def boundary_faces(self, r):
        """faces that belong to one simplex of the region"""
        el = self.regions[r][1]
        k = el.shape[1]
        f = np.concatenate([np.delete(el, a, axis=1) for a in range(k)])
        f = np.sort(f, axis=1)
        u, n = np.unique(f, axis=0, return_counts=True)
        return u[n == 1]

    def shared_faces(self, r0, r1):
        a = {tuple(x) for x in self.boundary_faces(r0).tolist()}
        b = {tuple(x) for x in self.boundary_faces(r1).tolist()}
        return np.array(sorted(a & b), dtype=int).reshape(-1, self.dim)

    def measure(self, faces, scale=None):
        return simplex_measure(self.coords, np.asarray(faces))

    # --- to the simulator
    def arrays(self):
        names, elements = [], []
        kind = {1: 0, 2: 1, 3: 2, 4: 3}

        def group(name, simplices):
            i = len(names)
            names.append(name)
            for s in np.asarray(simplices).tolist():
                elements.append(kind[len(s)])
                elements.append(i)
                elements.extend(int(x) for x in s)
        for r, (m, el) in self.regions.items():
            group("g_" + r, el)
        for c, (r, f) in self.contacts.items():
            group("g_" + c, f)
        for n, (a, b, f) in self.interfaces.items():
            group("g_" + n, f)
        return [float(x) for x in self.coords.reshape(-1)], names, elements

    def build(self, device, mesh=None, rng=None):
        mesh = mesh or device + "_mesh"
        c, n, e = self.arrays()
        ds.create_gmsh_mesh(mesh=mesh, coordinates=c, physical_names=n, elements=e)
        for r, (m, el) in self.regions.items():
            ds.add_gmsh_region(mesh=mesh, gmsh_name="g_" + r, region=r, material=m)
        for k, (r, f) in self.contacts.items():
            ds.add_gmsh_contact(mesh=mesh, gmsh_name="g_" + k, region=r, name=k, material="metal")
        for k, (a, b, f) in self.interfaces.items():
            ds.add_gmsh_interface(mesh=mesh, gmsh_name="g_" + k, region0=a, region1=b, name=k)
        ds.finalize_mesh(mesh=mesh)
        ds.create_device(mesh=mesh, device=device)


def simplex_measure(x, s):
    """length/area/volume of simplices (1 for points)"""
    s = np.asarray(s)
    k = s.shape[1]
    p = x[s]
    if k == 1:
        return np.ones(len(s))
    d = p[:, 1:, :] - p[:, :1, :]
    g = np.einsum("nij,nkj->nik", d, d)
    f = 1.0
    for i in range(2, k):
        f *= i
    return np.sqrt(np.maximum(np.linalg.det(g), 0.0)) / f


def circumcenters(x, s):
    """circumcentre of simplices inside their own span"""
    s = np.asarray(s)
    p = x[s]
    d = p[:, 1:, :] - p[:, :1, :]
    g = 2.0 * np.einsum("nij,nkj->nik", d, d)
    b = np.einsum("nij,nij->ni", d, d)
    lam = np.linalg.solve(g, b[:, :, None])[:, :, 0]
    return p[:, 0, :] + np.einsum("ni,nij->nj", lam, d), lam


def contains_center(lam, tol=1e-12):
    return bool((lam >= -tol).all() and (lam.sum(axis=1) <= 1 + tol).all())


# ---------------------------------------------------------------- random meshes
def ticks(rs, n, lo=0.0, hi=1.0):
    w = 0.3 + rs.rand(n)
    t = np.concatenate([[0.0], np.cumsum(w)])
    return lo + (hi - lo) * t / t[-1]


def mesh1d(rs, nreg=1, n=None, scale=1.0, contacts=True, interfaces=True, axis=0):
    n = n or rs.randint(3, 12)
    per = [max(2, n)] * nreg
    total = sum(per)
    x = ticks(rs, total) * scale
    c = np.zeros((total + 1, 3))
    c[:, axis] = x
    perm = rs.permutation(total + 1)
    coords = np.empty_like(c)
    coords[perm] = c
    m = Mesh(1, coords)
    o = 0
    for r in range(nreg):
        el = np.array([[perm[o + i], perm[o + i + 1]] for i in range(per[r])])
        m.regions["r%d" % r] = ("mat%d" % r, el)
        if r > 0 and interfaces:
            m.interfaces["i%d" % (r - 1)] = ("r%d" % (r - 1), "r%d" % r, np.array([[perm[o]]]))
        o += per[r]
    if contacts:
        m.contacts["c0"] = ("r0", np.array([[perm[0]]]))
        m.contacts["c1"] = ("r%d" % (nreg - 1), np.array([[perm[total]]]))
    return m


def _split_regions(m, el, nreg, rs, axis=0, bounds=None, contacts=True, interfaces=True):
    cx = m.coords[el].mean(axis=1)[:, axis]
    lo, hi = m.coords[:, axis].min(), m.coords[:, axis].max()
    if bounds is None:
        bounds = np.quantile(cx, np.linspace(0, 1, nreg + 1)[1:-1])
    ri = np.searchsorted(bounds, cx)
    for r in range(nreg):
        s = el[ri == r]
        if len(s):
            m.regions["r%d" % r] = ("mat%d" % r, s)
    names = list(m.regions)
    if contacts:
        for cn, val, r in (("c0", lo, names[0]), ("c1", hi, names[-1])):
            f = m.boundary_faces(r)
            on = np.abs(m.coords[f][:, :, axis] - val).max(axis=1) < 1e-9 * (hi - lo)
            if on.any():
                m.contacts[cn] = (r, f[on])
    if interfaces:
        for i in range(len(names) - 1):
            f = m.shared_faces(names[i], names[i + 1])
            if len(f):
                m.interfaces["i%d" % i] = (names[i], names[i + 1], f)
    return m


def mesh2d(rs, nreg=1, nx=None, ny=None, kind="right", scale=1.0, contacts=True, interfaces=True, offset=(0.0, 0.0)):
    """kind: right (grid of right triangles), acute (equilateral-like grid), delaunay (random points, any shape)"""
    nx, ny = nx or rs.randint(2, 7), ny or rs.randint(2, 6)
    nx = max(nx, 2 * nreg)
    if kind == "right":
        xs, ys = ticks(rs, nx), ticks(rs, ny, 0, 0.4 + rs.rand())
        pts = np.array([(x, y) for y in ys for x in xs])
        el = []
        idx = lambda i, j: j * (nx + 1) + i
        for j in range(ny):
            for i in range(nx):
                a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
                el += [(a, b, c), (a, c, d)] if rs.rand() < 0.5 else [(a, b, d), (b, c, d)]
        el = np.array(el)
    elif kind == "acute":
        h = 1.0 / nx
        # stretched/sheared equilateral rows, left and right boundary straightened by right triangles
        pts, rows = [], []
        hy = h * (0.7 + 0.5 * rs.rand())
        for j in range(ny + 1):
            xs = [k * h for k in range(nx + 1)] if j % 2 == 0 else [0.0] + [(k + 0.5) * h for k in range(nx)] + [1.0]
            rows.append(list(range(len(pts), len(pts) + len(xs))))
            pts += [(x, j * hy) for x in xs]
        el = []
        for j in range(ny):
            lo, hi = rows[j], rows[j + 1]
            ev, od = (lo, hi) if j % 2 == 0 else (hi, lo)
            for k in range(nx):
                el.append((ev[k], ev[k + 1], od[k + 1]))
            for k in range(nx + 1):
                el.append((od[k], od[k + 1], ev[k]))
        pts, el = np.array(pts), np.array(el)
    else:
        from scipy.spatial import Delaunay
        bx = np.linspace(0, 1, nx + 1)
        by = np.linspace(0, 0.8, ny + 1)
        gx, gy = np.meshgrid(bx, by, indexing="ij")
        jx = (rs.rand(*gx.shape) - 0.5) * 0.7 / nx
        jy = (rs.rand(*gx.shape) - 0.5) * 0.7 * 0.8 / ny
        jx[[0, -1], :] = 0
        jy[:, [0, -1]] = 0
        pts = np.column_stack([(gx + jx).ravel(), (gy + jy).ravel()])
        el = Delaunay(pts).simplices
        el = el[simplex_measure(np.column_stack([pts, np.zeros(len(pts))]), el) > 1e-7]
    pts = pts * scale + np.asarray(offset)
    perm = rs.permutation(len(pts))
    coords = np.zeros((len(pts), 3))
    coords[perm, :2] = pts
    el = perm[el]
    el = np.array([e[rs.permutation(3)] for e in el])[rs.permutation(len(el))]
    m = Mesh(2, coords)
    return _split_regions(m, el, nreg, rs, contacts=contacts, interfaces=interfaces)


def mesh3d(rs, nreg=1, n=None, kind="kuhn", scale=1.0, contacts=True, interfaces=True):
    n = n or (rs.randint(2, 4), rs.randint(1, 4), rs.randint(1, 4))
    n = (max(n[0], 2 * nreg), n[1], n[2])
    xs, ys, zs = ticks(rs, n[0]), ticks(rs, n[1]), ticks(rs, n[2])
    P = np.array([(x, y, z) for z in zs for y in ys for x in xs])
    if kind == "delaunay":
        from scipy.spatial import Delaunay
        X = P.reshape(n[2] + 1, n[1] + 1, n[0] + 1, 3).copy()
        for a, ax in ((0, 2), (1, 1), (2, 0)):
            j = (rs.rand(*X.shape[:3]) - 0.5) * 0.35 / max(n)
            sl = [slice(None)] * 3
            sl[ax] = [0, -1]
            j[tuple(sl)] = 0
            X[..., a] += j
        P = X.reshape(-1, 3)
        el = Delaunay(P).simplices
        el = el[simplex_measure(P, el) > 1e-5]
    else:
        el = []
        import itertools
        idx = lambda i, j, k: (k * (n[1] + 1) + j) * (n[0] + 1) + i
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    for p in itertools.permutations(range(3)):
                        o = [i, j, k]
                        t = [idx(*o)]
                        for a in p:
                            o[a] += 1
                            t.append(idx(*o))
                        el.append(t)
        el = np.array(el)
    perm = rs.permutation(len(P))
    coords = np.zeros_like(P)
    coords[perm] = P * scale
    el = perm[el]
    el = np.array([e[rs.permutation(4)] for e in el])[rs.permutation(len(el))]
    used = np.unique(el)
    m = Mesh(3, coords)
    return _split_regions(m, el, nreg, rs, contacts=contacts, interfaces=interfaces)


def any_mesh(rs, dim=None, nreg=None, small=True, kind=None, **kw):
    dim = dim or rs.choice([1, 2, 2, 3])
    nreg = nreg or int(rs.choice([1, 1, 2, 3]))
    if small and rs.rand() < 0.025 and not {"n", "nx", "ny"} & set(kw):
        # now and then a larger one
        kw = dict(kw, **{1: {"n": int(rs.randint(40, 150))}, 2: {"nx": int(rs.randint(10, 22)), "ny": int(rs.randint(8, 15))}, 3: {"n": tuple(int(x) for x in rs.randint(3, 6, 3))}}[int(dim)])
    if dim == 1:
        return mesh1d(rs, nreg, **kw)
    if dim == 2:
        return mesh2d(rs, nreg, kind=kind or str(rs.choice(["right", "acute", "delaunay"])), **kw)
    return mesh3d(rs, nreg, kind=kind or str(rs.choice(["kuhn", "delaunay"])), **kw)


# ---------------------------------------------------------------- reading the simulator
def nodes_of(dev, reg):
    """node positions, N x 3, in the simulator's node order"""
    return np.column_stack([np.array(ds.get_node_model_values(device=dev, region=reg, name=k)) for k in "xyz"])


def nv(dev, reg, name):
    return np.array(ds.get_node_model_values(device=dev, region=reg, name=name))


def ev(dev, reg, name):
    return np.array(ds.get_edge_model_values(device=dev, region=reg, name=name))


def elv(dev, reg, name):
    return np.array(ds.get_element_model_values(device=dev, region=reg, name=name))


def edges_of(dev, reg):
    """node indexes at both ends of every edge, E x 2, as the simulator orders them (n0, n1)"""
    ds.edge_from_node_model(device=dev, region=reg, node_model="node_index")
    return np.column_stack([np.round(ev(dev, reg, "node_index@n%d" % k)).astype(int) for k in (0, 1)])


def element_edges_of(dev, reg, dim):
    """node indexes at both ends of every element edge (M*3 or M*6) x 2, plus opposite nodes"""
    ds.element_from_node_model(device=dev, region=reg, node_model="node_index")
    k = 3 if dim == 2 else 4
    return np.column_stack([np.round(elv(dev, reg, "node_index@en%d" % i)).astype(int) for i in range(k)])


def find_perm(have, want):
    """index into want for every row of have (rows equal up to rounding); None if it is not a bijection"""
    if len(have) != len(want):
        return None
    d = {}
    for i, r in enumerate(np.round(want / (np.abs(want).max() or 1.0), 9).tolist()):
        d[tuple(x + 0.0 for x in r)] = i
    out = []
    for r in np.round(have / (np.abs(want).max() or 1.0), 9).tolist():
        i = d.pop(tuple(x + 0.0 for x in r), None)
        if i is None:
            return None
        out.append(i)
    return np.array(out)


def line_device(device, n, spacing=1.0, region="r"):
    """1D device with n uniformly spaced nodes"""
    m = device + "_mesh"
    ds.create_1d_mesh(mesh=m)
    ds.add_1d_mesh_line(mesh=m, pos=0.0, ps=spacing, tag="left")
    ds.add_1d_mesh_line(mesh=m, pos=spacing * (n - 1), ps=spacing, tag="right")
    ds.add_1d_contact(mesh=m, name="left", tag="left", material="metal")
    ds.add_1d_contact(mesh=m, name="right", tag="right", material="metal")
    ds.add_1d_region(mesh=m, region=region, material="stuff", tag1="left", tag2="right")
    ds.finalize_mesh(mesh=m)
    ds.create_device(mesh=m, device=device)
    k = len(ds.get_node_model_values(device=device, region=region, name="x"))
    assert k == n, (k, n)
    return k
