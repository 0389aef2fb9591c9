"""Independent computation of the control-volume geometry of a mesh, from coordinates and connectivity alone."""
import numpy as np
from vlib.sim import circumcenters, simplex_measure


def edge_key(a, b):
    return (a, b) if a < b else (b, a)


class Geo:
    """pos: node positions (N x 3), el: simplices by node index"""

    def __init__(self, pos, el, dim):
        self.pos, self.el, self.dim = pos, np.asarray(el), dim
        k = dim + 1
        self.pairs = [(a, b) for a in range(k) for b in range(a + 1, k)]
        ends = np.sort(np.concatenate([self.el[:, [a, b]] for a, b in self.pairs]), axis=1)
        self.edges, inv = np.unique(ends, axis=0, return_inverse=True)
        self.inv = inv.reshape(len(self.pairs), len(self.el)).T     # element, pair -> edge
        self.eindex = {tuple(e): i for i, e in enumerate(self.edges.tolist())}
        p0, p1 = pos[self.edges[:, 0]], pos[self.edges[:, 1]]
        self.length = np.linalg.norm(p1 - p0, axis=1)
        self.mid = 0.5 * (p0 + p1)
        ne = len(self.edges)
        if dim == 1:
            self.ecouple_el = np.ones((len(self.el), 1))
            self.couple = np.ones(ne)
            self.evol = 0.5 * self.length
            self.envol_el = 0.5 * self.length[self.inv]
        else:
            self.cc, self.lam = circumcenters(pos, self.el)
            c = np.empty(self.inv.shape)
            for j, (a, b) in enumerate(self.pairs):
                m = 0.5 * (pos[self.el[:, a]] + pos[self.el[:, b]])
                if dim == 2:
                    c[:, j] = np.linalg.norm(self.cc - m, axis=1)
                else:
                    v0 = self.cc - m
                    t = 0.0
                    for o in range(4):
                        if o in (a, b):
                            continue
                        fc, _ = circumcenters(pos, self.el[:, [a, b, o]])
                        t = t + 0.5 * np.linalg.norm(np.cross(v0, fc - self.cc), axis=1)
                    c[:, j] = t
            self.ecouple_el = c
            self.couple = np.zeros(ne)
            np.add.at(self.couple, self.inv, c)
            f = 0.25 if dim == 2 else 1.0 / 6.0
            self.envol_el = f * c * self.length[self.inv]
            self.evol = np.zeros(ne)
            np.add.at(self.evol, self.inv, self.envol_el)
        self.nvol = np.zeros(len(pos))
        np.add.at(self.nvol, self.edges[:, 0], self.evol)
        np.add.at(self.nvol, self.edges[:, 1], self.evol)

    def element_of(self, nodes):
        if not hasattr(self, "_eo"):
            self._eo = {tuple(sorted(e)): i for i, e in enumerate(self.el.tolist())}
        return self._eo[tuple(sorted(nodes))]

    def face_area(self, faces, n):
        """area of every node's share of faces (each counted once)"""
        out = np.zeros(n)
        faces = np.unique(np.sort(np.asarray(faces), axis=1), axis=0)
        if self.dim == 1:
            out[faces[:, 0]] = 1.0
        elif self.dim == 2:
            L = simplex_measure(self.pos, faces)
            np.add.at(out, faces[:, 0], 0.5 * L)
            np.add.at(out, faces[:, 1], 0.5 * L)
        else:
            cc, _ = circumcenters(self.pos, faces)
            for a, b in ((0, 1), (0, 2), (1, 2)):
                pa, pb = self.pos[faces[:, a]], self.pos[faces[:, b]]
                t = 0.25 * np.linalg.norm(np.cross(pa - pb, pa - cc), axis=1)
                np.add.at(out, faces[:, a], t)
                np.add.at(out, faces[:, b], t)
        return out

    # ---- bodies of revolution (2D)
    def cyl(self, axis, r0):
        """cylindrical edge couple, node volume of node 0 and 1 per element edge (pairs order, node 0 = pairs[j][0])"""
        ai = 0 if axis == "x" else 1
        zi = 1 - ai
        c = np.empty(self.inv.shape)
        v0, v1 = np.empty(self.inv.shape), np.empty(self.inv.shape)
        rc, zc = self.cc[:, ai] - r0, self.cc[:, zi]
        for j, (a, b) in enumerate(self.pairs):
            pa, pb = self.pos[self.el[:, a]], self.pos[self.el[:, b]]
            m = 0.5 * (pa + pb)
            rm, zm = m[:, ai] - r0, m[:, zi]
            d = np.hypot(rc - rm, zc - zm)
            c[:, j] = np.abs(np.pi * (rc + rm) * d)          # frustum between edge middle and centre
            for v, p in ((v0, pa), (v1, pb)):                # Pappus: 2 pi * centroid radius * area
                r, z = p[:, ai] - r0, p[:, zi]
                area = 0.5 * np.abs((rc - r) * (zm - z) - (rm - r) * (zc - z))
                v[:, j] = 2 * np.pi * np.abs((r + rc + rm) / 3.0) * area
        return c, v0, v1
