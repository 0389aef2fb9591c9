"""C18: meshes made of lines, in one and two dimensions, against the lines, spacings, boxes and tags which describe them."""
import math
import os
import random
import numpy as np
import devsim as ds
from vlib import sim, native
from vlib.worker import Skip

PLAN = ["line", "line", "plane", "plane", "plane", "badline", "badplane"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan", PLAN)
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


class Unclear(Exception):
    """the number of points depends on rounding"""


# ---------------------------------------------------------------- lines
def graded(a, b, sa, sb):
    """steps from line a to line b: sa at a, geometric, with the last step no larger than sb; one step if the two do not fit"""
    if abs(sa - sb) <= 1e-12 * sb:
        n = (b - a) / sa
        if n > 3000:
            raise Unclear()
        k = math.floor(n)
        rest = n - k
        if 2e-4 < rest < 5e-3:
            raise Unclear()
        if rest >= 5e-3:
            k += 1
        return [a + i * sa for i in range(max(k, 1))] + [b]
    if abs(sa - sb) < 1e-6 * sb:
        raise Unclear()
    L = b - a
    if abs(sa + sb - L) < 1e-9 * max(abs(a), abs(b), L):
        raise Unclear()
    if sa + sb > L:
        return [a, b]
    r = (L - sa) / (L - sb)
    out, step = [a], sa
    while True:
        if len(out) > 3000:
            raise Unclear()
        x = out[-1] + step
        m = min(step, sb)
        left = (b - x) / m
        if -1e-6 * len(out) < left < 5e-3:
            # it could be merged with the end or not
            if left < 2e-4:
                x = b
            else:
                raise Unclear()
        if x >= b:
            t = b - sb
            gap = (t - out[-1]) / sb
            if 2e-4 < gap < 5e-3:
                raise Unclear()
            if gap > 2e-4:
                out.append(t)
            out.append(b)
            return out
        out.append(x)
        step *= r


class Axis:
    """lines of one direction: position, spacing after, spacing before"""

    def __init__(self, rng, rs, parts, few, scale=None):
        scale = scale or 10.0 ** rng.choice([-9, -7, -6, -5, -4, -3, -2, -1, 0, 0, 0, 1, 2, 3, 5, 7])
        start = rng.choice([0.0, 0.0, 0.0, scale, -scale, 30 * scale * rs.rand(), -1000 * scale * rs.rand()])
        style = rng.choice(["same", "graded", "graded", "graded", "coarse", "round"])
        limit = 36 if parts < 10 else 400
        while True:
            w = (0.2 + rs.rand(parts)) * scale
            if style == "round":
                w = np.maximum(np.round(w / scale * 4), 1) / 4 * scale
            x = start + np.concatenate([[0.0], np.cumsum(w)])
            ps, ns, given = [], [], []
            for i in range(parts + 1):
                near = w[max(i - 1, 0):i + 1].min()
                f = {"same": 0.02, "graded": 0.005, "coarse": 0.2, "round": 0.05}[style] * (8 if few else 1)
                p = near * min(f * 10 ** rs.rand(), 2.0)
                if style == "round":
                    p = near / rng.choice([1, 2, 3, 4, 5, 7, 8, 10])
                q = p if rng.random() < 0.5 else near * min(f * 10 ** rs.rand(), 3.0)
                if style == "same":
                    p = q = w.min() * 0.1
                ps.append(float(p))
                ns.append(float(q))
                given.append(q != p or rng.random() < 0.3)
            self.x, self.ps, self.ns, self.given = [float(v) for v in x], ps, ns, given
            try:
                self.points, self.where = [self.x[0]], [0]
                for i in range(parts):
                    self.points += graded(self.x[i], self.x[i + 1], ps[i], ns[i + 1])[1:]
                    self.where.append(len(self.points) - 1)
            except Unclear:
                limit += 1
                if limit > 2000:
                    raise Skip()
                continue
            if len(self.points) <= (limit if few else 1500):
                break
            limit += 2
        self.scale = scale
        self.style = style

    def line(self, i):
        a = dict(pos=self.x[i], ps=self.ps[i])
        if self.given[i]:
            a["ns"] = self.ns[i]
        return a

    def same(self, ctx, got, what):
        """the points are where the lines and spacings put them"""
        got = [float(v) for v in got]
        d = np.diff(got)
        ctx.check(bool((d > 0).all()), "order", "%s: points are not in order: %s" % (what, d[d <= 0][:3]))
        missing = [p for p in self.x if p not in got]
        ctx.check(not missing, "lines", "%s: no points at the lines %s" % (what, missing[:3]))
        if missing or not (d > 0).all():
            raise Skip()
        at = [got.index(p) for p in self.x]
        ctx.check((at[0], at[-1]) == (0, len(got) - 1), "ends", "%s: points beyond the first and last line" % what)
        for i in range(len(self.x) - 1):
            e = np.diff(got[at[i]:at[i + 1] + 1])
            sa, sb, L = self.ps[i], self.ns[i + 1], self.x[i + 1] - self.x[i]
            n = len(e)
            t = "%s: lines at %r and %r, spacings %r and %r" % (what, self.x[i], self.x[i + 1], sa, sb)
            small = 1e-12 * max(abs(self.x[i]), abs(self.x[i + 1])) * (1 + n)
            if sa + sb <= L * (1 - 1e-9) or abs(sa - sb) < 1e-11 * sb:
                ctx.check(e[0] <= sa * 1.002 + small, "first", "%s: the first step is %r" % (t, e[0]))
                ctx.check(e[-1] <= sb * 1.002 + small, "last", "%s: the last step is %r" % (t, e[-1]))
                ctx.check(bool((e <= max(sa, sb) * 1.002 + small).all()), "largest", "%s: a step of %r" % (t, e.max()))
                ctx.check(bool((e[:-2] >= min(sa, sb) * 0.999 - small).all()), "smallest", "%s: a step of %r" % (t, e[:-2].min() if n > 2 else None))
                ctx.check(bool((e >= 9e-4 * min(sa, sb) - small).all()), "sliver", "%s: a step of %r" % (t, e.min()))
                q = np.diff(e[:-2])
                ctx.check(bool((q >= -small).all() or (q <= small).all()), "monotonic", "%s: steps go up and down" % t)
            else:
                ctx.check(n == 1, "coarse", "%s: %d steps though the spacings do not fit" % (t, n))
            ctx.count("spans")
        want = self.points
        ctx.check(len(want) == len(got), "number", "%s: %d points where %d are described (lines %s ps %s ns %s)" % (what, len(got), len(want), self.x, self.ps, self.ns))
        if len(want) == len(got):
            step = np.diff(want)
            tol = 1e-6 * np.minimum(np.concatenate([[step[0]], step]), np.concatenate([step, [step[-1]]])) + 1e-12 * np.abs(want)
            off = np.abs(np.array(want) - np.array(got)) - tol
            ctx.check(bool((off <= 0).all()), "position", "%s: a point %r and not %r (lines %s ps %s ns %s)" % (what, got[int(off.argmax())], want[int(off.argmax())], self.x, self.ps, self.ns))


# ---------------------------------------------------------------- the device
def structure(ctx, dev):
    path = os.path.join(ctx.scratch, "structure.msh")
    ds.write_devices(file=path, type="devsim_data", device=dev)
    return native.structure(path, dev)


def lists(ctx, dev, regions, contacts, interfaces, what):
    for f, k, want in ((ds.get_region_list, "regions", regions), (ds.get_contact_list, "contacts", contacts), (ds.get_interface_list, "interfaces", interfaces)):
        got = sorted(f(device=dev))
        ctx.check(got == sorted(want), "lists", "%s: %s %s, described %s" % (what, k, got, sorted(want)))
    if ctx.nviol:
        raise Skip()


def run_commands(commands):
    for name, a in commands:
        try:
            getattr(ds, name)(**a)
        except ds.error as e:
            return name, str(e)
    return None


class Line:
    """a one dimensional description"""

    def __init__(self, rng, rs):
        self.rng = rng
        n = rng.choice([1, 1, 2, 3, 4]) if rng.random() < 0.95 else rng.randint(17, 40)
        sub = [rng.choice([1, 1, 2, 3]) if n < 10 else 1 for _ in range(n)]
        self.axis = Axis(rng, rs, sum(sub), n >= 10)
        self.ends = [0] + list(np.cumsum(sub))
        self.tags = {}
        for i in range(sum(sub) + 1):
            if i in self.ends or rng.random() < 0.4:
                self.tags[i] = rng.choice(["t", "mid ", "été", "T"]) + str(i)
        self.regions = [("r%d" % i, rng.choice(["Si", "Ox", "Ge"]), self.ends[i], self.ends[i + 1]) for i in range(n)]
        rng.shuffle(self.regions)
        self.contacts = [("left", "metal", 0), ("right", "gold", self.ends[-1])]
        if rng.random() < 0.5:
            self.contacts.reverse()
        self.interfaces = [("i%d" % i, self.ends[i]) for i in range(1, n)]
        rng.shuffle(self.interfaces)

    def commands(self, mesh="m", dev="d"):
        rng = self.rng
        lines = []
        for i in range(len(self.axis.x)):
            a = dict(mesh=mesh, **self.axis.line(i))
            if i in self.tags:
                a["tag"] = self.tags[i]
            lines.append(("add_1d_mesh_line", a))
        rest = []
        for r, m, a, b in self.regions:
            if rng.random() < 0.3:
                a, b = b, a
            rest.append(("add_1d_region", dict(mesh=mesh, region=r, material=m, tag1=self.tags[a], tag2=self.tags[b])))
        for c, m, a in self.contacts:
            rest.append(("add_1d_contact", dict(mesh=mesh, name=c, material=m, tag=self.tags[a])))
        for i, a in self.interfaces:
            rest.append(("add_1d_interface", dict(mesh=mesh, name=i, tag=self.tags[a])))
        mixed = lines + rest
        rng.shuffle(mixed)
        return [("create_1d_mesh", dict(mesh=mesh))] + mixed + [("finalize_mesh", dict(mesh=mesh)), ("create_device", dict(mesh=mesh, device=dev))]

    def compare(self, ctx, dev, what):
        lists(ctx, dev, [r[0] for r in self.regions], [c[0] for c in self.contacts], [i[0] for i in self.interfaces], what)
        ctx.check(ds.get_dimension(device=dev) == 1, "dimension", what)
        x, all_x = {}, []
        for r, m, a, b in sorted(self.regions, key=lambda t: t[2]):
            ctx.check(ds.get_material(device=dev, region=r) == m, "material", "%s: %s" % (what, r))
            p = sim.nodes_of(dev, r)
            ctx.check(bool((p[:, 1:] == 0).all()), "flat", what)
            x[r] = p[:, 0]
            ctx.check(x[r].min() == self.axis.x[a] and x[r].max() == self.axis.x[b], "extent", "%s: region %s from %r to %r, described from %r to %r" % (what, r, x[r].min(), x[r].max(), self.axis.x[a], self.axis.x[b]))
            order = np.argsort(x[r], kind="stable")
            e = sorted(tuple(sorted(t)) for t in sim.edges_of(dev, r).tolist())
            ctx.check(e == sorted(tuple(sorted((int(u), int(v)))) for u, v in zip(order, order[1:])), "edges", "%s: edges of %s do not join neighbours" % (what, r))
            el = sorted(tuple(sorted(t)) for t in ds.get_element_node_list(device=dev, region=r))
            ctx.check(el == e, "elements", "%s: elements of %s" % (what, r))
            all_x += list(np.sort(x[r])[(1 if all_x else 0):])
        self.axis.same(ctx, all_x, what)
        s = structure(ctx, dev)
        end = {0: min(self.regions, key=lambda t: t[2])[0], self.ends[-1]: max(self.regions, key=lambda t: t[3])[0]}
        for c, m, a in self.contacts:
            h = s["contacts"][c]
            ctx.check((h["region"], h["material"]) == (end[a], m), "contact", "%s: contact %s on %s of %s" % (what, c, h["region"], h["material"]))
            got = [x[end[a]][i] for i, in h["nodes"]] if len(h["nodes"]) else []
            ctx.check(got == [self.axis.x[a]], "contact_nodes", "%s: contact %s at %s, described at %r" % (what, c, got, self.axis.x[a]))
            ctx.count("contacts")
        left = {t[3]: t[0] for t in self.regions}
        right = {t[2]: t[0] for t in self.regions}
        for i, a in self.interfaces:
            h = s["interfaces"][i]
            ctx.check((h["region0"], h["region1"]) == (left[a], right[a]), "interface", "%s: interface %s between %s and %s" % (what, i, h["region0"], h["region1"]))
            got = [(x[left[a]][p], x[right[a]][q]) for p, q in h["nodes"]]
            ctx.check(got == [(self.axis.x[a],) * 2], "interface_nodes", "%s: interface %s at %s, described at %r" % (what, i, got, self.axis.x[a]))
            ctx.count("interfaces")
        ctx.count("devices_1d")


class Plane:
    """a two dimensional description"""

    def __init__(self, rng, rs):
        self.rng = rng
        self.ax = [Axis(rng, rs, rng.choice([1, 2, 2, 3, 4]), True)]
        self.ax.append(Axis(rng, rs, rng.choice([1, 2, 2, 3, 4]), True, self.ax[0].scale * 10.0 ** rng.choice([0, 0, 0, 1, -1, 2, -2])))
        small = min(np.diff(a.points).min() for a in self.ax)
        self.bloat = 1e-10 if small > 1e-6 else small * 1e-4
        self.boxes = []      # region, material, box
        n = rng.choice([1, 2, 2, 3, 4])
        names = ["air", "bulk", "ox", "Poly Si", "r4"][:n]
        every = dict() if rng.random() < 0.5 else dict(zip(("xl", "xh", "yl", "yh"), (self.ax[0].x[0], self.ax[0].x[-1], self.ax[1].x[0], self.ax[1].x[-1])))
        self.free = False
        for k, r in enumerate(names):
            m = rng.choice(["Si", "Ox", "metal"])
            if k == 0 and rng.random() < 0.85:
                self.boxes.append((r, m, every))
            else:
                self.boxes.append((r, m, self.box(rs)))
                if rng.random() < 0.25:
                    self.boxes.append((r, m, self.box(rs)))
        if rng.random() < 0.2 and n > 1:
            # one more box for the first region: it stays the first
            self.boxes.append((names[0], self.boxes[0][1], self.box(rs)))
        self.names = []
        for r, m, b in self.boxes:
            if r not in self.names:
                self.names.append(r)
        self.contacts = []   # name, material, region, box
        for k in range(rng.choice([0, 1, 2, 3])):
            r = rng.choice(self.names)
            self.contacts.append(("c%d" % k, rng.choice(["metal", "gold"]), r, self.place(rs)))
            if rng.random() < 0.3:
                self.contacts.append(self.contacts[-1][:3] + (self.place(rs),))
        self.interfaces = []
        if n > 1:
            for k in range(rng.choice([0, 1, 2, 3])):
                a, b = rng.sample(self.names, 2)
                self.interfaces.append(("i%d" % k, a, b, {} if rng.random() < 0.6 else self.place(rs)))
                if rng.random() < 0.3:
                    self.interfaces.append(self.interfaces[-1][:3] + (self.place(rs),))
        rng.shuffle(self.interfaces)
        rng.shuffle(self.contacts)

    def side(self, rs, ax, lo):
        """ends of a box: on lines, mostly"""
        if self.rng.random() < 0.75:
            i, j = sorted(self.rng.sample(range(len(ax.x)), 2))
            return ax.x[i], ax.x[j]
        self.free = True
        u, v = sorted(ax.x[0] + (ax.x[-1] - ax.x[0]) * (rs.rand(2) * 1.2 - 0.1))
        return float(u), float(v)

    def box(self, rs):
        b = {}
        for k, ax in zip("xy", self.ax):
            lo, hi = self.side(rs, ax, True)
            if self.rng.random() < 0.9:
                b[k + "l"] = lo
            if self.rng.random() < 0.9:
                b[k + "h"] = hi
            if self.rng.random() < 0.1 and len([q for q in b if q[0] == k]) == 2:
                b[k + "l"], b[k + "h"] = b[k + "h"], b[k + "l"]
        return b

    def place(self, rs):
        """a box for a contact or an interface: an area, a side or a corner"""
        b = self.box(rs)
        for k, ax in zip("xy", self.ax):
            if self.rng.random() < 0.3:
                b[k + "l"] = b[k + "h"] = self.rng.choice(ax.x)
        return b

    def with_bloat(self, b):
        b = dict(b)
        if self.bloat != 1e-10 or self.rng.random() < 0.2:
            b["bloat"] = self.bloat
        return b

    def commands(self, mesh="m", dev="d"):
        rng = self.rng
        lines = []
        for k, ax in zip("xy", self.ax):
            for i in range(len(ax.x)):
                lines.append(("add_2d_mesh_line", dict(mesh=mesh, dir=k, **ax.line(i))))
                if rng.random() < 0.1:
                    lines.append(lines[-1])
        regs = [("add_2d_region", dict(mesh=mesh, region=r, material=m, **self.with_bloat(b))) for r, m, b in self.boxes]
        cons = [("add_2d_contact", dict(mesh=mesh, name=c, material=m, region=r, **self.with_bloat(b))) for c, m, r, b in self.contacts]
        ints = [("add_2d_interface", dict(mesh=mesh, name=i, region0=a, region1=b, **self.with_bloat(x))) for i, a, b, x in self.interfaces]
        rng.shuffle(lines)
        seqs = [lines, regs, cons, ints]
        seqs = [list(s) for s in seqs]
        mixed = []
        while any(seqs):
            s = rng.choice([q for q in seqs if q])
            mixed.append(s.pop(0))
        return [("create_2d_mesh", dict(mesh=mesh))] + mixed + [("finalize_mesh", dict(mesh=mesh)), ("create_device", dict(mesh=mesh, device=dev))]

    def inside(self, b, x, y):
        t = self.bloat
        big = np.finfo(float).max
        xl, xh = sorted((b.get("xl", -big), b.get("xh", big)))
        yl, yh = sorted((b.get("yl", -big), b.get("yh", big)))
        return (x > xl - t) & (x < xh + t) & (y > yl - t) & (y < yh + t)

    def margin(self, b, cx, cy):
        """how far the centroids are from the sides, as a part of the elements"""
        m = 1.0
        for k, c, ax in (("x", cx, self.ax[0]), ("y", cy, self.ax[1])):
            d = np.diff(ax.points).min()
            for e in "lh":
                if k + e in b:
                    m = min(m, np.abs(c - b[k + e]).min() / d)
        return m

    def expected(self):
        """triangles by index in the grid of each region, and what is at contacts and interfaces"""
        px, py = (np.array(a.points) for a in self.ax)
        nx, ny = len(px), len(py)
        tri = []
        for i in range(nx - 1):
            for j in range(ny - 1):
                ul, ur, ll, lr = i * ny + j, (i + 1) * ny + j, i * ny + j + 1, (i + 1) * ny + j + 1
                tri += [(ul, ur, ll), (ur, lr, ll)]
        tri = np.array(tri)
        gx, gy = np.repeat(px, ny), np.tile(py, nx)
        cx, cy = gx[tri].mean(axis=1), gy[tri].mean(axis=1)
        owner = np.full(len(tri), -1)
        for k, r in enumerate(self.names):
            hit = np.zeros(len(tri), dtype=bool)
            for q, m, b in self.boxes:
                if q == r:
                    if self.margin(b, cx, cy) < 1e-3:
                        raise Skip()
                    hit |= self.inside(b, cx, cy)
            owner[hit] = k
        regions = {}
        for k, r in enumerate(self.names):
            if (owner == k).any():
                regions[r] = tri[owner == k]
        return gx, gy, tri, regions

    def compare(self, ctx, dev, what):
        gx, gy, tri, regions = self.expected()
        px, py = (np.array(a.points) for a in self.ax)
        ny = len(py)
        materials = {}
        for r, m, b in self.boxes:
            materials.setdefault(r, m)
        got_r = sorted(ds.get_region_list(device=dev))
        ctx.check(got_r == sorted(regions), "lists", "%s: regions %s, described %s" % (what, got_r, sorted(regions)))
        ctx.check(ds.get_dimension(device=dev) == 2, "dimension", what)
        if ctx.nviol:
            raise Skip()
        at, exact = {}, {}
        seen = [dict(), dict()]
        for r, el in regions.items():
            ctx.check(ds.get_material(device=dev, region=r) == materials[r], "material", "%s: %s" % (what, r))
            p = sim.nodes_of(dev, r)
            ctx.check(bool((p[:, 2] == 0).all()), "flat", what)
            idx = []
            for k, grid in ((0, px), (1, py)):
                i = np.clip(np.searchsorted(grid, p[:, k]), 1, len(grid) - 1)
                i = np.where(np.abs(grid[i - 1] - p[:, k]) < np.abs(grid[i] - p[:, k]), i - 1, i)
                idx.append(i)
                for a, b in zip(i.tolist(), p[:, k].tolist()):
                    o = seen[k].setdefault(a, b)
                    ctx.check(o == b, "straight", "%s: %s of nodes on one line are %r and %r" % (what, "xy"[k], o, b))
                    if ctx.nviol:
                        raise Skip()
            node = (idx[0] * ny + idx[1]).tolist()
            want = set(np.unique(el).tolist())
            ctx.check(len(node) == len(set(node)) and set(node) == want, "nodes", "%s: region %s: %d nodes, %d distinct, %d described" % (what, r, len(node), len(set(node)), len(want)))
            if ctx.nviol:
                raise Skip()
            at[r] = node
            for g, row in zip(node, p.tolist()):
                exact[g] = row
            have = sorted(tuple(sorted(node[i] for i in e)) for e in ds.get_element_node_list(device=dev, region=r))
            ctx.check(have == sorted(tuple(sorted(t)) for t in el.tolist()), "elements", "%s: region %s: %d triangles, %d described" % (what, r, len(have), len(el)))
            ee = {tuple(sorted((t[a], t[b]))) for t in el.tolist() for a, b in ((0, 1), (1, 2), (0, 2))}
            he = sorted(tuple(sorted((node[a], node[b]))) for a, b in sim.edges_of(dev, r).tolist())
            ctx.check(he == sorted(ee), "edges", "%s: region %s: %d edges, %d described" % (what, r, len(he), len(ee)))
            # the nodes' shares of the area make up the boxes
            area = float(np.sum((px[el // ny].max(axis=1) - px[el // ny].min(axis=1)) * (py[el % ny].max(axis=1) - py[el % ny].min(axis=1))) / 2)
            vol = float(np.sum(sim.nv(dev, r, "NodeVolume")))
            ctx.check(abs(vol - area) <= 1e-6 * area, "area", "%s: nodes of %s cover %r, the boxes %r" % (what, r, vol, area))
            ctx.count("regions_2d")
        for k in (0, 1):
            if len(seen[k]) == len(self.ax[k].points):
                self.ax[k].same(ctx, [seen[k][i] for i in sorted(seen[k])], "%s, %s" % (what, "xy"[k]))
        # contacts and interfaces: first come, first served at nodes where regions meet
        order_c, order_i = [], []
        for c in self.contacts:
            c[0] in order_c or order_c.append(c[0])
        for c in self.interfaces:
            c[0] in order_i or order_i.append(c[0])
        count, where = {}, {r: set(n) for r, n in at.items()}
        for r, n in where.items():
            for g in n:
                count[g] = count.get(g, 0) + 1
        at_c, at_i = {c: set() for c in order_c}, {c: set() for c in order_i}
        first_c = {n: (m, r) for n, m, r, b in reversed(self.contacts)}
        first_i = {n: (a, b) for n, a, b, x in reversed(self.interfaces)}
        for g, n in count.items():
            if n < 2:
                continue
            x, y = exact[g][0], exact[g][1]
            for c in order_c:
                if g in where.get(first_c[c][1], ()) and any(self.inside(b, x, y) for n2, m, r, b in self.contacts if n2 == c):
                    at_c[c].add(g)
                    break
            else:
                for i in order_i:
                    a, b = first_i[i]
                    if g in where.get(a, ()) and g in where.get(b, ()) and any(self.inside(q, x, y) for n2, _, _, q in self.interfaces if n2 == i):
                        at_i[i].add(g)
                        break
        s = structure(ctx, dev)
        ctx.check({c for c in s["contacts"] if len(s["contacts"][c]["nodes"])} == {c for c in at_c if at_c[c]}, "contact_list", "%s: contacts %s, described %s" % (what, sorted(s["contacts"]), sorted(c for c in at_c if at_c[c])))
        ctx.check({c for c in s["interfaces"] if len(s["interfaces"][c]["nodes"])} == {c for c in at_i if at_i[c]}, "interface_list", "%s: interfaces %s, described %s" % (what, sorted(s["interfaces"]), sorted(c for c in at_i if at_i[c])))
        if ctx.nviol:
            raise Skip()
        for c, nodes in at_c.items():
            if nodes:
                h = s["contacts"][c]
                m, r = first_c[c]
                ctx.check((h["region"], h["material"]) == (r, m), "contact", "%s: contact %s on %s of %s, described %s of %s" % (what, c, h["region"], h["material"], r, m))
                got = [at[r][i] for i, in h["nodes"]]
                ctx.check(sorted(got) == sorted(nodes), "contact_nodes", "%s: contact %s has %d nodes, %d described" % (what, c, len(got), len(nodes)))
                ctx.count("contacts")
        for i, nodes in at_i.items():
            if nodes:
                h = s["interfaces"][i]
                a, b = first_i[i]
                ctx.check((h["region0"], h["region1"]) == (a, b), "interface", "%s: interface %s" % (what, i))
                pairs = [(at[a][p], at[b][q]) for p, q in h["nodes"]]
                ctx.check(all(p == q for p, q in pairs), "interface_pairs", "%s: interface %s pairs nodes at different places" % (what, i))
                ctx.check(sorted(p for p, q in pairs) == sorted(nodes), "interface_nodes", "%s: interface %s has %d nodes, %d described" % (what, i, len(pairs), len(nodes)))
                ctx.count("interfaces")
        ctx.count("devices_2d")


# ---------------------------------------------------------------- what is not a description of a mesh
def drop(cmds, name, k=None, where=None):
    hits = [i for i, (n, a) in enumerate(cmds) if n == name and (where is None or where(a))]
    return hits


def break_line(d, cmds, rng):
    """(label, commands, commands which correct it in place or None)"""
    def at(name, where=None):
        return [i for i, (n, a) in enumerate(cmds) if n == name and (where is None or where(a))]

    fin = at("finalize_mesh")[0]

    def insert(c):
        return cmds[:fin] + [c] + cmds[fin:]

    def without(i):
        return cmds[:i] + cmds[i + 1:]

    def change(i, **k):
        a = dict(cmds[i][1])
        for q, v in k.items():
            if v is None:
                a.pop(q)
            else:
                a[q] = v
        return cmds[:i] + [(cmds[i][0], a)] + cmds[i + 1:]
    lines, regs, cons, ints = (at("add_1d_" + k) for k in ("mesh_line", "region", "contact", "interface"))
    line, reg, con = rng.choice(lines), rng.choice(regs), rng.choice(cons)
    tagged = [i for i in lines if "tag" in cmds[i][1]]
    kinds = ["no_contact", "three_contacts", "same_end", "no_region", "no_lines", "one_line", "unknown_tag_region", "unknown_tag_contact", "unknown_tag_interface", "same_position", "same_tag", "empty_region",
             "twice_region", "twice_contact", "interface_at_end", "wrong_dim_line", "wrong_dim_region", "wrong_dim_contact", "wrong_dim_interface", "bad_ps", "no_ps", "no_mesh", "same_mesh", "not_finalized", "finalized_twice",
             "line_after", "no_tag_region", "bad_number", "pos_inf", "pos_nan", "ps_nan", "unknown_option", "tiny_spacing", "empty_name"]
    if ints:
        kinds += ["no_interface", "twice_interface", "gap", "overlap", "two_at_tag"] * 2
    inner = [i for i in d.tags if i not in d.ends]
    if inner:
        kinds += ["interface_inside", "contact_inside"] * 2
    kind = rng.choice(kinds)
    fix = None
    m = "m"
    if kind == "no_contact":
        out, fix = without(con), [cmds[con]]
    elif kind == "three_contacts":
        out = insert(("add_1d_contact", dict(mesh=m, name="third", material="metal", tag=rng.choice(list(d.tags.values())))))
    elif kind == "same_end":
        out = change(cons[0], tag=cmds[cons[1]][1]["tag"])
    elif kind == "no_region":
        out = [c for c in cmds if c[0] != "add_1d_region"]
        fix = [c for c in cmds if c[0] == "add_1d_region"]
    elif kind == "no_lines":
        out = [c for c in cmds if c[0] != "add_1d_mesh_line"]
        fix = [c for c in cmds if c[0] == "add_1d_mesh_line"]
    elif kind == "one_line":
        out = [c for i, c in enumerate(cmds) if i not in lines or i == line]
        fix = [cmds[i] for i in lines if i != line]
    elif kind.startswith("unknown_tag"):
        name = kind.split("_")[-1]
        if name == "region":
            out = change(reg, **{rng.choice(["tag1", "tag2"]): "nowhere"})
        elif name == "contact":
            out = change(con, tag="nowhere")
        else:
            out = insert(("add_1d_interface", dict(mesh=m, name="new", tag="nowhere")))
        if rng.random() < 0.5 and name != "region" and name != "contact":
            out = out
    elif kind == "same_position":
        out = insert(("add_1d_mesh_line", dict(mesh=m, pos=cmds[line][1]["pos"], ps=cmds[line][1]["ps"])))
    elif kind == "same_tag":
        a, b = rng.sample(tagged, 2)
        out = change(a, tag=cmds[b][1]["tag"])
    elif kind == "empty_region":
        out = change(reg, tag2=cmds[reg][1]["tag1"])
    elif kind == "twice_region":
        out = insert(cmds[reg])
    elif kind == "twice_contact":
        out = change(cons[0], name=cmds[cons[1]][1]["name"])
    elif kind == "interface_at_end":
        out = insert(("add_1d_interface", dict(mesh=m, name="new", tag=cmds[con][1]["tag"])))
    elif kind.startswith("wrong_dim"):
        w = kind.split("_")[-1]
        extra = {"line": ("add_2d_mesh_line", dict(mesh=m, dir="x", pos=0.5, ps=0.1)), "region": ("add_2d_region", dict(mesh=m, region="q", material="Si")),
                 "contact": ("add_2d_contact", dict(mesh=m, name="q", region="r0", material="metal")), "interface": ("add_2d_interface", dict(mesh=m, name="q", region0="a", region1="b"))}[w]
        out = insert(extra)
        fix = []
    elif kind == "bad_ps":
        out, fix = change(line, ps=rng.choice([0.0, -1.0, -1e-300])), [cmds[line]]
    elif kind == "no_ps":
        out, fix = change(line, ps=None), [cmds[line]]
    elif kind == "no_mesh":
        out = cmds[1:]
    elif kind == "same_mesh":
        out, fix = insert(cmds[0]), []
    elif kind == "not_finalized":
        out, fix = without(fin), []
    elif kind == "finalized_twice":
        out, fix = insert(cmds[fin]), "create"
    elif kind == "line_after":
        out, fix = cmds[:fin + 1] + [cmds[line]] + cmds[fin + 1:], "create"
    elif kind == "no_tag_region":
        out, fix = change(reg, tag1=None), [cmds[reg]]
    elif kind == "bad_number":
        out, fix = change(line, pos=rng.choice(["x", "", "1..2"])), [cmds[line]]
    elif kind == "pos_inf":
        out = change(line, pos=rng.choice([float("inf"), -float("inf")]))
    elif kind == "pos_nan":
        out = change(line, pos=float("nan"))
    elif kind == "ps_nan":
        i = max(lines, key=lambda i: cmds[i][1]["pos"])
        j = rng.choice([k for k in lines if k != i])
        out = change(j, ps=float("nan"))
    elif kind == "unknown_option":
        out, fix = change(reg, colour="red"), [cmds[reg]]
    elif kind == "tiny_spacing":
        far = max((abs(cmds[i][1]["pos"]), i) for i in lines)
        out = change(far[1], ps=far[0] * 1e-18 or 1.0, ns=far[0] * 1e-18 or 1.0)
        near = sorted(lines, key=lambda i: cmds[i][1]["pos"])
        k = near.index(far[1])
        out2 = list(out)
        o = near[k - 1] if k else near[k + 1]
        a = dict(out2[o][1])
        a["ps"] = a["ns"] = far[0] * 1e-18 or 1.0
        out2[o] = (out2[o][0], a)
        out = out2
        if far[0] < 10 * abs(cmds[o][1]["pos"] - cmds[far[1]][1]["pos"]) or abs(cmds[o][1]["pos"]) < 0.1 * far[0]:
            # near zero such a spacing would be met, by far too many points
            raise Skip()
    elif kind == "empty_name":
        i = rng.choice(regs + cons + ints)
        out, fix = change(i, **{("region" if i in regs else "name"): ""}), [cmds[i]]
    elif kind == "no_interface":
        i = rng.choice(ints)
        out, fix = without(i), [cmds[i]]
    elif kind == "twice_interface":
        if len(ints) < 2:
            raise Skip()
        a, b = rng.sample(ints, 2)
        out = change(a, name=cmds[b][1]["name"])
    elif kind == "two_at_tag":
        out = insert(("add_1d_interface", dict(mesh=m, name="again", tag=cmds[rng.choice(ints)][1]["tag"])))
    elif kind == "gap":
        i = rng.choice(regs)
        out, fix = without(i), [cmds[i]]
    elif kind == "overlap":
        ends = [d.tags[i] for i in d.ends]
        i = rng.choice(regs)
        out = change(i, tag1=ends[0], tag2=ends[-1])
    elif kind == "interface_inside":
        out = insert(("add_1d_interface", dict(mesh=m, name="new", tag=d.tags[rng.choice(inner)])))
    elif kind == "contact_inside":
        out = change(con, tag=d.tags[rng.choice(inner)])
    return kind, out, fix


def break_plane(d, cmds, rng):
    def at(name, where=None):
        return [i for i, (n, a) in enumerate(cmds) if n == name and (where is None or where(a))]

    fin = at("finalize_mesh")[0]

    def insert(c):
        return cmds[:fin] + [c] + cmds[fin:]

    def change(i, **k):
        a = dict(cmds[i][1])
        for q, v in k.items():
            if v is None:
                a.pop(q)
            else:
                a[q] = v
        return cmds[:i] + [(cmds[i][0], a)] + cmds[i + 1:]
    lines, regs, cons, ints = (at("add_2d_" + k) for k in ("mesh_line", "region", "contact", "interface"))
    line, reg = rng.choice(lines), rng.choice(regs)
    m = "m"
    kind = rng.choice(["no_lines", "one_line", "unknown_contact", "unknown_interface", "wrong_dim", "bad_ps", "no_ps", "bad_dir", "no_mesh", "same_mesh", "not_finalized", "finalized_twice", "after", "same_region",
                       "pos_inf", "pos_nan", "spacing_nan", "bad_number", "unknown_option", "empty_name", "tiny_spacing"])
    fix = None
    if kind == "no_lines":
        k = rng.choice("xy")
        out = [c for c in cmds if c[1].get("dir") != k]
        fix = [c for c in cmds if c[1].get("dir") == k]
    elif kind == "one_line":
        k = rng.choice("xy")
        keep = rng.choice(at("add_2d_mesh_line", lambda a: a["dir"] == k))
        out = [c for i, c in enumerate(cmds) if c[1].get("dir") != k or c[1] == cmds[keep][1]]
        fix = [c for i, c in enumerate(cmds) if c[1].get("dir") == k and c[1] != cmds[keep][1]]
    elif kind == "unknown_contact":
        out = insert(("add_2d_contact", dict(mesh=m, name="q", material="metal", region="nowhere")))
    elif kind == "unknown_interface":
        p = [d.names[0], "nowhere"]
        rng.shuffle(p)
        out = insert(("add_2d_interface", dict(mesh=m, name="q", region0=p[0], region1=p[1])))
    elif kind == "wrong_dim":
        out, fix = insert(rng.choice([("add_1d_mesh_line", dict(mesh=m, pos=0.5, ps=0.1, tag="t")), ("add_1d_region", dict(mesh=m, region="q", material="Si", tag1="t", tag2="u")),
                                      ("add_1d_contact", dict(mesh=m, name="q", material="metal", tag="t")), ("add_1d_interface", dict(mesh=m, name="q", tag="t"))])), []
    elif kind == "bad_ps":
        out, fix = change(line, ps=rng.choice([0.0, -1.0])), [cmds[line]]
    elif kind == "no_ps":
        out, fix = change(line, ps=None), [cmds[line]]
    elif kind == "bad_dir":
        out, fix = change(line, dir=rng.choice(["z", "X", "", "xy"])), [cmds[line]]
    elif kind == "no_mesh":
        out = cmds[1:]
    elif kind == "same_mesh":
        out, fix = insert(cmds[0]), []
    elif kind == "not_finalized":
        out, fix = cmds[:fin] + cmds[fin + 1:], []
    elif kind == "finalized_twice":
        out, fix = insert(cmds[fin]), "create"
    elif kind == "after":
        out, fix = cmds[:fin + 1] + [cmds[rng.choice(lines + regs + cons + ints)]] + cmds[fin + 1:], "create"
    elif kind == "same_region":
        out, fix = insert(("add_2d_interface", dict(mesh=m, name="q", region0=d.names[0], region1=d.names[0]))), []
    elif kind == "pos_inf":
        out = insert(("add_2d_mesh_line", dict(mesh=m, dir=rng.choice("xy"), pos=rng.choice([1, -1]) * float("inf"), ps=1.0)))
    elif kind == "pos_nan":
        out = insert(("add_2d_mesh_line", dict(mesh=m, dir=rng.choice("xy"), pos=float("nan"), ps=1.0)))
    elif kind == "spacing_nan":
        k = rng.choice("xy")
        ax = d.ax["xy".index(k)]
        p = (ax.x[0] + ax.x[1]) / 2
        out = insert(("add_2d_mesh_line", dict(mesh=m, dir=k, pos=p, ps=float("nan"))))
    elif kind == "bad_number":
        out, fix = change(line, pos=rng.choice(["x", "", "1..2"])), [cmds[line]]
    elif kind == "unknown_option":
        out, fix = change(reg, colour="red"), [cmds[reg]]
    elif kind == "empty_name":
        i = rng.choice(regs + cons + ints)
        out, fix = change(i, **{("region" if i in regs else "name"): ""}), None
    elif kind == "tiny_spacing":
        k = rng.choice("xy")
        ax = d.ax["xy".index(k)]
        L = ax.x[-1] - ax.x[0]
        out = cmds[:fin] + [("add_2d_mesh_line", dict(mesh=m, dir=k, pos=ax.x[-1] + q * L, ps=L * 1e-20)) for q in (1.0, 2.0)] + cmds[fin:]
    return kind, out, fix


def state(ctx):
    path = os.path.join(ctx.scratch, "state.msh")
    ds.write_devices(file=path, type="devsim")
    with open(path, "rb") as f:
        return tuple(sorted(ds.get_device_list())), f.read()


def bystander():
    ds.create_1d_mesh(mesh="other")
    for p, t in ((0.0, "a"), (1.0, "b")):
        ds.add_1d_mesh_line(mesh="other", pos=p, ps=0.25, tag=t)
        ds.add_1d_contact(mesh="other", name=t, tag=t, material="metal")
    ds.add_1d_region(mesh="other", region="r0", material="Si", tag1="a", tag2="b")
    ds.finalize_mesh(mesh="other")
    ds.create_device(mesh="other", device="other")


def bad(ctx, d, rng, what, breaker):
    cmds = d.commands()
    kind, broken, fix = breaker(d, cmds, rng)
    label = "%s, %s" % (what, kind)
    bystander()
    before = state(ctx)
    failed = None
    done = []
    for name, a in broken:
        try:
            getattr(ds, name)(**a)
            done.append((name, a))
        except ds.error as e:
            failed = name
            ctx.check(str(e).strip() != "", "message", "%s: %s failed without a message" % (label, name))
            break
        except (TypeError, ValueError) as e:
            failed = name
            break
    ctx.check(failed is not None, "accepted", "%s was accepted" % label)
    if failed is None:
        raise Skip()
    ctx.count("refused")
    ctx.count("refused_at_" + failed)
    ctx.distinct("broken", (what.split("#")[0], kind, failed))
    ctx.check(state(ctx) == before, "left_behind", "%s: devices changed by what failed at %s: %s" % (label, failed, ds.get_device_list()))
    if fix is not None and rng.random() < 0.8:
        # corrected in place, with the rest of the commands
        if fix == "create":
            rest = [cmds[-1]]
        else:
            have = [c for c in done if c[0] not in ("finalize_mesh", "create_device")]
            rest = list(cmds)
            for c in have:
                if c in rest:
                    rest.remove(c)
        if failed == "finalize_mesh" or failed == "create_device":
            ctx.count("corrected_late")
        bad_cmd = run_commands(rest)
        if bad_cmd:
            ctx.violation("corrected", "%s: what was corrected failed at %s: %s" % (label, bad_cmd[0], bad_cmd[1][:300]))
            raise Skip()
        ctx.count("corrected")
        d.compare(ctx, "d", label + ", corrected")
    else:
        if "m" in ds.get_mesh_list():
            ds.delete_mesh(mesh="m")
        bad_cmd = run_commands(cmds)
        if bad_cmd:
            ctx.violation("rejected", "%s, made again: failed at %s: %s" % (label, bad_cmd[0], bad_cmd[1][:300]))
            raise Skip()
        d.compare(ctx, "d", label + ", made again")
    ctx.count("after")


def run_case(ctx, case):
    sim.reset()
    rng = ctx.rng
    rs = ctx.np()
    w = case["what"]
    d = Line(rng, rs) if w in ("line", "badline") else Plane(rng, rs)
    if w in ("plane", "badplane"):
        gx, gy, tri, regions = d.expected()
        if not regions or any(c[2] not in regions for c in d.contacts) or any(a not in regions or b not in regions for _, a, b, _ in d.interfaces):
            # a contact or interface on a region which has been covered completely
            raise Skip()
        # nodes where three regions meet cannot be told apart by get_equation..., and are as good as any other here
        ctx.distinct("kinds", (len(d.names), len(d.boxes), d.free, len(d.contacts), len(d.interfaces), d.ax[0].style, d.ax[1].style))
        if len(regions) > 1:
            ctx.count("several_regions")
        if len(d.names) < len(d.boxes):
            ctx.count("several_boxes")
    else:
        ctx.distinct("kinds", (len(d.regions), d.axis.style, d.axis.scale, len(d.tags)))
        ctx.count("scale_%g" % d.axis.scale)
        if len(d.regions) > 16:
            ctx.count("many_regions")
    if w in ("badline", "badplane"):
        bad(ctx, d, rng, case["id"], break_line if w == "badline" else break_plane)
        return
    f = run_commands(d.commands())
    if f:
        ctx.violation("rejected", "%s: failed at %s: %s" % (case["id"], f[0], f[1][:400]))
        return
    d.compare(ctx, "d", case["id"])
    if rng.random() < 0.2:
        # a second device from the same mesh, once the first has gone, and once the mesh has gone
        ds.create_device(mesh="m", device="e")
        ds.delete_device(device="d")
        if rng.random() < 0.5:
            ds.delete_mesh(mesh="m")
        d.compare(ctx, "e", case["id"] + ", second device")
        ctx.count("second_device")
    ctx.count("meshes")
