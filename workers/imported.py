"""C17: what becomes of meshes read from Gmsh files and from arrays, against the description they were made of."""
import os
import random
import numpy as np
import devsim as ds
from vlib import sim, native
from vlib.worker import Skip

PLAN = ["file", "file", "arrays", "badfile", "cut", "badarrays", "badmap", "noise", "badfile", "badfile"]
TYPE = {1: 15, 2: 1, 3: 2, 4: 4}
WORDS = ["gate", "Top", "bulk_2", "a:b", "x@y", "été", "Größe", "αβγ", "n1", "Nodes", "EndNodes", "e5", "long_" + "n" * 60]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan", PLAN)
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


# ---------------------------------------------------------------- descriptions
class Described:
    """groups: list of dicts name, number, dim, simplices (mesh indexes); maps: what regions, contacts and interfaces use"""

    def __init__(self, m, rng, kind):
        self.m, self.dim, self.kind = m, m.dim, kind
        self.groups, self.region_map, self.contact_map, self.interface_map = [], {}, {}, {}
        used = set()
        numbers = rng.sample(range(1, 4000), 60)

        def name(d):
            while True:
                n = rng.choice(WORDS) + (str(rng.randint(0, 99)) if rng.random() < 0.7 else "")
                if n not in used:
                    used.add(n)
                    return n

        def add(simplices, dups):
            """one part of the mesh as one group or more"""
            s = np.asarray(simplices)
            d = s.shape[1] - 1
            k = rng.choice([1, 1, 1, 2, 3]) if len(s) > 2 else 1
            out = []
            order = list(range(len(s)))
            rng.shuffle(order)
            for i in range(k):
                mine = [s[j].tolist() for j in order[i::k]]
                if dups and rng.random() < 0.3:
                    # listed twice, with its nodes in another order, here or in a second group
                    for e in rng.sample(mine, min(2, len(mine))):
                        e = list(e)
                        rng.shuffle(e)
                        mine.append(e)
                        self.repeated = True
                if dups and i and rng.random() < 0.3:
                    mine.append(s[order[0]].tolist())
                    self.repeated = True
                named = kind == "arrays" or rng.random() < 0.8
                g = {"dim": d, "simplices": mine, "number": numbers.pop(), "named": named}
                g["name"] = name(d) if named else str(g["number"])
                self.groups.append(g)
                out.append(g["name"])
            return out
        self.repeated = False
        for r, (mat, el) in m.regions.items():
            self.region_map[r] = (mat, add(el, True))
        for c, (r, f) in m.contacts.items():
            self.contact_map[c] = (r, rng.choice(["metal", "Au"]), add(f, True))
        for i, (a, b, f) in m.interfaces.items():
            if rng.random() < 0.3:
                a, b = b, a
            self.interface_map[i] = (a, b, add(f, True))
        # points are enough for a contact
        self.points = False
        if rng.random() < 0.25 and m.dim > 1 and m.contacts:
            c = rng.choice(list(m.contacts))
            r, f = m.contacts[c]
            ns = np.unique(f)
            self.contact_map["pts"] = (r, "metal", add(ns.reshape(-1, 1), False))
            self.points = True
        if rng.random() < 0.3:
            r = rng.choice(list(m.regions))
            s = m.regions[r][1]
            add(s[:rng.randint(1, len(s)), :rng.randint(1, s.shape[1])], True)
            self.unused = True
        else:
            self.unused = False
        # a number may be used again in another dimension when it has a name
        if rng.random() < 0.4:
            named = [g for g in self.groups if g["named"]]
            dims = sorted({g["dim"] for g in named})
            if len(dims) > 1:
                a = rng.choice([g for g in named if g["dim"] == dims[0]])
                b = rng.choice([g for g in named if g["dim"] == dims[1]])
                b["number"] = a["number"]
        # the same name given to two numbers is one group
        self.merged = False
        if rng.random() < 0.3:
            for lst in [x[1] for x in self.region_map.values()] + [x[2] for x in self.contact_map.values()]:
                if len(lst) > 1 and all(g["named"] for g in self.groups if g["name"] in lst):
                    for g in self.groups:
                        if g["name"] == lst[1]:
                            g["name"] = lst[0]
                    lst.pop(1)
                    self.merged = True
                    break

    # --- expectations (by mesh index)
    def group_simplices(self, names):
        return [tuple(sorted(s)) for g in self.groups if g["name"] in names for s in g["simplices"]]

    def expected(self):
        m = self.m
        out = {"regions": {}, "contacts": {}, "interfaces": {}}
        for r, (mat, names) in self.region_map.items():
            el = set(self.group_simplices(names))
            out["regions"][r] = (mat, {n for s in el for n in s}, el)
        for c, (r, mat, names) in self.contact_map.items():
            el = set(self.group_simplices(names))
            out["contacts"][c] = (r, mat, {n for s in el for n in s}, {s for s in el if len(s) == self.dim and len(s) > 1})
        for i, (a, b, names) in self.interface_map.items():
            el = set(self.group_simplices(names))
            out["interfaces"][i] = (a, b, {n for s in el for n in s}, {s for s in el if len(s) == self.dim and len(s) > 1})
        return out

    # --- ways into the simulator
    def commands(self, rng, mesh="m"):
        cmds = []
        for r, (mat, names) in self.region_map.items():
            cmds += [("add_gmsh_region", dict(mesh=mesh, region=r, gmsh_name=n, material=mat)) for n in names]
        for c, (r, mat, names) in self.contact_map.items():
            cmds += [("add_gmsh_contact", dict(mesh=mesh, name=c, region=r, gmsh_name=n, material=mat)) for n in names]
        for i, (a, b, names) in self.interface_map.items():
            cmds += [("add_gmsh_interface", dict(mesh=mesh, name=i, region0=a, region1=b, gmsh_name=n)) for n in names]
        rng.shuffle(cmds)
        return cmds

    def lines(self, rng):
        """sections as lists of lines, in the order of the file"""
        m = self.m
        tab = rng.choice([" ", " ", "\t", "  "])
        n = len(m.coords)
        if rng.random() < 0.5:
            idx = list(range(1, n + 1))
        else:
            idx = sorted(rng.sample(range(1, 3 * n + 10), n))
            rng.shuffle(idx)
        self.index = idx

        def num(x):
            x = float(x)
            if x == int(x) and abs(x) < 1e6 and rng.random() < 0.5:
                return "%d" % x
            return rng.choice(["%r", "%.17g", "%.16e", "%+.17e"]) % x
        order = list(range(n))
        rng.shuffle(order)
        nodes = [tab.join([str(idx[i])] + [num(x) for x in m.coords[i]]) for i in order]
        extra = rng.randint(0, 2)
        el = [(g["number"], s) for g in self.groups for s in g["simplices"]]
        rng.shuffle(el)
        first = rng.randint(1, 500)
        elements = [tab.join(str(x) for x in [first + k, TYPE[len(s)], 1 + extra, p] + [rng.randint(0, 50) for _ in range(extra)] + [idx[i] for i in s]) for k, (p, s) in enumerate(el)]
        named = [g for g in self.groups if g["named"]]
        rng.shuffle(named)
        q = rng.random() < 0.8
        names = [tab.join([str(g["dim"]), str(g["number"]), '"%s"' % g["name"] if q else g["name"]]) for g in named]
        sec = {"MeshFormat": [rng.choice(["2.2 0 8", "2.1 0 8"])], "Nodes": [str(n)] + nodes, "Elements": [str(len(elements))] + elements}
        if names or rng.random() < 0.5:
            sec["PhysicalNames"] = [str(len(names))] + names
        order = [s for s in ("PhysicalNames", "Nodes", "Elements") if s in sec]
        if rng.random() < 0.4:
            rng.shuffle(order)
        return [(s, sec[s]) for s in ["MeshFormat"] + order]

    def text(self, rng, sections):
        out = []
        for s, rows in sections:
            out += ["$" + s] + rows + ["$End" + s]
            if rng.random() < 0.2:
                out.append("")
        nl = rng.choice(["\n", "\n", "\r\n", " \n"])
        t = nl.join(out)
        if nl == " \n":
            t = t.replace("8 \n", "8\n", 1)
        return t + nl

    def arrays(self, rng):
        """coordinates, names, elements"""
        groups = list(self.groups)
        rng.shuffle(groups)
        el = [(i, s) for i, g in enumerate(groups) for s in g["simplices"]]
        rng.shuffle(el)
        flat = []
        for i, s in el:
            flat += [len(s) - 1, i] + [int(x) for x in s]
        return [float(x) for x in self.m.coords.reshape(-1)], [g["name"] for g in groups], flat


def describe(rs, rng, kind):
    dim = rng.choice([1, 2, 2, 3])
    k = dict(scale=rng.choice([1.0, 1.0, 1e-4, 50.0]))
    m = sim.any_mesh(rs, dim=dim, nreg=rng.choice([1, 2, 2, 3]), **k)
    if not m.contacts:
        raise Skip()
    # coordinates nothing refers to
    if rng.random() < 0.3:
        m.coords = np.concatenate([m.coords, 7.0 + rs.rand(rng.randint(1, 3), 3)])
    return Described(m, rng, kind)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def do(name, args):
    return getattr(ds, name)(**args)


# ---------------------------------------------------------------- the monitor
def compare(ctx, d, dev, what):
    """the device is the one described"""
    m, want = d.m, d.expected()
    key = {}
    for i, c in enumerate(m.coords.tolist()):
        key[tuple(x + 0.0 for x in c)] = i
    ctx.check(ds.get_dimension(device=dev) == d.dim, "dimension", "%s: %d and not %d" % (what, ds.get_dimension(device=dev), d.dim))
    for f, k in ((ds.get_region_list, "regions"), (ds.get_contact_list, "contacts"), (ds.get_interface_list, "interfaces")):
        ctx.check(sorted(f(device=dev)) == sorted(want[k]), "lists", "%s: %s %s, described %s" % (what, k, sorted(f(device=dev)), sorted(want[k])))
    if ctx.nviol:
        raise Skip()
    at = {}
    for r, (mat, nodes, el) in want["regions"].items():
        ctx.check(ds.get_material(device=dev, region=r) == mat, "material", "%s: %s of %s" % (what, ds.get_material(device=dev, region=r), r))
        x = sim.nodes_of(dev, r)
        got = [key.get(tuple(v + 0.0 for v in row)) for row in x.tolist()]
        ctx.check(None not in got, "coordinates", "%s: region %s has nodes which are not at given coordinates" % (what, r))
        ctx.check(len(got) == len(set(got)) and set(got) == nodes, "nodes", "%s: region %s: %d nodes, %d distinct, %d described, missing %s, not described %s" % (
            what, r, len(got), len(set(got)), len(nodes), sorted(nodes - set(got))[:4], sorted(set(got) - nodes, key=str)[:4]))
        at[r] = got
        have = [tuple(sorted(got[i] for i in e)) for e in ds.get_element_node_list(device=dev, region=r)]
        ctx.check(len(have) == len(set(have)) and set(have) == el, "elements", "%s: region %s: %d elements, %d distinct, %d described" % (what, r, len(have), len(set(have)), len(el)))
        e = sim.edges_of(dev, r)
        k = d.dim + 1
        ee = {tuple(sorted((s[a], s[b]))) for s in el for a in range(k) for b in range(a + 1, k)}
        he = [tuple(sorted((got[a], got[b]))) for a, b in e.tolist()]
        ctx.check(len(he) == len(set(he)) and set(he) == ee, "edges", "%s: region %s: %d edges, %d distinct, %d described" % (what, r, len(he), len(set(he)), len(ee)))
        ctx.count("regions")
    path = os.path.join(ctx.scratch, "structure.msh")
    ds.write_devices(file=path, type="devsim_data", device=dev)
    s = native.structure(path, dev)
    for c, (r, mat, nodes, el) in want["contacts"].items():
        h = s["contacts"][c]
        ctx.check((h["region"], h["material"]) == (r, mat), "contact", "%s: contact %s on %s of %s, described %s of %s" % (what, c, h["region"], h["material"], r, mat))
        got = [at[r][i] for i, in h["nodes"]]
        ctx.check(len(got) == len(set(got)) and set(got) == nodes, "contact_nodes", "%s: contact %s: %d nodes, %d described" % (what, c, len(got), len(nodes)))
        if el and d.dim > 1:
            have = [tuple(sorted(at[r][i] for i in e)) for e in ds.get_element_node_list(device=dev, region=r, contact=c)]
            ctx.check(len(have) == len(set(have)) and set(have) == el, "contact_elements", "%s: contact %s: %d elements, %d distinct, %d described" % (what, c, len(have), len(set(have)), len(el)))
        ctx.count("contacts")
    for r in want["regions"]:
        flag = sim.nv(dev, r, "AtContactNode")
        on = set().union(*[c[2] for c in want["contacts"].values() if c[0] == r] or [set()])
        ctx.check({at[r][i] for i in np.nonzero(flag)[0]} == on, "contact_flags", "%s: AtContactNode of %s" % (what, r))
    for i, (a, b, nodes, el) in want["interfaces"].items():
        h = s["interfaces"][i]
        ctx.check((h["region0"], h["region1"]) == (a, b), "interface", "%s: interface %s" % (what, i))
        pairs = [(at[a][p], at[b][q]) for p, q in h["nodes"]]
        ctx.check(all(p == q for p, q in pairs), "interface_pairs", "%s: interface %s pairs nodes at different places" % (what, i))
        got = [p for p, q in pairs]
        ctx.check(len(got) == len(set(got)) and set(got) == nodes, "interface_nodes", "%s: interface %s: %d nodes, %d described" % (what, i, len(got), len(nodes)))
        if el and d.dim > 1:
            both = [[tuple(sorted(at[r][k] for k in e)) for e in ds.get_element_node_list(device=dev, region=r, interface=i)] for r in (a, b)]
            ctx.check(both[0] == both[1], "interface_elements", "%s: elements of interface %s are in a different order on its sides" % (what, i))
            ctx.check(len(both[0]) == len(set(both[0])) and set(both[0]) == el, "interface_elements", "%s: interface %s: %d elements, %d described" % (what, i, len(both[0]), len(el)))
        # models see both sides of the same node
        for k in "xyz":
            v = [np.array(ds.get_interface_model_values(device=dev, interface=i, name=n)) for n in _sides(dev, i, k)]
            ctx.check((v[0] == v[1]).all(), "interface_sides", "%s: interface %s sees %s of different nodes" % (what, i, k))
        ctx.count("interfaces")


def _sides(dev, i, k):
    out = []
    for side in ("r0", "r1"):
        n = "see_%s_%s" % (k, side)
        ds.interface_model(device=dev, interface=i, name=n, equation="%s@%s" % (k, side))
        out.append(n)
    return out


class Flow:
    """the commands to a device, and where they failed"""

    def __init__(self, ctx, mesh="m", dev="d"):
        self.ctx, self.mesh, self.dev, self.stage, self.error = ctx, mesh, dev, None, None

    def run(self, create, commands):
        steps = [("create_gmsh_mesh", create)] + commands + [("finalize_mesh", dict(mesh=self.mesh)), ("create_device", dict(mesh=self.mesh, device=self.dev))]
        for name, args in steps:
            try:
                do(name, args)
            except ds.error as e:
                self.stage, self.error = name, str(e)
                self.ctx.check(self.error.strip() != "", "message", "%s failed without a message" % name)
                return False
            except (TypeError, ValueError, OverflowError) as e:
                self.stage, self.error = name, str(e)
                return False
        return True


def bystander(ctx):
    ds.create_1d_mesh(mesh="other")
    for p, t in ((0.0, "a"), (1.0, "b")):
        ds.add_1d_mesh_line(mesh="other", pos=p, ps=0.25, tag=t)
        ds.add_1d_contact(mesh="other", name=t, tag=t, material="metal")
    ds.add_1d_region(mesh="other", region="r0", material="Si", tag1="a", tag2="b")
    ds.finalize_mesh(mesh="other")
    ds.create_device(mesh="other", device="other")


def state(ctx):
    path = os.path.join(ctx.scratch, "state.msh")
    ds.write_devices(file=path, type="devsim")
    with open(path, "rb") as f:
        return tuple(sorted(ds.get_device_list())), f.read()


def refused(ctx, d, rng, label, create, commands, before, must=True):
    """what is malformed fails with a message, leaves nothing, and the same names can be used right after"""
    f = Flow(ctx)
    ok = f.run(create, commands)
    ctx.count("tried")
    if ok and must:
        ctx.violation("accepted", "%s was accepted" % label)
    if not ok:
        ctx.count("refused_at_" + f.stage)
        ctx.check(state(ctx) == before, "left_behind", "%s: devices changed by what failed at %s (%s)" % (label, f.stage, ds.get_device_list()))
        if f.stage == "create_gmsh_mesh":
            try:
                ds.finalize_mesh(mesh="m")
                ctx.violation("left_mesh", "%s: the mesh which could not be created can be finalized" % label)
            except ds.error:
                pass
        else:
            ds.delete_mesh(mesh="m")
    else:
        ctx.count("accepted")
        for r in ds.get_region_list(device="d"):
            n = len(sim.nodes_of("d", r))
            for e in ds.get_element_node_list(device="d", region=r):
                ctx.check(all(0 <= i < n for i in e), "element_range", "%s: element of %s refers to a node out of range" % (label, r))
        ds.delete_device(device="d")
        ds.delete_mesh(mesh="m")
    return f


def good(ctx, d, rng, what):
    """the description, undamaged"""
    if d.kind == "arrays" or rng.random() < 0.3:
        if not all(g["named"] for g in d.groups):
            return
        c, n, e = d.arrays(rng)
        create = dict(mesh="m", coordinates=c, physical_names=n, elements=e)
    else:
        path = os.path.join(ctx.scratch, "good.msh")
        put(path, d.text(rng, d.lines(rng)))
        create = dict(mesh="m", file=path)
    f = Flow(ctx)
    if not f.run(create, d.commands(rng)):
        ctx.violation("rejected", "%s: what is well formed failed at %s: %s" % (what, f.stage, f.error))
        raise Skip()
    compare(ctx, d, "d", what)


# ---------------------------------------------------------------- damage
def broken_sections(rng, d, sec):
    """name of the damage and the sections with it"""
    sec = [(s, list(rows)) for s, rows in sec]
    rows = dict(sec)
    n, e, p = rows["Nodes"], rows["Elements"], rows.get("PhysicalNames")
    sep = "\t" if "\t" in n[1] else " "
    i, j = rng.randint(1, len(n) - 1), rng.randint(1, len(e) - 1)
    ew, nw = e[j].split(), n[i].split()
    tags = int(ew[2])
    k = rng.choice(["version", "format", "node_count", "element_count", "drop_node", "drop_element", "no_nodes", "no_elements", "no_format", "type", "few_nodes", "many_nodes", "bad_index",
                    "dangling", "no_tags", "many_tags", "physical", "element_index", "node_index", "few_coordinates", "many_coordinates", "word_coordinate", "float_index", "garbage", "twice", "unended",
                    "huge_index", "negative_count", "count_missing"] + (["name_dim", "name_index", "name_twice", "name_word", "name_count", "drop_name"] if p and len(p) > 1 else []))

    def element(w):
        e[j] = sep.join(w)

    def node(w):
        n[i] = sep.join(w)
    if k == "version":
        rows["MeshFormat"][0] = rng.choice(["4.1 0 8", "1.0 0 8", "2.3 0 8", "2.2 1 8", "2.2 0 4", "2", "", "2.2 0"])
    elif k == "format":
        rows["MeshFormat"].append("1")
    elif k == "node_count":
        n[0] = str(len(n) - 1 + rng.choice([-1, 1, 5]))
    elif k == "element_count":
        e[0] = str(len(e) - 1 + rng.choice([-1, 1, 100]))
    elif k == "negative_count":
        rng.choice([n, e])[0] = "-1"
    elif k == "count_missing":
        rng.choice([n, e]).pop(0)
    elif k == "drop_node":
        del n[i]
    elif k == "drop_element":
        del e[j]
    elif k in ("no_nodes", "no_elements", "no_format"):
        sec = [x for x in sec if x[0] != {"no_nodes": "Nodes", "no_elements": "Elements", "no_format": "MeshFormat"}[k]]
    elif k == "type":
        element(ew[:1] + [rng.choice(["3", "5", "0", "-1", "8", "99"])] + ew[2:])
    elif k == "few_nodes":
        element(ew[:-1])
    elif k == "many_nodes":
        element(ew + [ew[-1]])
    elif k == "bad_index":
        element(ew[:-1] + [rng.choice(["0", "-1", "-" + ew[-1]])])
    elif k == "dangling":
        used = set(w for names in [x[1] for x in d.region_map.values()] + [x[2] for x in d.contact_map.values()] + [x[2] for x in d.interface_map.values()] for w in names)
        mine = [g for g in d.groups if g["name"] in used]
        g = rng.choice(mine)
        s = rng.choice(g["simplices"])
        free = [x for x in range(1, max(d.index) + 3) if x not in set(d.index)]
        ids = [d.index[x] for x in s]
        ids[rng.randrange(len(ids))] = rng.choice(free)
        e.append(sep.join(str(x) for x in [9999, TYPE[len(s)], 1, g["number"]] + ids))
        e[0] = str(len(e) - 1)
    elif k == "no_tags":
        element(ew[:2] + ["0"] + ew[3 + tags:])
    elif k == "many_tags":
        element(ew[:2] + [str(rng.choice([tags + 1, 99, 2147483647, -1]))] + ew[3:])
    elif k == "physical":
        element(ew[:3] + [rng.choice(["0", "-3"])] + ew[4:])
    elif k == "element_index":
        element([rng.choice(["0", "-4"])] + ew[1:])
    elif k == "node_index":
        node([rng.choice(["0", "-" + nw[0]])] + nw[1:])
    elif k == "huge_index":
        rng.choice([lambda: node([str(rng.choice([2 ** 31 + int(nw[0]), 2 ** 32 + int(nw[0]), 10 ** 30]))] + nw[1:]), lambda: element(ew[:-1] + [str(rng.choice([2 ** 32, 2 ** 33]) + int(ew[-1]))])])()
    elif k == "few_coordinates":
        node(nw[:-1])
    elif k == "many_coordinates":
        node(nw + ["0.0"])
    elif k == "word_coordinate":
        nw[rng.randint(1, 3)] = rng.choice(["nan", "inf", "x", "1.0.0", "1e", "--1", "0x10", "1e400", "-1.5e999"])
        node(nw)
    elif k == "float_index":
        rng.choice([lambda: node([nw[0] + ".0"] + nw[1:]), lambda: element(ew[:-1] + [ew[-1] + ".5"])])()
    elif k == "garbage":
        t = rng.choice([n, e])
        q = rng.randint(1, len(t))
        t.insert(q, rng.choice(["é", "#", "\0", '"', "abc", "$Foo", "$Nodes", "\x01", "ÿ"]))
    elif k == "twice":
        s = rng.choice(["MeshFormat"])
        sec.append((s, rows[s]))
    elif k == "unended":
        # the end of one section is missing
        q = rng.randrange(len(sec))
        s, r = sec[q]
        sec[q] = (s, r)
        return k, sec, s
    elif k == "name_dim":
        q = rng.randint(1, len(p) - 1)
        w = p[q].split()
        p[q] = sep.join([rng.choice(["4", "-1", "17"])] + w[1:])
    elif k == "name_index":
        q = rng.randint(1, len(p) - 1)
        w = p[q].split()
        p[q] = sep.join([w[0], rng.choice(["0", "-2"])] + w[2:])
    elif k == "name_twice":
        q = rng.randint(1, len(p) - 1)
        w = p[q].split()
        p.append(sep.join(w[:2] + ['"another"']))
        p[0] = str(len(p) - 1)
    elif k == "name_word":
        q = rng.randint(1, len(p) - 1)
        w = p[q].split()
        p[q] = sep.join(w[:2] + [rng.choice(['"open', '"a"b', '"', "7up", "", '"a" "b"'])])
    elif k == "name_count":
        p[0] = str(len(p) - 1 + rng.choice([-1, 1]))
    elif k == "drop_name":
        del p[rng.randint(1, len(p) - 1)]
    return k, sec, None


def render(d, rng, sec, unended):
    t = ""
    for s, rows in sec:
        t += "\n".join(["$" + s] + rows + ([] if s == unended else ["$End" + s])) + "\n"
    return t


def broken_arrays(rng, d):
    c, n, e = d.arrays(rng)
    starts, q = [], 0
    while q < len(e):
        starts.append(q)
        q += e[q] + 3
    s = rng.choice(starts)
    k = rng.choice(["length", "type", "negative", "physical_last", "physical", "node_last", "node", "cut", "dimension", "no_elements", "word", "float", "missing", "mixed", "none", "huge", "coordinate_word", "name_number"])
    a = dict(mesh="m", coordinates=c, physical_names=n, elements=e)
    ncoord = len(c) // 3
    if k == "length":
        a["coordinates"] = c[:-1] if rng.random() < 0.5 else c + [1.0]
    elif k == "type":
        e[s] = rng.choice([4, 5, 15, 2 ** 31, 2 ** 32])
    elif k == "negative":
        e[s + rng.randrange(e[s] + 3)] = -1
    elif k == "physical_last":
        e[s + 1] = len(n)
    elif k == "physical":
        e[s + 1] = len(n) + rng.choice([1, 10, 2 ** 32])
    elif k == "node_last":
        e[s + 2] = ncoord
    elif k == "node":
        e[s + 2] = ncoord + rng.choice([1, 100, 2 ** 31, 2 ** 32, 2 ** 32 - 1])
    elif k == "cut":
        a["elements"] = e[:-rng.randint(1, e[starts[-1]] + 2)]
    elif k == "dimension":
        e += [3 if e[s] < 3 else 2, e[s + 1], 0, 1, 2] + ([3] if e[s] < 3 else [])
    elif k == "no_elements":
        a["physical_names"] = n + ["nothing"]
    elif k == "word":
        e[s + 2] = "a"
    elif k == "float":
        e[s + 2] = 0.5
    elif k == "missing":
        del a[rng.choice(["coordinates", "physical_names", "elements"])]
    elif k == "mixed":
        a["file"] = "x.msh"
    elif k == "none":
        a = dict(mesh="m")
    elif k == "huge":
        e[s + 2] = 2 ** 70
    elif k == "coordinate_word":
        c[rng.randrange(len(c))] = rng.choice(["x", None, [1.0]])
    elif k == "name_number":
        a["physical_names"] = 7
    return k, a


def broken_map(rng, d, cmds):
    """commands which do not fit the mesh, and the damage's name"""
    reg = [c for c in cmds if c[0] == "add_gmsh_region"]
    con = [c for c in cmds if c[0] == "add_gmsh_contact"]
    itf = [c for c in cmds if c[0] == "add_gmsh_interface"]
    whole = [g["name"] for g in d.groups if g["dim"] == d.dim]
    lower = [g["name"] for g in d.groups if g["dim"] < d.dim]
    opts = ["unknown_region_group", "unknown_contact_group", "contact_region", "contact_other_dim", "region_lower", "empty_name", "missing_option", "no_mesh", "mesh_kind"]
    if itf:
        opts += ["unknown_interface_group", "interface_region", "interface_other_dim"]
    if len(d.region_map) > 1:
        opts += ["contact_elsewhere", "contact_elsewhere"]
    if len(d.region_map) > 2 or (len(d.region_map) > 1 and not d.contact_map.get("pts")):
        opts += ["interface_apart"]
    k = rng.choice(opts)
    cmds = [(n, dict(a)) for n, a in cmds]
    new = None
    if k == "unknown_region_group":
        new = ("add_gmsh_region", dict(mesh="m", region=rng.choice([reg[0][1]["region"], "new"]), gmsh_name="not_there", material="Si"))
    elif k == "unknown_contact_group":
        new = ("add_gmsh_contact", dict(con[0][1], gmsh_name="not_there"))
    elif k == "unknown_interface_group":
        new = ("add_gmsh_interface", dict(itf[0][1], gmsh_name="not_there"))
    elif k == "contact_region":
        new = ("add_gmsh_contact", dict(con[0][1], name="new", region="nowhere"))
    elif k == "interface_region":
        new = ("add_gmsh_interface", dict(itf[0][1], name="new", **{rng.choice(["region0", "region1"]): "nowhere"}))
    elif k == "contact_other_dim":
        r = reg[0][1]
        new = ("add_gmsh_contact", dict(con[0][1], name="new", region=r["region"], gmsh_name=r["gmsh_name"]))
    elif k == "interface_other_dim":
        r = [x for x in reg if x[1]["region"] == itf[0][1]["region0"]][0][1]
        new = ("add_gmsh_interface", dict(itf[0][1], name="new", gmsh_name=r["gmsh_name"]))
    elif k == "region_lower":
        new = ("add_gmsh_region", dict(mesh="m", region="new", gmsh_name=con[0][1]["gmsh_name"], material="Si"))
    elif k == "contact_elsewhere":
        # the contact's group given to a region which does not have its nodes
        c = rng.choice(con)
        want = d.expected()
        nodes = {n for s in d.group_simplices([c[1]["gmsh_name"]]) for n in s}
        other = [r for r in want["regions"] if not nodes <= want["regions"][r][1]]
        if not other:
            raise Skip()
        new = ("add_gmsh_contact", dict(c[1], name="new", region=rng.choice(other)))
    elif k == "interface_apart":
        c = rng.choice(con)
        want = d.expected()
        nodes = {n for s in d.group_simplices([c[1]["gmsh_name"]]) for n in s}
        other = [r for r in want["regions"] if not nodes <= want["regions"][r][1]]
        if not other:
            raise Skip()
        rr = [c[1]["region"], rng.choice(other)]
        rng.shuffle(rr)
        new = ("add_gmsh_interface", dict(mesh="m", name="new", gmsh_name=c[1]["gmsh_name"], region0=rr[0], region1=rr[1]))
    elif k == "empty_name":
        n, a = rng.choice(cmds)
        a = dict(a)
        a[rng.choice([x for x in a if x != "mesh"])] = ""
        new = (n, a)
    elif k == "missing_option":
        n, a = rng.choice(cmds)
        a = dict(a)
        del a[rng.choice(list(a))]
        new = (n, a)
    elif k == "no_mesh":
        n, a = rng.choice(cmds)
        new = (n, dict(a, mesh="no such mesh"))
    elif k == "mesh_kind":
        n, a = rng.choice(cmds)
        new = (n, dict(a, mesh="unfinished"))
    cmds.insert(rng.randint(0, len(cmds)), new)
    return k, cmds


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4, 12])):
        p = rng.randrange(len(data))
        k = rng.random()
        if k < 0.4:
            data[p] = rng.choice([rng.randrange(256), ord(rng.choice("0123456789.-+eE$\n\" "))])
        elif k < 0.6:
            del data[p:p + rng.choice([1, 1, 3, 20])]
        elif k < 0.8:
            data[p:p] = bytes([rng.choice([rng.randrange(256), ord(rng.choice("0-.$\n\" "))])])
        else:
            q = rng.randrange(len(data))
            data[p:p] = data[q:q + rng.randint(1, 40)]
        if not data:
            data = bytearray(b"$")
    return bytes(data)


def numbers_ok(data):
    """no number so large that the memory for its index would be the matter"""
    import re
    return all(len(x) < 7 or b"." in x for x in re.findall(rb"[0-9.]+", data))


def run_case(ctx, case):
    rng = ctx.rng
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    sim.reset()
    what = case["what"]
    kind = "arrays" if what == "badarrays" or what == "arrays" else "file"
    d = describe(rs, rng, kind)
    if what in ("file", "arrays"):
        if rng.random() < 0.2:
            bystander(ctx)
        good(ctx, d, rng, what)
        ctx.count(what + "s" if what == "file" else what)
        ctx.count("%dd" % d.dim)
        for k in ("repeated", "points", "unused", "merged"):
            if getattr(d, k):
                ctx.count(k)
        ctx.distinct("%s/%d/%d/%d/%s%s%s%s" % (what, d.dim, len(d.region_map), len(d.groups), d.repeated, d.points, d.unused, d.merged))
        ctx.sample("%s: %d dimensions, %d groups, %d regions" % (what, d.dim, len(d.groups), len(d.region_map)))
        return
    bystander(ctx)
    before = state(ctx)
    path = os.path.join(ctx.scratch, "bad.msh")
    label = what
    if what == "badfile":
        q = rng.random()
        if q < 0.08:
            label = rng.choice(["absent", "directory", "empty", "blank", "binary", "nothing_but_format"])
            p = path
            if label == "absent":
                p = os.path.join(ctx.scratch, "not_there.msh")
            elif label == "directory":
                p = ctx.scratch
            else:
                put(p, {"empty": b"", "blank": b"\n\n", "binary": bytes(rng.randrange(256) for _ in range(300)), "nothing_but_format": b"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n"}[label])
            refused(ctx, d, rng, label, dict(mesh="m", file=p), d.commands(rng), before)
        else:
            sec = d.lines(rng)
            label, sec, unended = broken_sections(rng, d, sec)
            put(path, render(d, rng, sec, unended))
            refused(ctx, d, rng, label, dict(mesh="m", file=path), d.commands(rng), before)
        ctx.count("bad_files")
    elif what == "cut":
        sec = d.lines(rng)
        t = d.text(rng, sec).encode()
        body = len(t.rstrip())
        n = rng.randrange(body) if rng.random() < 0.7 else body - rng.randint(1, 40)
        put(path, t[:n])
        # without names the part before the section of the names is complete
        whole = sec[-1][0] == "PhysicalNames" and not any(g["named"] for g in d.groups)
        refused(ctx, d, rng, "cut at %d of %d" % (n, body), dict(mesh="m", file=path), d.commands(rng), before, must=not whole)
        ctx.count("cut_files")
    elif what == "badarrays":
        label, a = broken_arrays(rng, d)
        refused(ctx, d, rng, label, a, d.commands(rng), before)
        ctx.count("bad_arrays")
    elif what == "badmap":
        ds.create_1d_mesh(mesh="unfinished")
        cmds = d.commands(rng)
        label, cmds = broken_map(rng, d, cmds)
        put(path, d.text(rng, d.lines(rng)))
        refused(ctx, d, rng, label, dict(mesh="m", file=path), cmds, before)
        ctx.count("bad_maps")
    elif what == "noise":
        data = mutate(rng, d.text(rng, d.lines(rng)).encode())
        if not numbers_ok(data):
            raise Skip()
        put(path, data)
        label = "noise"
        refused(ctx, d, rng, "noise", dict(mesh="m", file=path), d.commands(rng), before, must=False)
        ctx.count("noise")
    ctx.distinct("%s/%s/%d" % (what, label if what != "cut" else "", d.dim))
    # the next load is not affected
    good(ctx, d, rng, "after " + label)
    ctx.count("after")
