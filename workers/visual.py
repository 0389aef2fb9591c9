"""C16: what VTK and Tecplot files contain, read by an independent reader, against the values the simulator gives."""
import base64
import os
import re
import resource
import shutil
import struct
import xml.etree.ElementTree as ET
import zlib
import numpy as np
import devsim as ds
from vlib import sim
from vlib.worker import Skip

DEV = "d"
PLAN = ["small", "small", "large", "conflict", "filter", "refused", "small", "fault", "filter", "small"]
BLOCK = 4096


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan", PLAN)
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


# reading

def decode(ctx, text, what):
    """the doubles of a binary array as VTK's reader of compressed blocks sees them"""
    text = "".join(text.split())
    head = struct.unpack("<I", base64.b64decode(text[:8])[:4])[0]
    nh = 3 + head
    nb = (4 * nh + 2) // 3 * 4
    h = struct.unpack("<%dI" % nh, base64.b64decode(text[:nb], validate=True)[:4 * nh])
    data = base64.b64decode(text[nb:], validate=True)
    ctx.check(sum(h[3:]) == len(data), "vtk_blocks", "%s: blocks of %d bytes, %d given" % (what, sum(h[3:]), len(data)))
    out, at = [], 0
    for i, size in enumerate(h[3:]):
        b = zlib.decompress(data[at:at + size])
        at += size
        want = h[2] if i == head - 1 and h[2] else h[1]
        ctx.check(len(b) == want, "vtk_blocks", "%s: block %d of %d has %d bytes and not %d" % (what, i, head, len(b), want))
        out.append(b)
    ctx.count("blocks", head)
    return np.frombuffer(b"".join(out), dtype="<f8")


def read_vtu(ctx, path):
    with open(path, "rb") as f:
        raw = f.read()
    try:
        root = ET.fromstring(raw)
    except ET.ParseError as e:
        ctx.violation("vtk_xml", "%s is not well formed: %s" % (os.path.basename(path), e))
        raise Skip()
    ctx.check(root.tag == "VTKFile" and root.get("type") == "UnstructuredGrid" and root.get("byte_order") == "LittleEndian" and root.get("compressor") == "vtkZLibDataCompressor", "vtk_header", "header of %s" % path)
    pieces = root.findall("UnstructuredGrid/Piece")
    ctx.check(len(pieces) == 1, "vtk_header", "%d pieces in %s" % (len(pieces), path))
    p = pieces[0]
    np_, nc = int(p.get("NumberOfPoints")), int(p.get("NumberOfCells"))
    out = {"points": np_, "cells": nc}

    def arrays(e, n, which):
        r, seen = {}, []
        for a in e if e is not None else []:
            name = a.get("Name")
            comp = int(a.get("NumberOfComponents", "1"))
            if a.get("format") == "binary":
                v = decode(ctx, a.text, "%s %r" % (which, name))
            else:
                v = np.array([int(x) for x in (a.text or "").split()])
            if n is not None:
                if not ctx.check(len(v) == n * comp, "vtk_length", "%s %r has %d values for %d of %d components" % (which, name, len(v), n, comp)):
                    continue
            seen.append(name)
            r[name] = v.reshape(-1, 3) if comp == 3 else v
            ctx.count("arrays")
        ctx.check(len(seen) == len(set(seen)), "vtk_names", "%s: names twice: %r" % (which, [q for q in seen if seen.count(q) > 1]))
        return r
    pts = arrays(p.find("Points"), np_, "points")
    out["x"] = list(pts.values())[0] if pts else None
    c = arrays(p.find("Cells"), None, "cells")
    out["cell"] = c
    out["point_data"] = arrays(p.find("PointData"), np_, "point data")
    out["cell_data"] = arrays(p.find("CellData"), nc, "cell data")
    return out


def read_tecplot(ctx, path, dim):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    ctx.check(max(len(x) for x in text.split("\n")) <= 32000, "tecplot_line", "a line is longer than 32000 characters")
    m = re.match(r'TITLE = "([^"\n]*)"\nVARIABLES = ((?:"[^"]*"(?:,\s)?)+)\n', text)
    if not ctx.check(m is not None, "tecplot_header", "the header cannot be read: %r" % text[:100]):
        raise Skip()
    names = re.findall(r'"([^"]*)"', m.group(2))
    zones = []
    rest = text[m.end():]
    parts = re.split(r"^(ZONE .*)\n", rest, flags=re.M)
    ctx.check(parts[0].strip() == "", "tecplot_header", "text before the first zone")
    for h, body in zip(parts[1::2], parts[2::2]):
        z = re.match(r'ZONE T="([^"]*)" NODES=(\d+), ELEMENTS=(\d+), DATAPACKING=BLOCK, ZONETYPE=(\w+)(?:, VARLOCATION=\(\[([\d,]+)\]=CELLCENTERED\))?$', h)
        if not ctx.check(z is not None, "tecplot_zone", "a zone header cannot be read: %r" % h):
            raise Skip()
        nn, ne = int(z.group(2)), int(z.group(3))
        cells = [int(x) - 1 for x in z.group(5).split(",")] if z.group(5) else []
        tok = body.split()
        val, at = {}, 0
        for i, q in enumerate(names):
            n = ne if i in cells else nn
            val.setdefault((q, i in cells), []).append([float(x) for x in tok[at:at + n]])
            at += n
        per = {"FELINESEG": 2, "FETRIANGLE": 3, "FETETRAHEDRON": 4}[z.group(4)]
        con = tok[at:]
        ctx.check(len(con) == ne * per, "tecplot_length", "zone %s: %d of connectivity for %d elements" % (z.group(1), len(con), ne))
        zones.append({"name": z.group(1), "nodes": nn, "elements": ne, "per": per, "values": val, "con": np.array([int(x) - 1 for x in con]).reshape(-1, per) if len(con) == ne * per else None, "cells": {names[i] for i in cells}})
    return {"title": m.group(1), "names": names, "zones": zones}


# what is expected

class Device:
    """a device with models of every kind, and which of them are shown how"""

    def __init__(self, ctx, rs, dim, name=DEV, mesh=None, odd=False):
        rng = ctx.rng
        self.dim, self.name = dim, name
        if mesh is None:
            m = sim.any_mesh(rs, dim=dim, nreg=int(rs.choice([1, 2, 3])), scale=float(rs.choice([1.0, 1e-4, 1e3])))
            m.build(name)
        else:
            mesh(name)
        self.regions = sorted(ds.get_region_list(device=name))
        self.dim = dim
        self.shown = {r: {} for r in self.regions}      # name -> scalar, vector, nodisplay when not scalar
        odds = ["a&b", "u<v", "x>=y", "it's", "\u00b5\u2099", "50%", "two words", "#"] if odd else []
        for r in self.regions:
            k = {"device": name, "region": r}
            n = len(sim.nv(name, r, "node_index"))
            e = len(sim.ev(name, r, "edge_index"))
            self.expect(r)      # makes the models it reads the edges with
            ds.node_solution(name="P", **k)
            ds.set_node_values(name="P", values=self.some(rs, n), **k)
            if rng.random() < 0.5:
                ds.node_solution(name="U0", **k)
                ds.set_node_value(name="U0", index=-1, value=float(rs.randn()), **k)
            for o in odds:
                if rng.random() < 0.5:
                    ds.node_solution(name=o, **k)
                    ds.set_node_values(name=o, values=self.some(rs, n), **k)
            for i in range(rng.randint(0, 4)):
                t = rng.choice(["scalar", "nodisplay"])
                q = rng.choice(["nm%d", "b%d", "Z%d"]) % i
                ds.node_model(name=q, equation=rng.choice(["P*P", "3.5", "P*x", "node_index"]), display_type=t, **k)
                self.shown[r][q] = t
            for i in range(rng.randint(0, 5)):
                t = rng.choice(["scalar", "nodisplay", "vector", "vector"])
                q = rng.choice(["em%d", "EF%d", "AA%d"]) % i
                ds.edge_from_node_model(node_model="P", **k)
                ds.edge_model(name=q, equation=rng.choice(["P@n0-P@n1", "P@n0*P@n1", "2.5", "edge_index", "unitx*P@n0", "(P@n1-P@n0)*EdgeInverseLength"]), display_type=t, **k)
                self.shown[r][q] = t
            if rng.random() < 0.5:
                ds.edge_solution(name="es", **k)
                ds.set_edge_values(name="es", values=self.some(rs, e), **k)
            if dim > 1:
                ne = len(sim.elv(name, r, "ElementEdgeCouple"))
                for i in range(rng.randint(0, 3)):
                    t = rng.choice(["scalar", "scalar", "nodisplay"])
                    q = rng.choice(["el%d", "C%d"]) % i
                    ds.element_from_node_model(node_model="P", **k)
                    ds.element_model(name=q, equation=rng.choice(["P@en0-P@en1", "P@en0*P@en1", "1.5", "ElementEdgeCouple"]), display_type=t, **k)
                    self.shown[r][q] = t
                if rng.random() < 0.5:
                    ds.element_solution(name="els", **k)
                    ds.set_element_values(name="els", values=self.some(rs, ne), **k)

    @staticmethod
    def some(rs, n):
        t = rs.randint(4)
        if t == 0:
            return rs.randn(n)
        if t == 1:
            return rs.randint(-3, 4, n).astype(float)
        if t == 2:
            return rs.choice([-1.0, 1.0], n) * 10.0 ** rs.uniform(-60, 60, n)
        return 1.0 + 1e-13 * rs.randn(n)

    def models(self, r, kind):
        k = {"device": self.name, "region": r}
        if kind == "node":
            return {q: sim.nv(self.name, r, q) for q in ds.get_node_model_list(**k)}
        if kind == "edge":
            return {q: sim.ev(self.name, r, q) for q in ds.get_edge_model_list(**k)}
        return {q: sim.elv(self.name, r, q) for q in ds.get_element_model_list(**k)} if self.dim > 1 else {}

    def expect(self, r):
        """node data, vectors, cell data shown for a region; points, elements"""
        x = sim.nodes_of(self.name, r)
        ed = sim.edges_of(self.name, r)
        n = len(x)
        out = {"x": x, "exact": {}, "node": {}, "vector": {}, "cell": {}}
        show = lambda q: self.shown[r].get(q, "scalar")
        for q, v in self.models(r, "node").items():
            if show(q) == "scalar":
                out["exact"][q] = v
        vec = x[ed[:, 1]] - x[ed[:, 0]]
        unit = vec / np.sqrt((vec ** 2).sum(axis=1))[:, None]
        for q, v in self.models(r, "edge").items():
            if show(q) == "nodisplay":
                continue
            num, den, mag = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros((n, 3))
            w = np.ones_like(unit) if show(q) == "scalar" else np.abs(unit)
            u = np.ones_like(unit) if show(q) == "scalar" else unit
            for e in (0, 1):
                np.add.at(num, ed[:, e], v[:, None] * u * w)
                np.add.at(mag, ed[:, e], np.abs(v[:, None] * u * w))
                np.add.at(den, ed[:, e], w)
            with np.errstate(all="ignore"):
                val = np.where(den > 0, num / den, 0.0)
                mag = np.where(den > 0, mag / den, 0.0)
            # a direction no edge has within rounding is not judged
            mag = np.where(den > 1e-9, mag, np.inf)
            if show(q) == "scalar":
                out["node"][q] = (val[:, 0], mag[:, 0])
            else:
                out["vector"][q] = (val, mag)
        per = 3 if self.dim == 2 else 6
        for q, v in self.models(r, "element").items():
            if show(q) == "scalar":
                out["cell"][q] = (v.reshape(-1, per).mean(axis=1), np.abs(v.reshape(-1, per)).mean(axis=1))
        out["elements"] = ed if self.dim == 1 else np.array(ds.get_element_node_list(device=self.name, region=r))
        return out


def near(ctx, got, want, mag, key, what, rel=1e-12, floor=1e-300):
    got, want, mag = np.asarray(got), np.asarray(want), np.asarray(mag)
    if not ctx.check(got.shape == want.shape, key, "%s has shape %r and not %r" % (what, got.shape, want.shape)):
        return
    with np.errstate(all="ignore"):
        bad = np.abs(got - want) > rel * mag + floor
    bad &= np.isfinite(mag)
    ctx.count("values", got.size)
    ctx.check(not bad.any(), key, "%s is %r and not %r at %r" % (what, got[bad][:3].tolist(), want[bad][:3].tolist(), np.argwhere(bad)[:3].tolist()))


def check_vtk(ctx, dev, base, keep=lambda q: True):
    """base: path without the extension"""
    d = os.path.dirname(base)
    with open(base + ".vtm", "rb") as f:
        try:
            root = ET.fromstring(f.read())
        except ET.ParseError as e:
            ctx.violation("vtk_xml", "the file of files is not well formed: %s" % e)
            return
    files = [e.get("file") for e in root.findall("vtkMultiBlockDataSet/DataSet")]
    groups = [e.get("group") for e in root.findall("vtkMultiBlockDataSet/DataSet")]
    ctx.check(len(files) == len(dev.regions) and groups == [str(i) for i in range(len(files))], "vtk_files", "%r for the regions %r" % (files, dev.regions))
    with open(base + ".visit", encoding="utf-8") as f:
        L = f.read().split("\n")
    ctx.check(L[0] == "!NBLOCKS %d" % len(dev.regions) and L[1:] == files + [""], "vtk_files", "the visit file has %r" % L)
    for r, f in zip(dev.regions, files):
        p = os.path.join(d, f)
        if not ctx.check(os.path.isfile(p), "vtk_files", "%r is not there relative to %s" % (f, os.path.basename(base) + ".vtm")):
            continue
        v = read_vtu(ctx, p)
        w = dev.expect(r)
        what = "region %s" % r
        ctx.check(v["points"] == len(w["x"]) and v["cells"] == len(w["elements"]), "vtk_points", "%s: %d points and %d cells for %d and %d" % (what, v["points"], v["cells"], len(w["x"]), len(w["elements"])))
        ctx.check(v["x"] is not None and np.array_equal(v["x"], w["x"]), "vtk_points", "%s: other coordinates" % what)
        per = w["elements"].shape[1]
        con = v["cell"].get("connectivity", np.zeros(0))
        if ctx.check(len(con) == w["elements"].size, "vtk_cells", "%s: connectivity of %d entries" % (what, len(con))):
            same_elements(ctx, con.reshape(-1, per), w["elements"], "vtk_cells", what)
        ctx.check(np.array_equal(v["cell"].get("offsets"), per * np.arange(1, len(w["elements"]) + 1)) and np.array_equal(v["cell"].get("types"), np.full(len(w["elements"]), {1: 3, 2: 5, 3: 10}[dev.dim])), "vtk_cells", "%s: offsets or types" % what)
        want = {q for k in ("exact", "node", "vector") for q in w[k] if keep(q)}
        ctx.check(set(v["point_data"]) == want, "vtk_names", "%s: point data lacks %r, has also %r" % (what, sorted(want - set(v["point_data"])), sorted(set(v["point_data"]) - want)))
        wc = {q for q in w["cell"] if keep(q)}
        ctx.check(set(v["cell_data"]) == wc, "vtk_names", "%s: cell data lacks %r, has also %r" % (what, sorted(wc - set(v["cell_data"])), sorted(set(v["cell_data"]) - wc)))
        for q, a in v["point_data"].items():
            if q in w["exact"]:
                ctx.check(np.array_equal(a, w["exact"][q]), "vtk_data", "%s: %r is not the node model" % (what, q))
                ctx.count("values", a.size)
            elif q in w["node"]:
                near(ctx, a, w["node"][q][0], w["node"][q][1], "vtk_data", "%s: %r" % (what, q))
            elif q in w["vector"]:
                near(ctx, a, w["vector"][q][0], w["vector"][q][1], "vtk_vector", "%s: %r" % (what, q))
                ctx.count("vectors")
        for q, a in v["cell_data"].items():
            if q in w["cell"]:
                near(ctx, a, w["cell"][q][0], w["cell"][q][1], "vtk_cell_data", "%s: %r" % (what, q))
                ctx.count("cell_data")
        ctx.count("vtk_regions")
    ctx.count("vtk_%dd" % dev.dim)


def same_elements(ctx, got, want, key, what):
    ctx.check(np.array_equal(np.sort(got, axis=1), np.sort(want, axis=1)), key, "%s: the elements are not those of the region, or in another order than their data" % what)


def check_tecplot(ctx, dev, path, keep=lambda q: True):
    t = read_tecplot(ctx, path, dev.dim)
    ctx.check(t["title"] == dev.name, "tecplot_header", "the title is %r" % t["title"])
    ctx.check([z["name"] for z in t["zones"]] == dev.regions, "tecplot_zone", "zones %r of the regions %r" % ([z["name"] for z in t["zones"]], dev.regions))
    axes = "xyz"[:dev.dim]
    # a model is shown the way it is in the first region which has it
    how = {}
    for r in dev.regions:
        k = {"device": dev.name, "region": r}
        for q in ds.get_node_model_list(**k):
            if q not in ("x", "y", "z"):
                how.setdefault(("node", q), dev.shown[r].get(q, "scalar"))
        for q in ds.get_edge_model_list(**k):
            how.setdefault(("edge", q), dev.shown[r].get(q, "scalar"))
        for q in (ds.get_element_model_list(**k) if dev.dim > 1 else []):
            if dev.shown[r].get(q, "scalar") == "scalar":
                how["cell", q] = "scalar"
    how = {k: v for k, v in how.items() if v != "nodisplay" and keep(k[1])}
    want = list(axes)
    for (k, q), v in how.items():
        want += [q] if v == "scalar" else ["%s_%s_onNode" % (q, a) for a in axes]
    ctx.check(sorted(t["names"]) == sorted(want), "tecplot_names", "variables lack %r, have also %r" % (sorted(set(want) - set(t["names"])), sorted(set(t["names"]) - set(want))))
    cells = {q for (k, q) in how if k == "cell"}
    for z, r in zip(t["zones"], dev.regions):
        what = "zone %s" % r
        saved = dev.shown[r]
        dev.shown[r] = {}
        w = dev.expect(r)
        edges = dev.models(r, "edge")
        # the vectors, whatever they are shown as in this region
        dev.shown[r] = {q: "vector" for (k, q), v in how.items() if v == "vector" and q in edges}
        w["vector"] = dev.expect(r)["vector"]
        dev.shown[r] = saved
        ctx.check(z["nodes"] == len(w["x"]) and z["elements"] == len(w["elements"]) and z["per"] == w["elements"].shape[1], "tecplot_zone", "%s: %d nodes and %d elements" % (what, z["nodes"], z["elements"]))
        if z["con"] is not None:
            same_elements(ctx, z["con"], w["elements"], "tecplot_cells", what)
            if dev.dim == 3:
                p = w["x"][z["con"]]
                vol = np.einsum("ij,ij->i", p[:, 1] - p[:, 0], np.cross(p[:, 2] - p[:, 0], p[:, 3] - p[:, 0]))
                ctx.check((vol > -1e-9 * np.abs(vol).max()).all() or (vol < 1e-9 * np.abs(vol).max()).all(), "tecplot_cells", "%s: tetrahedra of both orientations" % what)
        ctx.check(z["cells"] == cells, "tecplot_names", "%s: variables of cells are %r and not %r" % (what, sorted(z["cells"]), sorted(cells)))

        def val(q, cell=False):
            v = z["values"].get((q, cell))
            return np.array(v.pop(0)) if v else None
        zero = np.zeros(len(w["x"]))
        for i, a in enumerate(axes):
            near(ctx, val(a), w["x"][:, i], np.abs(w["x"][:, i]), "tecplot_data", "%s: %s" % (what, a), rel=6e-6)
        for (k, q), v in sorted(how.items(), key=lambda x: ({"node": 0, "edge": 1, "cell": 2}[x[0][0]], x[1] == "vector", x[0][1])):
            if k == "node":
                x = w["exact"].get(q, zero)
                near(ctx, val(q), x, np.abs(x), "tecplot_data", "%s: %s" % (what, q), rel=6e-6)
            elif k == "edge" and v == "scalar":
                x, mag = w["node"].get(q, (zero, zero))
                near(ctx, val(q), x, mag, "tecplot_data", "%s: %s" % (what, q), rel=6e-6)
            elif k == "edge":
                x, mag = w["vector"].get(q, (np.zeros((len(zero), 3)), np.zeros((len(zero), 3))))
                for i, a in enumerate(axes):
                    near(ctx, val("%s_%s_onNode" % (q, a)), x[:, i], mag[:, i], "tecplot_vector", "%s: %s_%s" % (what, q, a), rel=6e-6)
                ctx.count("tecplot_vectors")
            else:
                x, mag = w["cell"].get(q, (np.zeros(z["elements"]), np.zeros(z["elements"])))
                near(ctx, val(q, True), x, mag, "tecplot_cell_data", "%s: %s" % (what, q), rel=6e-6)
        ctx.count("zones")
    ctx.count("tecplot_%dd" % dev.dim)


def run_case(ctx, case):
    rs = ctx.np()
    rng = ctx.rng
    what = case["what"]
    sim.reset()
    dim = rng.choice([1, 2, 2, 3])
    if rng.random() < 0.1:
        ds.set_parameter(name="extended_model", value=True)
        ctx.count("extended")
    if what == "large":
        # arrays which end at or next to the end of a block
        kind = rng.choice(["line", "grid", "points", "line", "triangles"])
        n = rng.choice([1, 1, 2, 3]) * BLOCK + rng.choice([0, 0, 0, 0, -1, 1, rng.randint(-3000, 3000)])
        if kind == "points":
            n = rng.choice([BLOCK // 2 * 3, BLOCK, 2 * BLOCK // 3 + rng.randint(-1, 2), BLOCK // 4 * 3])
        n = min(n, 9000) if ctx.kind == "plain" else min(n, 4097)
        if kind in ("grid", "triangles"):
            dim = 2
            nx, ny = (64, 64) if kind == "grid" else (33, 65)
            if rng.random() < 0.3:
                nx += 1

            def mesh(name):
                ds.create_2d_mesh(mesh="big")
                ds.add_2d_mesh_line(mesh="big", dir="x", pos=0.0, ps=1.0 / (nx - 1), ns=1.0 / (nx - 1))
                ds.add_2d_mesh_line(mesh="big", dir="x", pos=1.0, ps=1.0 / (nx - 1), ns=1.0 / (nx - 1))
                ds.add_2d_mesh_line(mesh="big", dir="y", pos=0.0, ps=1.0 / (ny - 1), ns=1.0 / (ny - 1))
                ds.add_2d_mesh_line(mesh="big", dir="y", pos=1.0, ps=1.0 / (ny - 1), ns=1.0 / (ny - 1))
                ds.add_2d_region(mesh="big", region="r", material="m")
                ds.finalize_mesh(mesh="big")
                ds.create_device(mesh="big", device=name)
        else:
            dim = 1

            def mesh(name):
                sim.line_device(name, n, 1.0, region="r")
        dev = Device(ctx, rs, dim, mesh=mesh)
        counts = [len(dev.expect("r")["x"]), len(dev.expect("r")["elements"])]
        if any(c % BLOCK == 0 or 3 * c % BLOCK == 0 for c in counts):
            ctx.count("whole_blocks")
        ctx.count("large")
    else:
        dev = Device(ctx, rs, dim, odd=rng.random() < 0.3, name=DEV if rng.random() < 0.8 else "my device")
        if what == "conflict" or (what == "small" and rng.random() < 0.2):
            for r in dev.regions:
                if rng.random() < 0.8:
                    ds.edge_from_node_model(device=dev.name, region=r, node_model="P")
                    t = rng.choice(["scalar", "nodisplay", "vector"])
                    ds.edge_model(device=dev.name, region=r, name="mixed", equation="P@n0-P@n1", display_type=t)
                    dev.shown[r]["mixed"] = t
                if rng.random() < 0.8:
                    t = rng.choice(["scalar", "nodisplay"])
                    ds.node_model(device=dev.name, region=r, name="mixedn", equation="P+P", display_type=t)
                    dev.shown[r]["mixedn"] = t
                if dim > 1 and rng.random() < 0.8:
                    ds.element_from_node_model(device=dev.name, region=r, node_model="P")
                    t = rng.choice(["scalar", "nodisplay"])
                    ds.element_model(device=dev.name, region=r, name="mixedl", equation="P@en0+P@en1", display_type=t)
                    dev.shown[r]["mixedl"] = t
            ctx.count("conflicts")
    where = ctx.dir = os.path.join(ctx.scratch, "v%d" % case["k"])
    os.makedirs(where, exist_ok=True)
    sub = rng.choice(["", "sub", "sub/two words", "a&b"])
    os.makedirs(os.path.join(where, sub), exist_ok=True)
    cwd = os.getcwd()
    keep, kw = (lambda q: True), {}
    if what == "filter" or rng.random() < 0.1:
        names = sorted({q for r in dev.regions for k in ("node", "edge", "element") for q in dev.models(r, k)})
        chosen = set(rng.sample(names, rng.randint(0, len(names))))
        asked = []
        truth = rng.choice([(True, False), (1, 0), ("yes", ""), ([0], None)])

        def test(q):
            asked.append(q)
            return truth[0] if q in chosen else truth[1]
        keep, kw = (lambda q: q in chosen), {"include_test": test}
        ctx.count("filters")
    if rng.random() < 0.5:
        kw["device"] = dev.name
    try:
        os.chdir(where)
        rel = rng.random() < 0.6
        path = os.path.join(sub, "out") if rel else os.path.join(where, sub, "out")
        if rel and sub:
            ctx.count("relative")
        if what == "refused":
            refused(ctx, dev, rs)
            return
        if what == "fault":
            fault(ctx, dev, kw)
            return
        if what == "large" and rng.random() < 0.3:
            check_one(ctx, dev, "tecplot", path, keep, kw)
        check_one(ctx, dev, "vtk", path, keep, kw)
        if what != "large":
            check_one(ctx, dev, "tecplot", path, keep, kw)
            if rng.random() < 0.3:
                # written again, after values changed
                r = rng.choice(dev.regions)
                ds.set_node_values(device=dev.name, region=r, name="P", values=Device.some(rs, len(sim.nv(dev.name, r, "P"))))
                check_one(ctx, dev, rng.choice(["vtk", "tecplot"]), path, keep, kw)
                ctx.count("again")
    finally:
        os.chdir(cwd)
        shutil.rmtree(where, ignore_errors=True)
    ctx.distinct(what, dim, len(dev.regions), tuple(sorted(set(v for r in dev.regions for v in dev.shown[r].values()))), sum(len(sim.nv(dev.name, r, "x")) for r in dev.regions), bool(kw.get("include_test")))


def check_one(ctx, dev, ty, path, keep, kw):
    if ty == "vtk":
        ds.write_devices(file=path, type="vtk", **kw)
        check_vtk(ctx, dev, os.path.abspath(path), keep)
    else:
        ds.write_devices(file=path + ".dat", type="tecplot", **kw)
        check_tecplot(ctx, dev, os.path.abspath(path + ".dat"), keep)


def gives_error(ctx, key, what, **kw):
    try:
        ds.write_devices(**kw)
    except ds.error as e:
        ctx.count("reported")
        return str(e)
    ctx.violation(key, "%s: write_devices succeeds" % what)
    return ""


def refused(ctx, dev, rs):
    rng = ctx.rng
    ty = rng.choice(["vtk", "tecplot"])
    f = os.path.join(ctx.dir, "r.dat")
    w = rng.choice(["device", "two", "nodir", "blocked", "callback", "late", "notcall", "model", "native", "type", "args"])
    before = sorted(ds.get_device_list())
    if w == "device":
        gives_error(ctx, "refused", "an unknown device", file=f, type=ty, device="nope")
    elif w == "two":
        m = sim.any_mesh(rs, dim=dev.dim)
        m.build("other")
        gives_error(ctx, "refused", "two devices in one file", file=f, type=ty)
        check_one(ctx, dev, ty, os.path.join(ctx.dir, "one"), lambda q: True, {"device": dev.name})
    elif w == "nodir":
        gives_error(ctx, "refused", "a directory which is not there", file=os.path.join(ctx.dir, "not", "there"), type=ty)
    elif w == "blocked":
        # a directory where a file has to be
        if ty == "tecplot":
            os.makedirs(f)
            gives_error(ctx, "refused", "a directory in place of the file", file=f, type=ty)
        else:
            s = rng.choice([".vtm", ".visit"] + ["_%d.vtu" % i for i in range(len(dev.regions))])
            os.makedirs(f + s)
            gives_error(ctx, "refused", "a directory in place of *%s" % s, file=f, type=ty)
    elif w in ("callback", "late"):
        names = sorted({q for r in dev.regions for q in dev.models(r, rng.choice(["node", "edge"]))} - {"x", "y", "z"})
        bad = rng.choice(names) if w == "late" else ""

        def test(q):
            if q == bad:
                raise ValueError("no")
            return True
        gives_error(ctx, "callback", "include_test fails for %r" % bad, file=f, type=ty, include_test=test)
    elif w == "notcall":
        gives_error(ctx, "refused", "include_test is not a function", file=f, type=ty, include_test=rng.choice([5, "x", [1]]))
    elif w == "args":
        gives_error(ctx, "refused", "include_test takes no argument", file=f, type=ty, include_test=lambda: True)
    elif w == "native":
        gives_error(ctx, "refused", "include_test for a native file", file=f, type=rng.choice(["devsim", "devsim_data"]), include_test=lambda q: True)
    elif w == "type":
        gives_error(ctx, "refused", "an unknown type", file=f, type="vtu")
    elif w == "model":
        r = rng.choice(dev.regions)
        k = {"device": dev.name, "region": r}
        if rng.random() < 0.5:
            ds.node_model(name="bad", equation="1/(node_index-1)", **k)
        else:
            ds.edge_model(name="bad", equation="log(edge_index)", **k)
        gives_error(ctx, "refused", "a model which cannot be computed", file=f, type=ty)
    ctx.check(set(before) <= set(ds.get_device_list()), "refused", "devices are gone after an error")
    if w != "model":
        check_one(ctx, dev, ty, os.path.join(ctx.dir, "after"), lambda q: True, {"device": dev.name})
    ctx.count("refused_" + w)
    ctx.distinct("refused", w, ty, dev.dim)


def fault(ctx, dev, kw):
    """the file system takes only so many bytes of each file: less than all of the data has to be reported"""
    rng = ctx.rng
    ty = rng.choice(["vtk", "tecplot"])
    base = os.path.join(ctx.dir, "f")
    ds.write_devices(file=base, type=ty, **kw)
    sizes = {q: os.path.getsize(os.path.join(ctx.dir, q)) for q in os.listdir(ctx.dir) if q.startswith("f") and os.path.isfile(os.path.join(ctx.dir, q))}
    most = max(sizes.values())
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for limit in sorted({rng.randint(0, most - 1), max(most - rng.randint(1, 60), 0), rng.choice(sorted(sizes.values())) - 1}):
        if limit < 0:
            continue
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                ds.write_devices(file=os.path.join(ctx.dir, "g"), type=ty, **kw)
                ok = True
            except ds.error:
                ok = False
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        ctx.check(not ok, "fault", "%s files of %r bytes are written without an error where files of %d bytes are possible" % (ty, sorted(sizes.values()), limit))
        ctx.count("full_disk")
    for suffix in ([".vtm", ".visit"] + ["_%d.vtu" % i for i in range(len(dev.regions))] if ty == "vtk" else [""]):
        link = os.path.join(ctx.dir, "k" + suffix)
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink("/dev/full", link)
        gives_error(ctx, "fault", "a full device as *%s" % suffix, file=os.path.join(ctx.dir, "k"), type=ty, **kw)
        os.unlink(link)
        ctx.count("full_device")
    keep = (lambda q: True) if "include_test" not in kw else (lambda q: bool(kw["include_test"](q)))
    check_one(ctx, dev, ty, os.path.join(ctx.dir, "h"), keep, kw)
    ctx.distinct("fault", ty, dev.dim)
