"""Independent reader of the structure in DEVSIM's own mesh files (what write_devices writes)."""
import shlex


def structure(path, device=None):
    """regions name -> (material, coordinate indexes of the nodes, {kind: element tuples}); contacts name -> (region, material, nodes, {kind: elements});
    interfaces name -> (region0, region1, pairs, {kind: elements}); node numbers are the region's"""
    devs, cur, part, rows = {}, None, None, None
    with open(path) as f:
        for line in f:
            w = line.split()
            if not w:
                continue
            k = w[0]
            if k.startswith("begin_"):
                kind = k[6:]
                a = shlex.split(line)
                if kind == "device":
                    cur = devs[a[1]] = {"coordinates": [], "regions": {}, "contacts": {}, "interfaces": {}}
                elif kind == "region":
                    part = cur["regions"][a[1]] = {"material": a[2]}
                elif kind == "contact":
                    part = cur["contacts"][a[1]] = {"region": a[2], "material": a[3]}
                elif kind == "interface":
                    part = cur["interfaces"][a[1]] = {"region0": a[2], "region1": a[3]}
                elif kind == "coordinates":
                    rows = cur["coordinates"]
                elif kind in ("nodes", "edges", "triangles", "tetrahedra"):
                    rows = part[kind] = []
                else:
                    rows = None
            elif k.startswith("end_"):
                rows = None
            elif rows is not None:
                rows.append(tuple(float(x) for x in w) if rows is cur["coordinates"] else tuple(int(x) for x in w))
    return devs if device is None else devs[device]
