from run import Shard

RULE = ("Meshes from lines: 1 to 4 (sometimes 17 to 40) regions in 1D, 1 to 5 boxed regions over graded grids in 2D, scales from 1e-9 to 1e7 with offsets, spacings equal, graded, too coarse and round, lines, regions, contacts and interfaces given in any "
        "order, tags nobody uses, boxes with sides left out or exchanged, several boxes for one name. Against the description: points (every line, first and last steps, monotonic grading, number and position of all), nodes, triangles, edges, "
        "area, contacts, interface pairs, materials; first contact, then first interface wins a node. About 50 inconsistent descriptions have to fail with a message, leave devices as they were, and give the right mesh once corrected in place "
        "or made again. Distinct: kind and size of description, kind of inconsistency and the command which refuses it.")
TECHNIQUE = "runtime monitoring: devices compared node by node with an independent account of the lines, boxes and tags, AddressSanitizer/UBSan build"
LEVEL_NOTE = ("Held on the descriptions generated. Descriptions for which the number of points depends on rounding are left out, and so are contacts whose region is covered completely, and axes more than a factor of 100 apart in scale.")
MUST_OBSERVE = ["spans", "devices_1d", "devices_2d", "regions_2d", "several_regions", "several_boxes", "many_regions", "contacts", "interfaces", "second_device", "refused", "refused_at_finalize_mesh", "refused_at_create_device",
                "corrected", "corrected_late", "after", "scale_1e-09", "scale_1e+07"]


def shards(tier, seed):
    per = 2500 if tier == "quick" else 40000
    out = [Shard("mesher", "plain", n=per, offset=i * per, timeout=600) for i in range(6)]
    out += [Shard("mesher", "asan", n=per // 4, offset=(1 + i) * 100000, timeout=600) for i in range(2)]
    return out
