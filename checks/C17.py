from run import Shard

RULE = ("Meshes of 1, 2 and 3 dimensions are written as Gmsh files (2.1 and 2.2, nodes with any numbers in any order, sections in any order, several groups for a part, elements listed twice, groups with and without names, UTF-8 names, "
        "numbers reused in other dimensions, groups nobody uses, tabs, CRLF) and as arrays, and the device made from them is compared with the description: nodes, elements, edges, contacts, interface pairs, materials, all exactly once. "
        "About 60 ways of damaging files, arrays and the commands that refer to them, cuts at any byte and random noise: what is malformed has to fail with a message, leave all devices as they were, and leave the names free for the "
        "undamaged mesh, which is loaded right after. Distinct: way in, dimension, number of regions and groups, kind of damage.")
TECHNIQUE = "runtime monitoring: devices compared with the description they were written from, files damaged in known ways and cut at random bytes, AddressSanitizer/UBSan build"
LEVEL_NOTE = ("Held on the meshes generated. Damage is judged where the format leaves no doubt; random noise is only required not to crash and not to affect what follows. Node numbers beyond 10^7 are not tried, as memory is allocated up to the largest.")
MUST_OBSERVE = ["files", "arrays", "1d", "2d", "3d", "repeated", "points", "unused", "merged", "bad_files", "cut_files", "bad_arrays", "bad_maps", "noise", "after", "contacts", "interfaces",
                "refused_at_create_gmsh_mesh", "refused_at_finalize_mesh", "refused_at_create_device"]


def shards(tier, seed):
    per = 2000 if tier == "quick" else 40000
    out = [Shard("imported", "plain", n=per, offset=i * per, timeout=300) for i in range(6)]
    out += [Shard("imported", "asan", n=per // 4, offset=(1 + i) * 100000, timeout=300) for i in range(2)]
    return out
