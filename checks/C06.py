from run import Shard

RULE = ("Random simplex meshes (1D/2D/3D; right, acute and arbitrary Delaunay triangles; Kuhn and Delaunay tetrahedra; 1-3 regions, permuted node numbers, "
        "scales 1e-6..1e3, double and extended models) with contacts and interfaces; every built-in geometry model of every region is compared with a "
        "recomputation from coordinates. Distinct: different (dimension, kind, regions, size, scale).")
ASSUMPTIONS = ["distances from edge middle to circumcentre are taken unsigned, as documented for the perpendicular bisector construction; partition sums are only required for elements containing their circumcentre"]
TECHNIQUE = "runtime monitoring: sanitized simulator runs on random meshes, online oracle recomputes every geometry model"
LEVEL_NOTE = "Held on the meshes generated; oracle is an independent numpy computation from coordinates. Trusts numpy/scipy."
MUST_OBSERVE = ["edges", "element_edges", "partitions", "cylindrical", "interface_normals"]


def shards(tier, seed):
    per = 60 if tier == "quick" else 240
    out = [Shard("geometry", "plain", n=per, offset=i * per) for i in range(7)]
    out.append(Shard("geometry", "asan", n=per // 3, offset=100000))
    return out
