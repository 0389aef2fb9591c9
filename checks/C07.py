from run import Shard

RULE = ("Random 1D, 2D (right, acute, arbitrary triangles) and 3D meshes of one or two regions at several scales, with random solutions, node models and edge models of two variables: ends, the four averages and their derivatives, node "
        "gradients of both kinds with zeros among the values, element fields, node pairs, vectors and their derivatives, redefined and re-read after changes, against an evaluation from positions and corner systems; fields and gradients of linear "
        "potentials against their slope; derivative models against central differences of the model itself when the solution changes at one node. Values given and copied on nodes, edges and elements are compared bit for bit; faulty "
        "arguments have to be refused without effect. Distinct: kind of model and dimension.")
TECHNIQUE = "runtime monitoring: numpy oracle from positions and connectivity, differences of the running model, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the meshes and values generated; weights of the element field are the element edge couples checked by C06."
MUST_OBSERVE = ["dim1", "dim2", "dim3", "extended", "compared", "differences", "average_arithmetic", "average_geometric", "average_gradient", "average_negative_gradient", "made_field", "made_pair", "made_vector", "made_ends",
                "gradient_default", "gradient_avoidzero", "linear", "linear_fields", "stored_node", "stored_edge", "stored_element", "rejected", "rejected_1d"]


def shards(tier, seed):
    per = 300 if tier == "quick" else 3000
    out = [Shard("fields", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("fields", "asan", n=per // 5, offset=100000), Shard("fields", "asan", n=per // 5, offset=200000)]
    return out
