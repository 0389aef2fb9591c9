from run import Shard

RULE = ("Devices in 1D, 2D and 3D with 1 to 4 regions, drawn contacts and interfaces (contacts sharing nodes with others), then 3 to 16 steps: interface models (expressions over variables, node models, parameters and coordinates of both sides, "
        "parameters without a side, circuit nodes, other interface models) and contact node and edge models with their derivative models, new values, parameters at any level, models defined anew or deleted, interfaces made from nodes (any nodes in any "
        "order, the nodes of another interface reversed, both sides in one region), contacts made from interfaces, refused commands and unknown names. After every step models are compared with an evaluation from the nodal values of both sides, contact models "
        "are zero elsewhere; structure (nodes, pairs in order, faces, regions, lists) with the mesh described. Distinct: dimensions, numbers of models, sequence of steps.")
TECHNIQUE = "runtime monitoring: interface and contact models compared with values taken node by node from both sides, structure compared with the mesh description, AddressSanitizer/UBSan build"
LEVEL_NOTE = ("Held on the histories generated. What a reference to a deleted model gives is left out, and so are values lost in rounding. The interface and contact equations which use these models are the subject of C08.")
MUST_OBSERVE = ["interface_models", "interface_derivatives", "contact_node_models", "contact_edge_models", "contact_node_derivatives", "contact_edge_derivatives", "users", "disagree", "within_region", "op_made_interface", "op_made_contact", "op_refused", "op_unknown",
                "op_delete", "op_parameter", "op_redefine", "op_redefine_contact", "op_redefine_node", "op_values", "op_circuit", "dim1", "dim2", "dim3", "contacts_seen", "interfaces_seen", "refused_existing", "refused_contact_existing", "refused_contact_other", "refused_past_end"]


def shards(tier, seed):
    per = 900 if tier == "quick" else 8000
    out = [Shard("pairing", "plain", n=per, offset=i * per, timeout=600) for i in range(6)]
    out += [Shard("pairing", "asan", n=per // 4, offset=(1 + i) * 100000, timeout=600) for i in range(2)]
    return out
