from run import Shard

RULE = ("Random systems on one or two devices of 1D, 2D and 3D: up to three unknowns per region with every kind of bulk term (node, edge, edge volume, element, element volume, time), contacts that share "
        "nodes, contact equations with every kind of model tied to circuit nodes or not, continuous, fluxterm and hybrid interface equations, custom equations, circuits, user chosen and cylindrical control "
        "volumes, extended precision. The compressed matrix, right hand side and permutation are compared entry by entry with an independent assembly, as built and after deleting and replacing equations. "
        "Distinct: different shape of the system (terms used, contacts, circuit, dimension).")
TECHNIQUE = "runtime monitoring: online comparison of every assembled entry with an independent assembly (error-bounded oracle), AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the systems generated; the control volume quantities used are those of C06."
MUST_OBSERVE = ["systems", "entries", "dim1", "dim2", "dim3", "cylindrical", "extended", "custom_equations", "interface_continuous", "interface_fluxterm", "interface_hybrid", "contact_circuit",
                "bulk_edge_volume_model", "bulk_volume_node0_model", "bulk_volume_node1_model", "bulk_time_node_model", "contact_edge_charge_model", "contact_element_current_model", "op_var_swap", "own_weight", "partial_reported", "made_interfaces", "made_within_region", "made_contacts"]


def shards(tier, seed):
    per = 250 if tier == "quick" else 1500
    out = [Shard("assembly", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("assembly", "asan", n=per // 4, offset=100000), Shard("assembly", "asan", n=per // 4, offset=200000)]
    return out
