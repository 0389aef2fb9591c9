from run import Shard

RULE = ("Random systems as for C08 at random states (a linear solver that changes nothing holds the state), and random diffusion, drift and reaction problems at steady state, with circuits tied to contacts, "
        "contacts sharing nodes, interfaces, cylindrical and user chosen control volumes, extended precision, and sweeps of the bias. Every contact current and charge is compared with the integral of its models over the "
        "nodes the contact equation owns; at steady state the currents of each unknown of a device must add up to its sources, and the currents into every circuit node to zero. Distinct: different contact equations.")
TECHNIQUE = "runtime monitoring: reported currents and charges against an independent integral, conservation monitors at every solution, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the systems generated. The models and control volumes integrated are those of C01, C06 and C07."
MUST_OBSERVE = ["terminals", "balances", "circuit_nodes", "tied_terminals", "sweep_steps", "extended", "cylindrical", "with_edge_element_node", "with_edge_node", "with_element_node", "with_edge", "with_node"]


def shards(tier, seed):
    per = 250 if tier == "quick" else 1500
    out = [Shard("terminals", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("terminals", "asan", n=per // 4, offset=100000), Shard("terminals", "asan", n=per // 4, offset=200000)]
    return out
