from run import Shard

RULE = ("Random netlists of resistors, capacitors, inductors and sources with aliases, two names of ground, damped and positive nodes, and random histories of adding, altering, setting, listing, solving and deleting. Every solve (DC, "
        "transient of every order, AC, noise) is compared with modified nodal analysis done by the monitor: equation numbers, residual balance of every node, the errors of every iteration, the verdict, and the values; a failed solve must leave "
        "the circuit as it was. Wrong elements, parameters, nodes and aliases must be rejected without an effect on the next solve. Devices tied to nodes or aliases have to act as the resistors they are, and models naming a node follow "
        "its value through solves, settings and deletion. Distinct: kind of analysis, elements, update types and number of aliases.")
TECHNIQUE = "runtime monitoring: online reference model (modified nodal analysis and damped Newton iteration) over random command histories, invariant monitors, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the netlists and histories generated; solutions are compared where the nodal matrix has a condition number below 1e9. The program has no controlled sources."
MUST_OBSERVE = ["element_R", "element_C", "element_L", "element_V", "element_I", "element_alias", "node_default", "node_log_damp", "node_positive", "alias", "alter_value", "alter_acreal", "alter_acimag", "invalid_element", "invalid_node",
                "invalid_alias", "invalid_alter", "locked_element", "set_value", "listings", "balances", "values", "iterations", "not_converged", "solved_dc", "solved_transient_dc", "solved_transient_bdf1", "solved_transient_tr",
                "solved_transient_bdf2", "steps", "ac", "noise", "damped", "impossible", "deleted", "deleted_models", "device_solves", "followed", "asked_early"]


def shards(tier, seed):
    per = 4000 if tier == "quick" else 20000
    out = [Shard("circuits", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("circuits", "asan", n=per // 5, offset=100000), Shard("circuits", "asan", n=per // 5, offset=200000, plan=["history", "device", "fail"])]
    return out
