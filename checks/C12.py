from run import Shard

RULE = ("Random systems with charges, contacts tied to circuits, interfaces and sources with small signal parts, at random and at steady operating points and frequencies from 0 to 1e12. Every node and circuit value of an AC solve is "
        "compared with a dense solution of the independently assembled linearisation, every value of a noise solve (transfer impedance from the bulk equation at a node, including contact and interface nodes, and its gradient fields) "
        "with a solution of the transposed system. The two must agree with each other by reciprocity, AC at frequency 0 with the change of the steady solution, and the linear solver (built in, or Python) must not matter. "
        "Faults of the Python solver and wrong outputs must raise and leave the operating point bit by bit as it was. Distinct: frequencies and system sizes.")
TECHNIQUE = "runtime monitoring: online comparison with an independent linearised solve, metamorphic reciprocity and finite difference oracles, fault injection, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the systems and frequencies generated where the linearised system has a condition number below 1e9."
MUST_OBSERVE = ["ac_solves", "ac_nonzero", "ac_values", "noise_solves", "noise_values", "noise_gradients", "noise_contact", "noise_permuted", "noise_copied", "operating_points", "reciprocal", "finite", "python", "altered",
                "wrong_output", "steady", "fault_raise", "fault_status", "fault_size", "fault_keys", "fault_nan", "fault_type"]


def shards(tier, seed):
    per = 250 if tier == "quick" else 1500
    out = [Shard("smallsignal", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("smallsignal", "asan", n=per // 5, offset=100000), Shard("smallsignal", "asan", n=per // 5, offset=200000, plan=["noise", "fault"])]
    return out
