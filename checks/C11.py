from run import Shard

RULE = ("Random nonlinear systems with charges on one or two devices of 1D, 2D and 3D, interfaces and circuits, stepped with backward Euler, trapezoidal, BDF2 and their composition TR-BDF2 with random steps, gammas "
        "and changes of sources between steps. Each accepted step is compared with an independent Newton solution of the textbook difference equation whose charges and currents are those of the steps that were accepted, "
        "the reported charge error with the definition, terminal currents and charges with the residuals. Steps refused for the charge error, tolerances, iterations, divergence and injected faults must leave solution, "
        "terminals and history as they were; DC solves in between and switching the precision of the solver must not disturb the history. The order of each method is measured against the exact solution of a linear problem. "
        "Distinct: different system shapes, method sequences and refusals.")
TECHNIQUE = "runtime monitoring: online check of every step against the difference equation over a recorded history, fault injection with bitwise state comparison, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the histories generated (up to about a dozen steps each)."
MUST_OBSERVE = ["transient_dc", "transient_bdf1", "transient_tr", "transient_bdf2", "accepted", "charge_errors", "rejected", "refuse_charge", "refuse_fault", "refuse_iterations", "refuse_maximum", "dc_between", "driven",
                "order_transient_bdf1", "order_transient_tr", "order_transient_bdf2", "order_trbdf", "constant", "double", "extended", "initial", "without_history", "restarted"]


def shards(tier, seed):
    per = 160 if tier == "quick" else 1000
    out = [Shard("transient", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("transient", "asan", n=per // 5, offset=100000), Shard("transient", "asan", n=per // 5, offset=200000, plan=["reject", "precision", "initial", "missing"])]
    return out
