from run import Shard

RULE = ("Systems, solves, transients, small signal, noise and terminals of the other checks with extended models, equations and solver switched on and off at random, everywhere, per device, per region and between operations: same "
        "oracles and tolerances. With everything extended: values with digits beyond a double in solutions, and models, derivatives, assembled residuals, lengths and volumes compared with a 50 digit evaluation to 1e-28 of their "
        "rounding scale; solves converge to 1e-24 with residuals below 1e-20 of it, transient steps likewise; the double solver gives the same to its accuracy. Values given, copied and set through either precision keep every bit of a double. "
        "Distinct: combinations of the three switches, model shapes.")
TECHNIQUE = "runtime monitoring: differential oracle between precisions and against 50 digit arithmetic, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the problems generated. Circuit values and Python results are double precision by design; the expression simplifier is a stand-in that does not round."
MUST_OBSERVE = ["combination_" + a + b + c for a in "01" for b in "01" for c in "01"] + ["mixed", "fine_models", "ones", "cancelled", "beyond_double", "fine_systems", "fine_solutions", "fine_steps", "tight_solves", "volumes", "stored", "coarse",
                "transient_tr", "transient_bdf1", "transient_bdf2", "ac_solves", "noise_solves", "followed", "terminals"]


def shards(tier, seed):
    per = 170 if tier == "quick" else 1200
    out = [Shard("precision", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("precision", "asan", n=per // 6, offset=100000), Shard("precision", "asan", n=per // 5, offset=200000, plan=["storage", "models", "fine_solve", "fine_steps", "ac"])]
    return out
