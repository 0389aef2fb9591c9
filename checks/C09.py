from run import Shard

RULE = ("Random nonlinear problems of up to three unknowns on one or two devices of 1D, 2D and 3D, interfaces and circuits, solved from random states under random tolerances, limits of iterations, error and "
        "divergence and every variable update. Each iteration's errors of every equation, region, device and the circuit, their nodes, the number of iterations, the verdict and the solution are compared with an "
        "independent Newton iteration on an independent assembly (skipped where a verdict depends on rounding: a neighbouring start decides). Faults at a chosen call: Python callbacks of models, equations and "
        "linear solvers that raise or answer nonsense, floating point errors in models, updates of nan, inf and 1e308; after each, and after every solve that did not converge, the solution must be bit by bit that from "
        "before, and a next solve must follow the independent iteration again. Distinct: different system shapes and faults.")
TECHNIQUE = "runtime monitoring: every reported iteration followed by an independent Newton iteration, fault injection with bitwise state comparison, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the problems generated; the linear solver under the simulator is a LAPACK stand-in or the Python one of the harness."
MUST_OBSERVE = ["followed", "iterations", "equation_errors", "end_converged", "end_iterations", "end_maximum_error", "end_divergence", "restored", "positive", "nonpositive", "after_fault",
                "fault_custom", "fault_function", "fault_raise", "fault_status", "fault_size", "fault_keys", "fault_nan", "fault_inf", "fault_type", "fault_log", "fault_singular", "fault_huge"]


def shards(tier, seed):
    per = 160 if tier == "quick" else 1000
    out = [Shard("newton", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("newton", "asan", n=per // 6, offset=100000), Shard("newton", "asan", n=per // 5, offset=200000, plan=["fault"])]
    return out
