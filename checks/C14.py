from run import Shard

RULE = ("Two sets of cases. A harness linked with the simulator's own libraries makes random histories of compressed matrices (accumulation in any order, cancelling and zero entries, clearing and refilling, patterns that grow) in both "
        "storages, real, complex and quad precision, and checks the arrays against a plain map of sums, products and transposed products, dense factorisation, the preconditioners and the iterative solver against exact residuals. "
        "Through the simulator, equations given by a callback are solved directly (each solver and format), in extended precision and iteratively, in AC and noise analysis, over iterations whose pattern changes; the matrix, right hand side, symbolic "
        "flag and solution are compared with the entries given, and with numpy's solution within the error bound of the factorisation. Solver errors are injected into each phase of the PARDISO stand-in and singular or non-finite systems given: "
        "a failure has to be reported, the old solution restored, and the next solve right. Distinct: solver, size and number of entries.")
TECHNIQUE = "runtime monitoring: differential monitors of matrices and solutions over random histories, in the simulator and in a harness on its libraries, fault injection into the solver library, AddressSanitizer/UBSan build"
LEVEL_NOTE = ("Held on the systems generated, with condition numbers below 1e8. PARDISO itself is a stand-in built on Eigen (the original is not available offline), so its own arithmetic is not under test, only how the simulator calls it. "
              "The iterative method may stop early without saying so inside a Newton iteration, which the Newton convergence test covers.")
MUST_OBSERVE = ["solves_mkl_pardiso", "solves_default", "solves_csc", "solves_csr", "patterns", "matrices", "same_symbolic", "new_symbolic", "pattern_changes", "fault_11", "fault_22", "fault_33", "complex_ac", "complex_noise", "complex_mkl_pardiso",
                "complex_csc", "complex_csr", "complex_matrices", "iterative", "extended", "circuit_lines", "singular_row", "singular_column", "singular_empty", "singular_nan", "singular_inf"]


def prepare(B):
    out = {}
    for k in ("plain", "asan"):
        try:
            out["VERIF_LINALG_" + k] = B.build_harness("linalg", k)
        except B.BuildError as e:
            B.build(k)
            # a change of the interfaces inside the simulator is not a violation; the cases through its commands remain
            print("harness linalg not built for %s: %s" % (k, str(e)[-300:]))
            out["VERIF_LINALG_" + k] = ""
    return out


def shards(tier, seed):
    per = 2000 if tier == "quick" else 20000
    out = [Shard("linear", "plain", n=per, offset=i * per) for i in range(4)]
    out += [Shard("linear", "asan", n=per // 4, offset=100000), Shard("linear", "asan", n=per // 4, offset=200000, plan=["pattern", "fault", "ac", "singular", "iterative"])]
    out += [Shard("linalg", "plain", n=per // 10, offset=0), Shard("linalg", "asan", n=per // 40, offset=100000)]
    return out
