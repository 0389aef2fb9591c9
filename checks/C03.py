from run import Shard

RULE = ("Random models: 1 to 3 terminals and 0 to 2 internal nodes, parameters with defaults of every format, models using models, all operators and functions of the language, declared functions with given derivatives, derivatives in expressions, "
        "names which resemble generated ones, commands in any order. The generated code is compiled (some also with the simulator's circuit classes), run at random solutions with terminals connected to each other and to ground, with default and new "
        "parameters, in dc and transient assembly with and without a matrix; all values and derivatives are compared with an evaluation of the text by automatic differentiation. Descriptions with about 30 kinds of errors, cut or changed at random, "
        "and disks which are full have to fail with a message and without generated files. Distinct: numbers of nodes, parameters and models, functions and operators used, and kinds of errors.")
TECHNIQUE = "runtime monitoring: generated code executed against an independent evaluation of the model with automatic differentiation, AddressSanitizer/UBSan build of the compiler"
LEVEL_NOTE = ("Held on the models generated, where the values are finite and comparisons are not decided by rounding. Comparison within 1e-11 of the magnitudes which enter each value. Names of C++ keywords and generated members are not tried, and "
              "models named as the derivative of another one (d_a_d_x) are accepted as such, which is how derivatives are given by hand.")
MUST_OBSERVE = ["models", "value_dc", "value_time", "derivative_dc", "derivative_time", "interface", "broken", "broken_cut", "broken_file", "broken_undefined", "broken_noise", "has_diff", "has_expand", "has_cmp", "has_call", "has_mod", "has_scaled", "has_signed",
                "has_power", "has_log", "function_uf3", "function_cos"]


def prepare(B):
    out = {}
    for k in ("plain", "asan"):
        py, mth, b = B.build(k, targets=("devsim_py3", "modelcomp") if k == "plain" else ("modelcomp",))
        out["VERIF_MODELCOMP_" + k] = b + "/src/adiff/modelcomp"
    return out


def shards(tier, seed):
    per = 24 if tier == "quick" else 400
    out = [Shard("modelcomp", "plain", n=per, offset=i * per, timeout=800) for i in range(6)]
    out += [Shard("modelcomp", "plain", n=per, offset=(1 + i) * 100000, mc="asan", plan=["broken", "models"], timeout=800) for i in range(2)]
    return out
