from run import Shard

RULE = ("Random expressions of all operators and functions over node, edge and element edge models of 1D, 2D and 3D devices (lengths 2..2500; varying, uniform, zero/one, parameter, "
        "edge-on-element operands), evaluated serially and under several thread counts and task sizes; floating point exceptions and Python errors placed at chosen positions. "
        "Distinct: different (model kind, length, expression, position).")
TECHNIQUE = "runtime monitoring: numpy oracle with error bounds, bitwise comparison between thread schedules, AddressSanitizer/UBSan and ThreadSanitizer builds"
LEVEL_NOTE = "Held on the expressions, lengths and thread counts generated; races as far as ThreadSanitizer's happens-before analysis sees them in those runs."
MUST_OBSERVE = ["values", "really_threaded", "exceptions_expected", "python_errors", "edge_on_element", "reductions", "undefined"]


def shards(tier, seed):
    per = 240 if tier == "quick" else 2000
    out = [Shard("vectors", "plain", n=per, offset=i * per) for i in range(4)]
    out += [Shard("vectors", "asan", n=per // 2, offset=100000), Shard("vectors", "asan", n=per // 2, offset=200000)]
    out += [Shard("vectors", "tsan", n=per // 2, offset=300000), Shard("vectors", "tsan", n=per // 2, offset=400000)]
    return out
