from run import Shard

RULE = ("Random histories (30 to 60 operations) over up to two devices of 1D, 2D and 3D with up to two regions, contacts and interfaces: parameters at three scopes, circuit nodes, assignments "
        "(all, one, uniform, copied), definitions and redefinitions of every kind of model, deletions, cycles, parameters that are text, floating point exceptions, contacts made from interfaces, and "
        "partial reads; after a few operations every model is read and compared with a newly built device holding the same inputs and definitions. Distinct: different (operation, dimension, position).")
TECHNIQUE = "runtime monitoring: differential oracle (device with a history against a fresh device), AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the histories generated; correctness of a fresh evaluation is C02, C06 and C07."
MUST_OBSERVE = ["operations", "comparisons", "same_errors", "cyclic_reads", "deletions", "copies", "def_interface", "def_contact", "def_contact_edge", "def_gradient", "def_field", "partial_reads"]


def shards(tier, seed):
    per = 250 if tier == "quick" else 1500
    out = [Shard("freshness", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("freshness", "asan", n=per // 3, offset=100000), Shard("freshness", "asan", n=per // 3, offset=200000)]
    return out
