from run import Shard

RULE = ("Random histories of setting parameters of every type of value at the three scopes, materials of regions and contacts, creating and deleting devices whose names come back, and wrong scopes, names and values. A model of the three "
        "scopes says what every read has to return (the same object), what is listed, and what node models using the name have to evaluate to, and is compared after every step at other scopes too. Values are written from lists, "
        "tuples, arrays, byte strings, numpy arrays of every type, order and stride, and objects, and have to read back equal; indices of every kind of integer have to be taken or refused. After a reset nothing is left and the objects of "
        "the user are no longer held. Distinct: name, type of value and scope, or kind of container, type of item and fault.")
TECHNIQUE = "runtime monitoring: online reference model over random command histories, reference count monitor, AddressSanitizer/UBSan build"
LEVEL_NOTE = "Held on the histories generated."
MUST_OBSERVE = ["set_region", "set_device", "set_global", "reads", "inherited", "models", "models_without", "materials", "created", "deleted", "bad_scope", "bad_parameter", "sweeps", "resets", "values_list", "values_tuple", "values_array",
                "values_numpy", "values_swapped", "values_strided", "values_view", "values_bytes", "values_strings", "values_scalars", "values_things", "bad_values", "indexes", "bad_index"]


def shards(tier, seed):
    per = 400 if tier == "quick" else 4000
    out = [Shard("params", "plain", n=per, offset=i * per) for i in range(6)]
    out += [Shard("params", "asan", n=per // 5, offset=100000), Shard("params", "asan", n=per // 5, offset=200000, plan=["history", "reset", "integers"])]
    return out
