from run import Shard

RULE = ("Devices are written in the native format and loaded in a process which has forgotten them: random systems of equations, contacts, interfaces and circuits (their matrices are assembled before and after loading), devices with models of every kind "
        "(expressions, derivatives, gradients, averages, assigned values, nested parents), devices from the 1D and 2D meshers and contacts or interfaces made afterwards, several devices in one file, and files written by hand in every form the reader "
        "accepts. All lists, values, geometry, model commands and matrices have to be as they were, and a second save the same. Files are truncated and corrupted at random, targets made unwritable: the command has to report it, and what follows has to work. "
        "Distinct: kind, dimension and parts of the device.")
TECHNIQUE = "runtime monitoring: differential monitors of the complete visible state over save, forget and load, file corruption and I/O faults, AddressSanitizer/UBSan build"
LEVEL_NOTE = ("Held on the devices and files generated. Parameters and circuits are not part of the format, so they are given again by the harness before assembling; files are only corrupted in ways that do not turn one command into another "
              "command of the interpreter, since a native file may run any of them.")
MUST_OBSERVE = ["systems", "with_circuit", "assembled", "contents_1d", "contents_2d", "contents_3d", "built", "interface_from_nodes", "contact_from_interface", "truncations", "corruptions", "refused", "loaded_after_failure",
                "hand_files", "hand_contacts_by_nodes", "hand_contacts_by_edges", "hand_contacts_by_triangles", "hand_interfaces_by_edges", "hand_interfaces_by_triangles", "data_files", "unwritable", "full_disk", "second_saves"]


def shards(tier, seed):
    per = 1500 if tier == "quick" else 15000
    out = [Shard("saveload", "plain", n=per, offset=i * per, timeout=600) for i in range(6)]
    out += [Shard("saveload", "asan", n=per // 5, offset=(1 + i) * 100000, timeout=600) for i in range(2)]
    return out
