from run import Shard

RULE = ("Devices of 1, 2 and 3 dimensions with one to three regions and models of every kind (builtin, assigned, expressions, derived; shown as scalars, vectors or not; named with odd characters; of different kinds in different regions; in extended "
        "precision) and lines and grids whose arrays end at or next to a block of the compressed data are written as VTK and Tecplot files, to relative and absolute places, with and without filters. An independent reader decodes every file "
        "(XML, base64, compressed blocks with the sizes they promise, zones and their variables) and every array is compared with the values the simulator gives, averaged to points or cells by the documented rule, "
        "every name with what has to be shown, every element with the region's. Failures (unknown devices, blocked files, files cut at a random number of bytes, failing filters and models) have to be reported and leave the next write right. "
        "Distinct: kind, dimension, regions and ways of showing.")
TECHNIQUE = "runtime monitoring: decoding monitors of the files against the simulator's values, I/O fault injection by file size limits, AddressSanitizer/UBSan build"
LEVEL_NOTE = ("Held on the devices generated, up to three blocks of data. Tecplot files have six digits, and a model is shown in all zones the way it is in the first region, which is how the format is written here and not judged.")
MUST_OBSERVE = ["vtk_1d", "vtk_2d", "vtk_3d", "tecplot_1d", "tecplot_2d", "tecplot_3d", "whole_blocks", "large", "conflicts", "filters", "relative", "vectors", "cell_data", "tecplot_vectors", "again", "full_disk", "reported",
                "refused_late", "refused_callback", "refused_model", "refused_blocked", "extended"]


def shards(tier, seed):
    per = 1200 if tier == "quick" else 20000
    out = [Shard("visual", "plain", n=per, offset=i * per, timeout=300) for i in range(6)]
    out += [Shard("visual", "asan", n=per // 6, offset=(1 + i) * 100000, timeout=300) for i in range(2)]
    return out
