"""C14: the sparse matrices, factorisations and iterative methods themselves, in histories made by harness/linalg.cc."""
import ctypes, json, os
from vlib.worker import Skip


def init(ctx):
    so = os.environ.get("VERIF_LINALG_" + ctx.kind)
    ctx.lib = ctypes.CDLL(so) if so else None
    if ctx.lib:
        ctx.lib.linalg_run.restype = ctypes.c_char_p
        ctx.lib.linalg_run.argtypes = [ctypes.c_ulong, ctypes.c_int, ctypes.c_char_p]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    for i in range(n):
        yield {"id": "linalg#%d" % (o + i), "k": o + i}


def run_case(ctx, case):
    if ctx.lib is None:
        ctx.count("harness_unavailable")
        raise Skip()
    r = json.loads(ctx.lib.linalg_run(ctx.seed0 * 1000000 + case["k"], ctx.args.get("per", 70), (ctx.args.get("only") or "").encode()))
    for k, v in r.get("counts", {}).items():
        ctx.count(k, v)
    ctx.check("error" not in r, "harness", str(r.get("error")))
    for key, msg in r.get("bad", []):
        ctx.violation(key, msg)
    ctx.distinct("linalg", case["k"])
