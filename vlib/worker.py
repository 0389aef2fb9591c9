"""Runs the cases of one shard and writes what it observed."""
import faulthandler, hashlib, importlib, json, os, random, sys, time, traceback


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class Ctx:
    """What a case can use: a seeded generator, and calls to record what is observed."""

    def __init__(self, spec, out):
        self.spec, self.out, self.kind = spec, out, spec["kind"]
        self.args = spec["args"]
        self.seed0 = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.scratch = spec["scratch"]

    def start(self, case):
        self.case = case
        self.counts, self.dist, self.samples, self.nviol = {}, set(), [], 0
        self.rng = random.Random("%s/%s/%s" % (self.seed0, self.spec["worker"], case.get("seedkey", case["id"])))

    def np(self):
        import numpy
        return numpy.random.RandomState(self.rng.getrandbits(32))

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)

    def distinct(self, *what):
        self.dist.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, msg, detail=None):
        self.nviol += 1
        if self.nviol <= 20:
            self.out({"t": "viol", "key": key, "msg": str(msg)[:1500], "detail": str(detail)[:4000] if detail is not None else None, "case": self.case, "kind": self.kind})

    def check(self, ok, key, msg, detail=None):
        self.count("checks")
        if not ok:
            self.violation(key, msg() if callable(msg) else msg, detail)
        return ok

    def close(self, got, want, key, what, rtol=1e-9, atol=0.0, scale=None):
        """elementwise |got-want| <= atol + rtol*max(|want|, scale)"""
        import numpy as np
        got, want = _real(got), _real(want)
        self.count("values", max(got.size, 1))
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                self.violation(key, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
                return False
        sc = np.abs(want) if scale is None else np.maximum(np.abs(want), scale)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got - want) <= atol + rtol * sc) & ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            i = np.argwhere(bad)[0]
            self.violation(key, "%s: at %s of %s got %r, expected %r (%d of %d differ)" % (what, i.tolist(), list(got.shape), float(got[tuple(i)]), float(want[tuple(i)]), int(bad.sum()), got.size))
            return False
        return True


def _real(x):
    import numpy as np
    x = np.asarray(x)
    if np.iscomplexobj(x):
        x = np.ascontiguousarray(x).reshape(-1).view(float)
    return np.asarray(x, dtype=float)


def main():
    faulthandler.enable()
    spec = json.loads(sys.argv[1])
    f = open(spec["res"], "w", encoding="utf-8")

    def out(r):
        f.write(json.dumps(r, default=str) + "\n")
        f.flush()

    mod = importlib.import_module("workers." + spec["worker"])
    ctx = Ctx(spec, out)
    if getattr(mod, "init", None):
        mod.init(ctx)
    i = -1
    keep = sys.stdout
    if not os.environ.get("VERIF_STDOUT"):
        sys.stdout = open(os.devnull, "w")
    for i, case in enumerate(mod.cases(ctx)):
        if i < spec["start"] or (spec["only"] is not None and i != spec["only"]):
            continue
        case = dict(case, i=i)
        case.setdefault("id", str(i))
        out(dict(case, t="begin"))
        ctx.start(case)
        t = time.time()
        try:
            mod.run_case(ctx, case)
        except Skip as e:
            ctx.count("skipped")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [x for x in tb if "/workers/" in x.filename or "/vlib/" in x.filename]
            w = where[-1] if where else tb[-1]
            ctx.violation("exception:%s" % case["id"], "%s: %s at %s:%s (%s)" % (type(e).__name__, str(e)[:600], os.path.basename(w.filename), w.lineno, w.line), traceback.format_exc()[-3000:])
        out({"t": "end", "i": i, "id": case["id"], "s": round(time.time() - t, 3), "counts": ctx.counts, "distinct": sorted(ctx.dist), "samples": ctx.samples})
    out({"t": "done"})
    f.close()
    sys.stdout = keep
    os._exit(0)


if __name__ == "__main__":
    from vlib import worker
    worker.main()
