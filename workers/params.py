"""C05: parameters and materials against a model of the three scopes, and values crossing between Python and the simulator."""
import array, sys, weakref
import numpy as np
import devsim as ds
from vlib import sim
from vlib.worker import Skip

PLAN = ["history", "history", "history", "values", "reset", "integers"]


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


class Thing:
    """an object of the user"""

    def __init__(self, text="thing", number=None):
        self.text, self.number = text, number

    def __str__(self):
        if self.text is None:
            raise RuntimeError("no text")
        return self.text

    def __float__(self):
        if self.number is None:
            raise TypeError("no number")
        return self.number


class Index:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        if self.i is None:
            raise RuntimeError("no index")
        return self.i


def attempt(f, **kw):
    try:
        return f(**kw), None
    except ds.error as e:
        return None, str(e)


def some_value(rng):
    k = rng.randint(0, 15)
    if k < 5:
        return rng.uniform(-5, 5) * 10.0 ** rng.randint(-20, 20)
    if k == 5:
        return rng.choice([0, 1, -7, 2 ** 31, 2 ** 63, 10 ** 300, -2 ** 70])
    if k == 6:
        return rng.choice([True, False])
    if k == 7:
        return rng.choice(["text", "1.5", "-2e3", " 4 ", "nan", "a\0b", "\u00e9\u4e2d", "\ud800x", "1.5x", "inf"])
    if k == 8:
        return rng.choice([b"bytes", b"1.25", b"", b"\xff\0"])
    if k == 9:
        return [1.0, "x"]
    if k == 10:
        return {"a": 1}
    if k == 11:
        return Thing(rng.choice(["thing", "3.5"]), rng.choice([None, 2.75]))
    if k == 12:
        return rng.choice([np.float64(1.5), np.int32(7), np.float32(0.1)])
    if k == 13:
        return rng.choice([float("inf"), -float("inf"), 5e-324, -0.0, 1.7976931348623157e308])
    if k == 14:
        return None
    return (1, 2)


def number(v):
    """what a model sees"""
    try:
        return float(v)
    except Exception:
        return None


def same(a, b):
    return a is b or (type(a) is type(b) and (a == b or (a != a and b != b)))


NAMES = ["alpha", "beta", "T", "n_i", "mu_x"]
ODD = ["a name", "x\0y", "x", "\u03bc", "1", "node_volume_x", "mu_x ", "MU_X", "\ud801"]


def text_name(s):
    return s.encode("utf-8", "backslashreplace").decode()


class Model:
    def __init__(self, base):
        self.g = dict(base)
        self.d, self.r, self.material, self.cmaterial = {}, {}, {}, {}
        self.devices = {}

    def scope(self, dev, reg):
        if dev is None:
            return self.g
        if reg is None:
            return self.d.setdefault(dev, {})
        return self.r.setdefault((dev, reg), {})

    def look(self, dev, reg, name):
        for s in ([self.r.get((dev, reg), {})] if reg else []) + ([self.d.get(dev, {})] if dev else []) + [self.g]:
            if name in s:
                return True, s[name]
        return False, None


def where(dev, reg):
    return dict({"device": dev} if dev else {}, **({"region": reg} if reg else {}))


def check_scope(ctx, m, dev, reg, names=None):
    kw = where(dev, reg)
    s = m.scope(dev, reg)
    got = sorted(ds.get_parameter_list(**kw))
    ctx.check(got == sorted(s), "list", lambda: "parameters of %s: %r, expected %r" % (kw, got, sorted(s)))
    for n in names or NAMES + list(s)[:3]:
        ok, want = m.look(dev, reg, n)
        v, err = attempt(ds.get_parameter, name=n, **kw)
        if ctx.check((err is None) == ok, "found", "parameter %r of %s: %s" % (n, kw, err)) and ok:
            ctx.check(same(v, want), "value", lambda: "parameter %r of %s is %r, expected %r" % (n, kw, v, want))
            ctx.count("reads")
            if s is not m.g and n not in s:
                ctx.count("inherited")


def check_models(ctx, m, dev, reg):
    n = len(m.devices[dev][reg])
    for p in ctx.rng.sample(NAMES, 2):
        ok, v = m.look(dev, reg, p)
        want = number(v) if ok else None
        got, err = attempt(ds.get_node_model_values, device=dev, region=reg, name="m_" + p)
        if want is None:
            ctx.check(err is not None, "model_error", "a model of %r has a value at %s %s where it is %r" % (p, dev, reg, v))
            ctx.count("models_without")
        elif want == want and abs(want) < 1e300:
            if ctx.check(err is None, "model_value", "a model of %r at %s %s where it is %r: %s" % (p, dev, reg, v, err)):
                ctx.close(np.array(got), np.full(n, 2 * want), "model_value", "a model of %r at %s %s" % (p, dev, reg), rtol=1e-15)
                ctx.count("models")


def create(ctx, m, dev, rs):
    mesh = sim.any_mesh(rs, dim=ctx.rng.choice([1, 2]), nreg=ctx.rng.randint(1, 3))
    mesh.build(dev, mesh="mesh%d" % ctx.counts.get("created", 0))
    m.devices[dev] = {r: mesh.region_nodes(r) for r in mesh.regions}
    for r, (mat, _) in mesh.regions.items():
        m.material[dev, r] = mat
    for c in mesh.contacts:
        m.cmaterial[dev, c] = "metal"
    for r in mesh.regions:
        got = ds.get_node_model_list(device=dev, region=r)
        ctx.check(not any(x.startswith("m_") for x in got), "clean", "new region has models %r" % (got,))
        for p in NAMES:
            ds.node_model(device=dev, region=r, name="m_" + p, equation="2*" + p)
    ctx.count("created")


def delete(ctx, m, dev):
    ds.delete_device(device=dev)
    del m.devices[dev]
    m.d.pop(dev, None)
    for t in (m.r, m.material, m.cmaterial):
        for k in [k for k in t if k[0] == dev]:
            del t[k]
    ctx.count("deleted")


def history(ctx, rs):
    rng = ctx.rng
    base = {k: ds.get_parameter(name=k) for k in ds.get_parameter_list()}
    m = Model(base)
    names = ["d%d" % i for i in range(3)] + ["e d"]
    create(ctx, m, rng.choice(names), rs)
    for step in range(rng.randint(10, 50)):
        op = rng.choice(["set"] * 8 + ["material", "material", "create", "delete", "bad", "sweep"])
        dev = rng.choice(sorted(m.devices)) if m.devices and rng.random() < 0.75 else None
        reg = rng.choice(sorted(m.devices[dev])) if dev and rng.random() < 0.65 else None
        if op == "set":
            n = rng.choice(NAMES if rng.random() < 0.8 else ODD)
            v = some_value(rng)
            _, err = attempt(ds.set_parameter, name=n, value=v, **where(dev, reg))
            try:
                empty = str(v) == ""
            except Exception:
                empty = True
            if ctx.check((err is not None) == empty, "set", "set_parameter %r = %r: %s" % (n, v, err)) and not empty:
                m.scope(dev, reg)[text_name(n)] = v
                ctx.count("set_" + ("region" if reg else "device" if dev else "global"))
            ctx.distinct("set", n, type(v).__name__, bool(dev), bool(reg))
            # every place where the name can be read
            for d2 in [None] + sorted(m.devices):
                for r2 in [None] + (sorted(m.devices[d2]) if d2 else []):
                    if rng.random() < 0.5:
                        check_scope(ctx, m, d2, r2, [text_name(n), rng.choice(NAMES)])
            for d2 in m.devices:
                for r2 in m.devices[d2]:
                    check_models(ctx, m, d2, r2)
        elif op == "material" and m.devices:
            dev = rng.choice(sorted(m.devices))
            table, what = (m.material, "region") if rng.random() < 0.6 else (m.cmaterial, "contact")
            keys = sorted(k for k in table if k[0] == dev)
            if keys:
                k = rng.choice(keys)
                v = rng.choice(["Silicon", "Oxide", "met al", "\u00e9"])
                ds.set_material(device=dev, material=v, **{what: k[1]})
                table[k] = v
            for (d2, r2), v in m.material.items():
                ctx.check(ds.get_material(device=d2, region=r2) == v, "material", "material of region %s %s" % (d2, r2))
                ctx.count("materials")
            for (d2, c2), v in m.cmaterial.items():
                ctx.check(ds.get_material(device=d2, contact=c2) == v, "material", "material of contact %s %s" % (d2, c2))
                ctx.count("materials")
        elif op == "create":
            free = [n for n in names if n not in m.devices]
            if free:
                create(ctx, m, rng.choice(free), rs)
        elif op == "delete" and m.devices:
            delete(ctx, m, rng.choice(sorted(m.devices)))
        elif op == "bad":
            bad = rng.choice([dict(device="none"), dict(device="none", region="r"), dict(region="r")] + ([dict(device=dev, region="none")] if dev else []))
            n = rng.choice(NAMES)
            for f, kw in ((ds.set_parameter, dict(name=n, value=1.0)), (ds.get_parameter, dict(name=n)), (ds.get_parameter_list, {}), (ds.set_material, dict(material="x")), (ds.get_material, {})):
                _, err = attempt(f, **dict(kw, **bad))
                ctx.check(err, "bad_scope", "%s %s: no error" % (f.__name__, bad))
                ctx.count("bad_scope")
            for kw in (dict(name="", value=1.0), dict(name=n, value=""), dict(name=n), dict(value=1.0), dict(name=n, value=Thing("")), dict(name=n, value=Thing(None)), dict(name=n, value=1.0, contact="c")):
                _, err = attempt(ds.set_parameter, **kw)
                if "contact" in kw:
                    # an option the command does not have
                    if err is None:
                        m.g[n] = kw["value"]
                    continue
                ctx.check(err, "bad_parameter", "set_parameter %r: no error" % (sorted(kw),))
                ctx.count("bad_parameter")
        if op in ("sweep", "delete", "bad", "create"):
            for d2 in [None] + sorted(m.devices):
                for r2 in [None] + (sorted(m.devices[d2]) if d2 else []):
                    check_scope(ctx, m, d2, r2)
            for d2 in m.devices:
                ctx.check(sorted(ds.get_region_list(device=d2)) == sorted(m.devices[d2]), "regions", "regions of %s" % d2)
                for r2 in m.devices[d2]:
                    check_models(ctx, m, d2, r2)
            ctx.check(sorted(ds.get_device_list()) == sorted(m.devices), "devices", "get_device_list %r" % (ds.get_device_list(),))
            ctx.count("sweeps")


def values(ctx, rs):
    """values written to models come back, whatever holds them"""
    rng = ctx.rng
    dim = rng.choice([1, 2, 2])
    mesh = sim.any_mesh(rs, dim=dim, nreg=1)
    mesh.build("d")
    r = list(mesh.regions)[0]
    kw = {"device": "d", "region": r}
    ds.node_solution(name="n", **kw)
    ds.edge_solution(name="e", **kw)
    kinds = [("n", ds.set_node_values, ds.get_node_model_values), ("e", ds.set_edge_values, ds.get_edge_model_values)]
    if dim > 1:
        ds.element_solution(name="t", **kw)
        kinds.append(("t", ds.set_element_values, ds.get_element_model_values))
    for k in range(12):
        name, put, get = rng.choice(kinds)
        n = len(get(name=name, **kw))
        t = rng.choice("dddfilqIQhBb")
        if t in "df":
            v = (rs.standard_normal(n) * 10.0 ** rs.randint(-30, 30, n)).astype(t)
        else:
            v = rs.randint(0, 100, n).astype(t)
        how = rng.choice(["list", "tuple", "array", "numpy", "numpy", "swapped", "strided", "view", "bytes", "strings", "scalars", "things"])
        if how == "bytes":
            v = v.astype("d")
        w = {"list": lambda: v.tolist(), "tuple": lambda: tuple(v.tolist()), "array": lambda: array.array(t, v.tolist()), "numpy": lambda: v, "swapped": lambda: v.astype(v.dtype.newbyteorder()),
             "strided": lambda: np.repeat(v, 3)[::3], "view": lambda: memoryview(array.array(t, v.tolist())), "bytes": lambda: v.tobytes(), "strings": lambda: [repr(x) for x in v.tolist()], "scalars": lambda: list(v),
             "things": lambda: [Thing("x", x) for x in v.astype("d").tolist()]}[how]()
        before = np.array(get(name=name, **kw))
        wrong = rng.choice([None] * 5 + ["short", "long", "text", "none", "nested", "scalar", "raises"])
        if wrong == "short":
            w = v.tolist()[:-1]
        elif wrong == "long":
            w = array.array("d", v.astype("d").tolist() + [1.0])
        elif wrong == "text":
            w = v.tolist()[:-1] + ["text"]
        elif wrong == "none":
            w = v.tolist()[:-1] + [None]
        elif wrong == "nested":
            w = [v.tolist()]
        elif wrong == "scalar":
            w = 1.5
        elif wrong == "raises":
            class Seq:
                def __len__(self):
                    return n

                def __getitem__(self, i):
                    if i == n - 1:
                        raise RuntimeError("no item")
                    return 1.0
            w = Seq()
        if wrong == "nested" and n == 1:
            continue
        _, err = attempt(put, name=name, values=w, **kw)
        got = np.array(get(name=name, **kw))
        if wrong:
            ctx.check(err is not None, "bad_values", "%s with %s values: no error" % (put.__name__, wrong))
            ctx.check(np.array_equal(got, before), "bad_values", "%s with %s values changed the values" % (put.__name__, wrong))
            ctx.count("bad_values")
        elif ctx.check(err is None, "values", "%s of %s of %s: %s" % (put.__name__, how, t, err)):
            ctx.check(np.array_equal(got, v.astype("d")), "values", "%s of %s of %s reads back as %r, expected %r" % (put.__name__, how, t, got[:4], v[:4]))
            ctx.count("values_" + how)
        ctx.distinct("values", name, how, t, wrong)


def integers(ctx, rs):
    rng = ctx.rng
    n = rng.randint(3, 9)
    sim.line_device("d", n)
    r = ds.get_region_list(device="d")[0]
    kw = {"device": "d", "region": r, "name": "V"}
    ds.node_solution(**kw)
    n = len(ds.get_node_model_values(**kw))
    have = np.zeros(n)
    for k in range(20):
        i = rng.choice([rng.randint(0, n - 1)] * 6 + [-1, n, 2 ** 31, 2 ** 32, 2 ** 32 + 1, -2 ** 31, 2 ** 63, 2 ** 64, 10 ** 40])
        how = rng.choice([int, int, str, np.int64, np.int32, np.uint8, Index, lambda i: str(i).encode(), float, lambda i: i + 0.5, lambda i: None, lambda i: [i], lambda i: Index(None), lambda i: "%dx" % i])
        try:
            arg = how(i)
        except OverflowError:
            continue
        try:
            j = int(arg) if isinstance(arg, (str, bytes)) else arg.__index__()
        except Exception:
            j = None
        v = rng.choice([rng.uniform(-1, 1), np.float64(0.25), 3, "2.5", True])
        _, err = attempt(ds.set_node_value, index=arg, value=v, **kw)
        if j == -1:
            # all of them
            have[:] = float(v)
            ctx.check(err is None, "index", "set_node_value index %r: %s" % (arg, err))
        elif j is not None and 0 <= j < n:
            have[j] = float(v)
            ctx.check(err is None, "index", "set_node_value index %r: %s" % (arg, err))
            ctx.count("indexes")
        else:
            ctx.check(err is not None, "bad_index", "set_node_value index %r of %d: no error" % (arg, n))
            ctx.count("bad_index")
        ctx.check(np.array_equal(np.array(ds.get_node_model_values(**kw)), have), "index", "after index %r" % (arg,))
        # no error of a call shows in another
        ctx.check(ds.get_dimension(device="d") == 1, "dimension", "get_dimension")


def resets(ctx, rs):
    """nothing stays, and the objects of the user are released"""
    rng = ctx.rng
    base = {k: ds.get_parameter(name=k) for k in ds.get_parameter_list()}
    keep = Thing("kept")
    refs0 = sys.getrefcount(keep)
    gone = []
    m = Model(base)
    for i in range(2):
        create(ctx, m, "d%d" % i, rs)
    for k in range(rng.randint(3, 15)):
        dev = rng.choice([None] + sorted(m.devices))
        reg = rng.choice([None] + sorted(m.devices[dev])) if dev else None
        n = rng.choice(NAMES + list(base))
        if rng.random() < 0.5:
            v = keep
        else:
            v = Thing("other")
            gone.append(weakref.ref(v))
        ds.set_parameter(name=n, value=v, **where(dev, reg))
        m.scope(dev, reg)[n] = v
        ctx.check(ds.get_parameter(name=n, **where(dev, reg)) is v, "object", "the object set is not the one read")
        v = None
    held = sum(1 for s in [m.g] + list(m.d.values()) + list(m.r.values()) for v in s.values() if v is keep)
    ctx.check(sys.getrefcount(keep) == refs0 + 2 * held, "references", "an object set %d times is held %d times" % (held, sys.getrefcount(keep) - refs0 - held))
    ds.circuit_element(name="R1", n1="a", n2="0", value=1.0)
    if rng.random() < 0.5:
        delete(ctx, m, "d0")
        held = sum(1 for s in [m.g] + list(m.d.values()) + list(m.r.values()) for v in s.values() if v is keep)
        ctx.check(sys.getrefcount(keep) == refs0 + 2 * held, "references", "after deleting a device an object set %d times is held %d times" % (held, sys.getrefcount(keep) - refs0 - held))
    m = None
    sim.reset()
    ctx.check(sys.getrefcount(keep) == refs0, "references", "after a reset an object of the user is held %d times" % (sys.getrefcount(keep) - refs0))
    ctx.check(all(g() is None for g in gone), "released", "objects of the user stay after a reset")
    ctx.check({k: ds.get_parameter(name=k) for k in ds.get_parameter_list()} == base, "defaults", "parameters after a reset: %r, expected %r" % (ds.get_parameter_list(), sorted(base)))
    ctx.check(len(ds.get_device_list()) == 0, "reset", "devices after a reset")
    ctx.check(len(ds.get_circuit_node_list()) == 0, "reset", "circuit nodes after a reset")
    m = Model(base)
    create(ctx, m, "d0", rs)
    for r in m.devices["d0"]:
        check_scope(ctx, m, "d0", r)
        check_models(ctx, m, "d0", r)
    ctx.count("resets")


def run_case(ctx, case):
    sim.reset()
    {"history": history, "values": values, "integers": integers, "reset": resets}[case["what"]](ctx, ctx.np())
