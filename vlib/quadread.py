"""Extended precision values read in full: a double and what is left of it, and the independent assembly in 50 digits."""
import numpy as np
import mpmath as mp
import devsim as ds
from vlib import expr as X
from vlib.system import GETTERS

mp.mp.dps = 50
MAKE = {"node": (ds.node_solution, ds.set_node_values, ds.node_model), "edge": (ds.edge_solution, ds.set_edge_values, ds.edge_model), "element": (ds.element_solution, ds.set_element_values, ds.element_model)}


def digits(kind, name, **kw):
    """mpf values of a model of an extended precision region"""
    sol, put, model = MAKE[kind]
    get = getattr(ds, GETTERS[kind])
    HI, LO = "qhi__" + kind, "qlo__" + kind
    hi = [float(v) for v in get(name=name, **kw)]
    sol(name=HI, **kw)
    put(name=HI, values=hi, **kw)
    model(name=LO, equation="%s-%s" % (name, HI), **kw)
    lo = get(name=LO, **kw)
    return np.array([mp.mpf(a) + mp.mpf(float(b)) for a, b in zip(hi, lo)], dtype=object)


class Quad:
    """context in which a System computes in 50 digits"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        X.F = object
        for d in self.s.devs.values():
            memo = {}

            def read(reg, kind, name, memo=memo):
                k = (reg.name, kind, name)
                if k not in memo:
                    memo[k] = digits(kind, name, **reg.kw())
                return memo[k]
            d.digits = read

    def __exit__(self, *a):
        X.F = float
        return False
