"""A linear solver given to the simulator from Python: exact, recording, or misbehaving on request."""
import array
import numpy as np
import devsim as ds
from vlib.system import dense


class PySolver:
    """update: None solves, otherwise f(matrix, b) -> x.  fault: f(action, count) -> None, or a value returned in place of the answer"""

    def __init__(self, update=None, fault=None, fmt="csc"):
        self.update, self.fault, self.fmt = update, fault, fmt
        self.log, self.n, self.calls = [], 0, {}
        self.matrices, self.rhs, self.x = [], [], []

    def __enter__(self):
        ds.set_parameter(name="direct_solver", value="custom")
        ds.set_parameter(name="solver_callback", value=self.call)
        return self

    def __exit__(self, *a):
        ds.set_parameter(name="direct_solver", value="mkl_pardiso")
        return False

    def call(self, **kw):
        act = kw["action"]
        self.calls[act] = self.calls.get(act, 0) + 1
        self.log.append(act)
        if self.fault:
            r = self.fault(act, self.calls[act])
            if r is not None:
                return r
        if act == "init":
            self.n, self.transpose = kw["n"], kw["transpose"]
            return {"matrix_format": self.fmt, "solver_object": self, "status": True, "message": ""}
        if act == "factor":
            n = self.n
            ap, ai = np.array(kw["Ap"], dtype=int), np.array(kw["Ai"], dtype=int)
            ax = np.array(kw["Ax"], dtype=float)
            self.same = kw["is_same_symbolic"]
            self.pattern = (tuple(ap), tuple(ai))
            if kw["is_complex"]:
                ax = ax[0::2] + 1j * ax[1::2]
            m = np.repeat(np.arange(n), np.diff(ap))
            self.M = np.zeros((n, n), dtype=ax.dtype)
            if self.fmt == "csr":
                self.M[m, ai] = ax
            else:
                self.M[ai, m] = ax
            self.matrices.append(self.M)
            return {"status": True, "message": ""}
        b = np.array(kw["b"], dtype=float)
        if kw["is_complex"]:
            b = b[0::2] + 1j * b[1::2]
        self.rhs.append(b)
        if self.update is not None:
            x = self.update(self.M, b)
        else:
            x = np.linalg.solve(self.M.T if self.transpose else self.M, b)
        self.x.append(x)
        if kw["is_complex"]:
            y = np.zeros(2 * len(x))
            y[0::2], y[1::2] = x.real, x.imag
            x = y
        return {"status": True, "message": "", "x": array.array("d", [float(v) for v in x]) if kw["is_complex"] else [float(v) for v in x]}


def hold(**kw):
    """a converged solve that changes nothing"""
    with PySolver(update=lambda m, b: 0 * b) as p:
        return ds.solve(type=kw.pop("type", "dc"), absolute_error=1.0, relative_error=1.0, maximum_iterations=2, **kw)
