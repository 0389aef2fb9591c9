"""C14: linear systems put together entry by entry through the simulator, solved by each of its solvers, and solver faults."""
import ctypes, os
import numpy as np
import devsim as ds
from vlib import sim
from vlib.hold import PySolver
from vlib.worker import Skip

PLAN = ["solve", "solve", "pattern", "fault", "ac", "iterative", "extended", "circuit", "singular", "solve"]
LIB = None


def init(ctx):
    global LIB
    LIB = ctypes.CDLL(os.environ["DEVSIM_MATH_LIBS"])
    LIB.verif_calls.restype = ctypes.c_long


def cases(ctx):
    n, o = ctx.args["n"], ctx.args["offset"]
    plan = ctx.args.get("plan") or PLAN
    for i in range(n):
        k = o + i
        yield {"id": "%s#%d" % (plan[k % len(plan)], k), "what": plan[k % len(plan)], "k": k}


def matrix(rs, n, diag=None, density=None, cpx=False):
    density = rs.uniform(0, 4) if density is None else density
    A = rs.uniform(-1, 1, (n, n)) * (rs.uniform(0, 1, (n, n)) * n < density)
    # few digits, so that sums of the parts of an entry do not round
    A = np.round(A * 2.0 ** 24) / 2.0 ** 24
    if diag:
        A[range(n), range(n)] = diag * np.where(rs.rand(n) < 0.5, 1, -1)
    else:
        p = rs.permutation(n)
        A[range(n), p] += 3 * np.where(rs.rand(n) < 0.5, 1, -1)
        if rs.rand() < 0.2:
            # equations of very different size
            A *= 2.0 ** rs.randint(-26, 27, n)[:, None]
    return A


def lu_error(M, x):
    """bound of the error of x found with a factorisation of M, or of its transpose, with partial pivoting"""
    a = np.abs(M)
    E = np.maximum(a.max(axis=1)[:, None], a.max(axis=0)[None, :])
    return 1e-14 * (np.abs(np.linalg.inv(M)) @ (E @ np.abs(x)))


def good(A):
    d = np.abs(A).max(axis=1)
    return bool((d > 0).all()) and np.linalg.cond(A / d[:, None]) < 1e8


def pieces(rs, A):
    """triples that add up to A: entries given at once, in parts, with parts that cancel, and zeros"""
    t = []
    for i, j in zip(*np.nonzero(A)):
        v = float(A[i, j])
        k = rs.randint(0, 5)
        if k == 0:
            t += [(i, j, v / 2), (i, j, v / 2)]
        elif k == 1:
            # halves of powers of two cancel without rounding
            t += [(i, j, v), (i, j, v * 4), (i, j, -v * 4)]
        else:
            t.append((i, j, v))
    n = len(A)
    for _ in range(rs.randint(0, 4)):
        i, j = rs.randint(0, n, 2)
        t.append((i, j, 0.0))
    rs.shuffle(t)
    out = []
    for i, j, v in t:
        out += [int(i), int(j), float(v)]
    return out


class Linear:
    """device nodes whose equations are those of a callback: R = A x - b, and Q = C x"""

    def __init__(self, ctx, n, circuit=False, extended=False):
        self.ctx, self.rs = ctx, ctx.np()
        ds.reset_devsim()
        if extended:
            for k in ("extended_model", "extended_equation", "extended_solver"):
                ds.set_parameter(name=k, value=True)
        if circuit:
            self.ac = complex(self.rs.uniform(-2, 2), self.rs.uniform(-2, 2))
            ds.circuit_element(name="V1", n1="a", n2="0", value=0.0, acreal=self.ac.real, acimag=self.ac.imag)
        sim.line_device("d", n)
        self.k = dict(device="d", region="r")
        ds.node_solution(name="V", **self.k)
        ds.node_model(name="z", equation="0*V", **self.k)
        ds.equation(name="e", variable_name="V", node_model="z", **self.k)
        self.n, self.when, self.calls = n, [], 0
        self.A = self.C = None
        self.b = np.zeros(n)
        self.fault = None
        ds.custom_equation(name="c", procedure=self.load)

    def x(self):
        return np.array(ds.get_node_model_values(name="V", **self.k))

    def load(self, what, mode):
        self.calls += 1
        if self.fault:
            r = self.fault(self.calls)
            if r is not None:
                return r
        M = self.C if "TIME" in str(mode) else self.A
        if M is None:
            return [], [], self.rs.rand() < 0.5
        x = self.state()
        R = M @ x - (0 if "TIME" in str(mode) else self.b)
        rhs = []
        for i in range(len(R)):
            if self.rs.rand() < 0.2:
                rhs += [i, float(R[i]) * 0.5, i, float(R[i]) * 0.5]
            else:
                rhs += [i, float(R[i])]
        return pieces(self.rs, M), rhs, bool(self.rs.rand() < 0.5)

    def state(self):
        return self.x()

    def solve(self, **kw):
        kw = dict({"type": "dc", "absolute_error": 1e300, "relative_error": 1e300, "maximum_iterations": 1}, **kw)
        try:
            ds.solve(**kw)
            return None
        except ds.error as e:
            return str(e)


def start(s, x0=None):
    x = s.rs.uniform(-1, 1, s.n) if x0 is None else x0
    ds.set_node_values(name="V", values=[float(v) for v in x], **s.k)
    return x


SOLVERS = ["mkl_pardiso", "default", "csc", "csr"]


def once(ctx, s, how):
    """one solve of the present system from a random start; the update solves the linearised system"""
    A, b = s.A, s.b
    x0 = start(s)
    ctx.count("solves_" + how)
    if how in ("csc", "csr"):
        with PySolver(fmt=how) as p:
            err = s.solve()
        if not ctx.check(err is None, "solve_error", "%s: %s" % (how, err)):
            return None
        M = p.matrices[0]
        ctx.check(np.array_equal(M, s.A), "matrix", "the matrix given to a solver in format %s is not the sum of its entries: %r" % (how, np.argwhere(M != s.A)[:3].tolist()))
        R = A @ x0 - b
        lim = 4e-16 * (np.abs(A) @ np.abs(x0) + np.abs(b)) * s.n
        ctx.check((np.abs(p.rhs[0] + R) <= lim).all(), "rhs", "the right hand side is not the negative residual")
        pattern(ctx, s, p, how)
        ctx.count("matrices")
    else:
        if how == "default":
            ds.set_parameter(name="direct_solver", value="mkl_pardiso")
        err = s.solve()
        if not ctx.check(err is None, "solve_error", "%s: %s" % (how, err)):
            return None
    want = np.linalg.solve(A / np.abs(A).max(axis=1)[:, None], b / np.abs(A).max(axis=1))
    lim = lu_error(A, np.abs(want) + np.abs(x0))
    ctx.close(s.x(), want, "solution", "solution by %s of %d equations" % (how, s.n), rtol=1e-12, atol=lim)
    ctx.count("equations", s.n)
    ctx.distinct("linear", how, s.n, int((A != 0).sum()))
    return s.x()


def pattern(ctx, s, p, how):
    ap, ai = p.pattern
    n = s.n
    ok = len(ap) == n + 1 and ap[0] == 0 and ap[-1] == len(ai) and all(ap[i] <= ap[i + 1] for i in range(n))
    ok = ok and all(0 <= j < n for j in ai) and all(ai[k] < ai[k + 1] for i in range(n) for k in range(ap[i], ap[i + 1] - 1))
    ctx.check(ok, "format", "the %s pattern is not well formed: %r" % (how, (ap, ai)))
    ctx.count("patterns")


def run_case(ctx, case):
    what, rng = case["what"], ctx.rng
    if LIB is not None:
        LIB.verif_fail(0, 0, 0)
    n = rng.randint(2, 12) if rng.random() < 0.7 else rng.randint(12, 40)
    if what in ("solve", "extended"):
        s = Linear(ctx, n, extended=what == "extended")
        for _ in range(rng.randint(1, 4)):
            s.A = matrix(s.rs, n)
            s.b = s.rs.uniform(-1, 1, n) * (10.0 ** s.rs.uniform(-3, 3))
            if not good(s.A):
                ctx.count("ill")
                continue
            how = rng.choice(SOLVERS if what == "solve" else SOLVERS[:2])
            if what == "extended":
                ctx.count("extended")
            once(ctx, s, how)
        return
    if what == "pattern":
        # one solver object over iterations whose pattern stays, grows or shrinks
        s = Linear(ctx, n)
        s.b = s.rs.uniform(-1, 1, n)
        steps = [matrix(s.rs, n)]
        for _ in range(rng.randint(2, 6)):
            B = steps[-1].copy()
            r = rng.random()
            if r < 0.35:
                B *= s.rs.randint(5, 20, (n, n)) / 8.0
            elif r < 0.6:
                B = B + matrix(s.rs, n, density=1) * (s.rs.rand(n, n) < 0.2)
            elif r < 0.8:
                i, j = s.rs.randint(0, n, 2)
                B[i, j] = 0.0
            else:
                B = matrix(s.rs, n)
            m, e = np.frexp(B)
            B = np.ldexp(np.round(m * 2.0 ** 30), e - 30)
            if not good(B):
                break
            steps.append(B)
        if not good(steps[0]):
            raise Skip()
        seen, it = [], [0]
        s.A = steps[0]

        def fault(calls):
            # the callback is asked for the static part once in every iteration
            return None
        fmt = rng.choice(["csc", "csr"])
        p = PySolver(fmt=fmt, update=None)
        orig = p.call

        def call(**kw):
            r = orig(**kw)
            if kw["action"] == "factor":
                seen.append((p.pattern, bool(p.same)))
                k = len(p.matrices) - 1
                ctx.check(np.array_equal(p.matrices[k], steps[min(k, len(steps) - 1)]), "matrix", "iteration %d: the matrix is not the sum of the entries of this iteration" % k)
                pattern(ctx, s, p, fmt)
            if kw["action"] == "solve":
                s.A = steps[min(len(p.matrices), len(steps) - 1)]
            return r
        with p:
            ds.set_parameter(name="solver_callback", value=call)
            start(s)
            s.solve(absolute_error=1e-300, relative_error=1e-300, maximum_iterations=len(steps), maximum_divergence=1000)
        ctx.check(len(seen) == len(steps) or len(seen) > 1, "iterations", "%d factorisations in %d iterations" % (len(seen), len(steps)))
        for (a, _), (b, same) in zip(seen, seen[1:]):
            if same:
                ctx.check(a == b, "same_symbolic", "a changed pattern is said to be the same")
            ctx.count("same_symbolic" if same else "new_symbolic")
            if a != b:
                ctx.count("pattern_changes")
        # and PARDISO, which has its own account of the pattern
        s.A = steps[0]
        count = [0]

        def step(calls):
            s.A = steps[min(count[0], len(steps) - 1)]
            count[0] += 1
        plain = s.load

        def load(what, mode):
            if "TIME" not in str(mode):
                step(0)
            return plain(what, mode)
        ds.delete_custom_equation(name="c") if hasattr(ds, "delete_custom_equation") else None
        ds.custom_equation(name="c", procedure=load)
        start(s)
        s.solve(absolute_error=1e-300, relative_error=1e-300, maximum_iterations=len(steps), maximum_divergence=1000)
        # the last solve starts from here again and is compared
        s.A = steps[-1]
        ds.custom_equation(name="c", procedure=plain)
        once(ctx, s, "mkl_pardiso")
        return
    if what == "fault":
        s = Linear(ctx, n)
        s.A, s.b = matrix(s.rs, n), s.rs.uniform(-1, 1, n)
        if not good(s.A) or LIB is None:
            raise Skip()
        if rng.random() < 0.5:
            once(ctx, s, "mkl_pardiso")
        x0 = start(s)
        phase, after, error = rng.choice([11, 22, 33]), rng.choice([0, 0, 1, 2]), rng.choice([-1, -2, -3, -4, -7])
        LIB.verif_fail(phase, after, error)
        before = LIB.verif_calls(phase)
        err = s.solve(absolute_error=1e-300, relative_error=1e-300, maximum_iterations=6)
        hit = LIB.verif_calls(phase) - before > after
        LIB.verif_fail(0, 0, 0)
        ctx.count("fault_%d" % phase if hit else "fault_missed")
        if hit:
            ctx.check(err is not None, "fault_ignored", "error %d of phase %d after %d calls: the solve reports success" % (error, phase, after))
        if err is not None:
            ctx.check(np.array_equal(s.x(), x0), "fault_restore", "error %d of phase %d after %d calls: the solution is not that of before the solve" % (error, phase, after))
        once(ctx, s, rng.choice(SOLVERS))
        return
    if what == "singular":
        s = Linear(ctx, n)
        s.A, s.b = matrix(s.rs, n), s.rs.uniform(-1, 1, n)
        i = s.rs.randint(n)
        kind = rng.choice(["row", "column", "equal", "nan", "inf", "empty"])
        if kind == "row":
            s.A[i] = 0
        elif kind == "column":
            s.A[:, i] = 0
        elif kind == "equal":
            j = (i + 1) % n
            s.A[:, :] = np.round(s.A * 4)
            s.A[j] = s.A[i]
        elif kind == "empty":
            s.A[:] = 0
        x0 = start(s)
        if kind in ("nan", "inf"):
            v = float(kind)
            s.fault = lambda c: ([i, i, v], [], True) if rng.random() < 0.5 else ([k for j in range(n) for k in (j, j, 1.0)], [i, v], True)
        ext = rng.random() < 0.2 and kind != "equal"
        if ext:
            ds.set_parameter(name="extended_solver", value=True)
        typ = "iterative" if not ext and rng.random() < 0.15 and kind in ("row", "column", "empty") else "direct"
        err = s.solve(absolute_error=1e-6, relative_error=1e-6, maximum_iterations=4, solver_type=typ)
        if kind == "equal":
            # the factorisation may leave a pivot of rounding size instead of zero
            fine = err is not None or np.isfinite(s.x()).all()
            ctx.check(fine, "singular", "success with values that are not finite")
            if err is None:
                ctx.count("equal_solved")
                return
        else:
            ctx.check(err is not None, "singular", "a matrix with %s %d: the %s solve reports success with %r" % (kind, i, typ, s.x()[:4].tolist()))
        ctx.check(np.array_equal(s.x(), x0), "singular_restore", "%s: the solution is not that of before the solve" % kind)
        ctx.count("singular_" + kind)
        s.fault = None
        ds.set_parameter(name="extended_solver", value=False)
        s.A = matrix(s.rs, n)
        if good(s.A):
            once(ctx, s, rng.choice(SOLVERS))
        return
    if what == "ac":
        s = Linear(ctx, n, circuit=True)
        # the circuit is a voltage source at node a; the device equations couple to it in both directions
        err = s.solve()
        a, i = ds.get_circuit_equation_number(node="a"), ds.get_circuit_equation_number(node="V1.I")
        N = n + 2
        perm = [k for k in range(N) if k not in (a, i)]
        A, C = np.zeros((N, N)), np.zeros((N, N))
        A[np.ix_(perm, perm)], C[np.ix_(perm, perm)] = matrix(s.rs, n), matrix(s.rs, n, density=s.rs.uniform(0, 2)) * (s.rs.rand() < 0.8)
        A[perm, a], C[perm, a] = s.rs.uniform(-1, 1, n), s.rs.uniform(-1, 1, n) * (s.rs.rand(n) < 0.5)
        A[a, perm], C[a, perm] = s.rs.uniform(-1, 1, n), s.rs.uniform(-1, 1, n) * (s.rs.rand(n) < 0.5)
        # no circuit dependence on the device rows alone leaves the transpose untested
        J0 = np.zeros((N, N))
        J0[a, i] = 1.0
        J0[i, a] = 1.0
        s.A, s.C, s.b = A, C, np.zeros(N)
        s.state = lambda: values(ds, s, perm, a, i)
        f = 10.0 ** s.rs.uniform(-4, 2)
        J = A + J0 + 2j * np.pi * f * C
        d = np.abs(J).max(axis=1)
        if not good(np.abs(A + J0) * np.sign(A + J0)) or np.linalg.cond(J / d[:, None]) > 1e8:
            raise Skip()
        src = None
        how = rng.choice(SOLVERS)
        noise = rng.random() < 0.4
        if noise:
            kw = dict(type="noise", output_node="a", frequency=f)
        else:
            kw = dict(type="ac", frequency=f)
        p = PySolver(fmt=how if how in ("csc", "csr") else "csc")
        try:
            if how in ("csc", "csr"):
                with p:
                    ds.solve(**kw)
                M = p.matrices[-1]
                lim = 1e-15 * (np.abs(A) + np.abs(J0) + 2 * np.pi * f * np.abs(C))
                ctx.check((np.abs(M - J) <= lim).all(), "complex_matrix", "the complex matrix differs at %r" % np.argwhere(np.abs(M - J) > lim)[:3].tolist())
                if noise:
                    ctx.check(p.transpose, "transpose", "a noise solve does not ask for the transposed solution")
                ctx.count("complex_matrices")
                bb = p.rhs[-1]
            else:
                ds.solve(**kw)
                bb = None
        except ds.error as e:
            ctx.violation("complex_error", "%s solve by %s: %s" % (kw["type"], how, e))
            return
        if noise:
            b = np.zeros(N, dtype=complex)
            b[a] = 1
            K = J.T
            pre, names = "noise_a", ("a_e_real", "a_e_imag")
        else:
            b = np.zeros(N, dtype=complex)
            b[i] = s.ac
            K = J
            pre, names = "ssac", ("V_Real", "V_Imag")
        dk = np.abs(K).max(axis=1)
        w = np.linalg.solve(K / dk[:, None], b / dk)
        lim = 3 * lu_error(K, w) + 1e-300
        g = np.zeros(N, dtype=complex)
        g[perm] = np.array(ds.get_node_model_values(name=names[0], **s.k)) + 1j * np.array(ds.get_node_model_values(name=names[1], **s.k))
        for q, nd in ((a, "a"), (i, "V1.I")):
            g[q] = complex(ds.get_circuit_node_value(solution=pre + "_real", node=nd), ds.get_circuit_node_value(solution=pre + "_imag", node=nd))
        # nodes of the device and their equation numbers
        ctx.close(g, w, "complex_solution", "%s solution by %s of %d equations" % (kw["type"], how, N), rtol=1e-11, atol=np.repeat(lim, 2))
        ctx.count("complex_" + kw["type"])
        ctx.count("complex_" + how)
        return
    if what == "iterative":
        s = Linear(ctx, n)
        for _ in range(rng.randint(1, 3)):
            s.A = matrix(s.rs, n, diag=4.5)
            s.b = s.rs.uniform(-1, 1, n)
            x0 = start(s)
            err = s.solve(solver_type="iterative", absolute_error=1e-8, relative_error=1e-8, maximum_iterations=10)
            if not ctx.check(err is None, "iterative_error", "a diagonally dominant system of %d equations: %s" % (n, err)):
                return
            ctx.close(s.x(), np.linalg.solve(s.A, s.b), "iterative", "iterative solution of %d equations" % n, rtol=1e-7, atol=1e-8 * (1 + np.abs(s.x()).max()))
            ctx.count("iterative")
        return
    if what == "circuit":
        return circuit(ctx)


def values(ds, s, perm, a, i):
    x = np.zeros(len(perm) + 2)
    x[perm] = ds.get_node_model_values(name="V", **s.k)
    x[a], x[i] = ds.get_circuit_node_value(node="a"), ds.get_circuit_node_value(node="V1.I")
    return x


def circuit(ctx):
    """a conducting line between circuit nodes, by the direct and the iterative solver"""
    rng, rs = ctx.rng, ctx.np()
    got = []
    n, v, r1, r2, g = rng.randint(2, 40), rng.uniform(-3, 3), 10.0 ** rng.uniform(-1, 2), 10.0 ** rng.uniform(-1, 2), 10.0 ** rng.uniform(-1, 1)
    two = rng.random() < 0.5
    for typ in ("direct", "iterative"):
        ds.reset_devsim()
        ds.circuit_element(name="V1", n1="a", n2="0", value=v)
        ds.circuit_element(name="R1", n1="a", n2="b", value=r1)
        ds.circuit_element(name="R2", n1="b", n2="0", value=r2)
        if two:
            ds.circuit_element(name="R3", n1="c", n2="0", value=r2)
        sim.line_device("d", n)
        k = dict(device="d", region="r")
        ds.node_solution(name="V", **k)
        ds.edge_from_node_model(node_model="V", **k)
        e = "%r*(V@n0-V@n1)*EdgeInverseLength" % g
        ds.edge_model(name="E", equation=e, **k)
        for q in "01":
            ds.edge_model(name="E:V@n" + q, equation="diff(%s,V@n%s)" % (e, q), **k)
        ds.equation(name="e", variable_name="V", edge_model="E", **k)
        for c, nd in (("left", "b"), ("right", "c" if two else None)):
            ds.contact_node_model(device="d", contact=c, name=c + "n", equation="V-" + (nd or "0.25"))
            ds.contact_node_model(device="d", contact=c, name=c + "n:V", equation="1")
            kw = {}
            if nd:
                ds.contact_node_model(device="d", contact=c, name=c + "n:" + nd, equation="-1")
                kw["circuit_node"] = nd
            ds.contact_equation(device="d", contact=c, name="e", node_model=c + "n", edge_current_model="E", **kw)
        try:
            ds.solve(type="dc", absolute_error=1e-9, relative_error=1e-9, maximum_iterations=30, solver_type=typ)
        except ds.error as e:
            if typ == "iterative" and "Convergence failure" in str(e):
                # the preconditioner leaves entries out, and may then be singular
                ctx.count("iterative_failed")
                return
            ctx.violation("circuit_error", "a line of %d nodes between circuit nodes by the %s solver: %s" % (n, typ, e))
            return
        got.append(np.array(list(ds.get_node_model_values(name="V", **k)) + [ds.get_circuit_node_value(node=x) for x in ("a", "b", "V1.I")]))
    R = (n - 1) / g
    # node b sees the source through R1, ground through R2, and the line to 0.25 or through R3 to ground
    gl, vl = (1 / (R + r2), 0.0) if two else (1 / R, 0.25)
    vb = (v / r1 + vl * gl) / (1 / r1 + 1 / r2 + gl)
    for typ, x in zip(("direct", "iterative"), got):
        ctx.close(x[-2], vb, "circuit_value", "node b by the %s solver" % typ, rtol=1e-6, atol=1e-8)
        ctx.close(x[0], vb, "circuit_value", "the end of the line by the %s solver" % typ, rtol=1e-6, atol=1e-8)
        ctx.close(x[-3], v, "circuit_value", "node a by the %s solver" % typ, rtol=1e-6, atol=1e-8)
    ctx.close(got[1], got[0], "circuit_agree", "direct and iterative solution", rtol=1e-6, atol=1e-8)
    ctx.count("circuit_lines")
