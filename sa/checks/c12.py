"""Boundary conditions, and symmetries of the schemes under shifts and reflections."""
from .. import fe, fv
from .. import expr as X
from .. import npmodel as NP
from ..expr import num, sym

ID = "C12"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: the neighbour arrays of every pair of boundary conditions are compared with the prescribed extension of a generic state of arbitrary length, "
    "and right hand sides of shifted and reflected generic states are compared with shifted and reflected right hand sides as algebraic normal forms.")
ASSUMPTIONS = ["real arithmetic", "a trained network is not required to be symmetric under reflections",
               "the shallow water MCL scheme is required to be symmetric over flat bottoms only (over steps its limiter acts on the right flux)"]


def extended(S, n, l, r, system, pos, state="U", time="TA"):
    """Prescribed value at position `pos` of the extended state (as a row)."""
    I = S.I
    lo, hi = X.idx_decide("<", num(pos), X.ZERO), X.idx_decide("<", num(pos), num(n))
    U = S.A(S.run(state))

    def row(p, flip=False):
        if not system:
            return [I.E(U.fn((NP.simp(p),)))]
        a, b = [I.E(U.fn((NP.simp(p), c))) for c in (0, 1)]
        return [a, -b if flip else b]

    if lo is None or hi is None:
        raise AssertionError("undecided side")
    if not lo and hi:
        return row(pos)
    side = l if lo else r
    edge = 0 if lo else n - 1
    if side == "periodic":
        return row(pos + n if lo else pos - n)
    if side == "outflow":
        return row(edge)
    if side == "wall":
        return row(edge, True)
    v = S.run("%s(%s)" % ("IL" if lo else "IR", time))
    if system:
        v = S.A(v)
        return [I.E(v.fn((0,))), I.E(v.fn((1,)))]
    return [I.E(v)]


def neighbours(system):
    def run(c):
        S = fv.swe(c.model) if system else fv.scalar(c.model, "burgers")
        n = S.N
        where = "finite_volume/shallow_water/boundary.py" if system else "core/boundary_conditions.py"
        names = ["periodic", "outflow", "inflow"] + (["wall"] if system else [])
        pairs = [("periodic",), ("outflow",)] + [(a, b) for a in names for b in names if (a == "periodic") == (b == "periodic")]
        S.bind(TA=sym("ta", "pos"), TB=sym("tb", "pos"), U=S.swe(n, "uh", "uq") if system else S.vec(n, "u"), W=S.swe(n, "wh", "wq") if system else S.vec(n, "w"))
        S.run("build = %s" % ("swe.get_boundary_conditions" if system else "core.get_boundary_conditions"))
        S.run("IL, IR = bench.inflow_left, bench.inflow_right")
        g = S.generic(n, "k")
        for pair in pairs:
            l, r = pair[0], pair[-1]
            for rad in (1, 2, 3):
                key = "%s/%d" % ("-".join(pair), rad)
                with c.part(key, S, where, raises=True):
                    S.run("bc = build(%s, radius=%d, inflow_left=IL, inflow_right=IR)" % (", ".join(map(repr, pair)), rad))
                    S.run("u = U.copy()\nv = bc.get_node_neighbours(u, radius=%d, time=TA)" % rad)
                    k = S.run("len(v)")
                    c.fact("%s/count" % key, k == 2 * rad, where, "two arrays per unit of the radius", str(k))
                    if k != 2 * rad:
                        continue
                    for m in range(2 * rad):
                        a = S.A(S.run("v[%d]" % m))
                        c.fact("%s/shape[%d]" % (key, m), NP.dim_eq(a.shape[0], n + 1), where, "one value per node", str(a.shape))
                        for j in list(range(rad + 1)) + [g] + [NP.simp(n - q) for q in range(rad + 1)]:
                            want = extended(S, n, l, r, system, NP.simp(num(j) - rad + m))
                            for q, w in enumerate(want):
                                got = S.I.E(a.fn((j, q) if system else (j,)))
                                c.equal("%s/%d[%s,%d]" % (key, m, j, q), got, w, where, "neighbours of a node are the prescribed extension of the state")
                    for p in (0, g, NP.simp(n - 1)):
                        for q in range(2 if system else 1):
                            ix = (p, q) if system else (p,)
                            c.equal("%s/state[%s,%d]" % (key, p, q), S.I.E(S.A(S.run("u")).fn(ix)), S.I.E(S.A(S.run("U")).fn(ix)), where, "the state is not modified")
                    # the same conditions at another time, of another state
                    S.run("w2 = W.copy()\nv2 = bc.get_node_neighbours(w2, radius=%d, time=TB)" % rad)
                    for m in range(2 * rad):
                        a, b = S.A(S.run("v2[%d]" % m)), S.A(S.run("v[%d]" % m))
                        for j in [0, g, n]:
                            at = NP.simp(num(j) - rad + m)
                            for arr, w, tag in ((a, extended(S, n, l, r, system, at, "W", "TB"), "later"), (b, extended(S, n, l, r, system, at), "kept")):
                                for q, e in enumerate(w):
                                    c.equal("%s/%s/%d[%s,%d]" % (key, tag, m, j, q), S.I.E(arr.fn((j, q) if system else (j,))), e, where, "neighbours of a node are the extension of the given state at the given time")
        # nodes to cells
        for pair in pairs:
            for rad in (1, 2):
                key = "cells/%s/%d" % ("-".join(pair), rad)
                periodic = set(pair) == {"periodic"}
                with c.part(key, S, where, raises=True):
                    S.bind(P=S.vec(NP.simp(n + 1), "p"), Q=S.vec(NP.simp(n + 1), "q"))
                    S.run("bc = build(%s, radius=%d, inflow_left=IL, inflow_right=IR)" % (", ".join(map(repr, pair)), rad))
                    for kind, call in (("two", "bc.get_cell_neighbours(P.copy(), Q.copy())"), ("one", "bc.get_cell_neighbours(P.copy())")):
                        L, R = [S.A(x) for x in S.items(S.run(call))]
                        right = "Q" if kind == "two" else "P"
                        Qa, Pa = S.A(S.run(right)), S.A(S.run("P"))
                        for nm, a in (("left", L), ("right", R)):
                            c.fact("%s/%s/%s" % (key, kind, nm), NP.dim_eq(a.shape[0], n + 2), where, "one value per cell including a ghost cell at each side", str(a.shape))
                        for j in (0, g, n):
                            c.equal("%s/%s/L[%s]" % (key, kind, j), S.I.E(L.fn((NP.simp(num(j) + 1),))), S.I.E(Qa.fn((j,))), where, "the left neighbour of a cell is its left node")
                            c.equal("%s/%s/R[%s]" % (key, kind, j), S.I.E(R.fn((j,))), S.I.E(Pa.fn((j,))), where, "the right neighbour of a cell is its right node")
                        if periodic and rad == 1:
                            c.equal("%s/%s/wrap-left" % (key, kind), S.I.E(L.fn((0,))), S.I.E(Qa.fn((NP.simp(n - 1),))), where, "periodic neighbours wrap around")
                            c.equal("%s/%s/wrap-right" % (key, kind), S.I.E(R.fn((NP.simp(n + 1),))), S.I.E(Pa.fn((1,))), where, "periodic neighbours wrap around")
        c.absorb(S)
    return run


def invalid(c):
    for system in (True, False):
        S = fv.swe(c.model) if system else fv.scalar(c.model, "burgers")
        where = "boundary conditions"
        S.run("build = %s" % ("swe.get_boundary_conditions" if system else "core.get_boundary_conditions"))
        for key, args in (("unknown", "'nonsense', 'outflow'"), ("unknown-right", "'outflow', 'nonsense'"), ("no-inflow-left", "'inflow', 'outflow'"), ("no-inflow-right", "'outflow', 'inflow'")):
            with c.part("%s/%s" % ("system" if system else "scalar", key), S, where):
                got = S.run('''
try:
    build(%s)
    r = "none"
except ValueError:
    r = "ValueError"
except Exception:
    r = "other"
r
''' % args)
                c.fact("%s/%s" % ("system" if system else "scalar", key), got == "ValueError" if isinstance(got, str) else None, where, "invalid conditions are rejected with ValueError", str(got))
        c.absorb(S)


MIRROR = {"periodic": "periodic", "wall": "wall", "outflow": "outflow"}


def swe_symmetry(key, bc, bath, kind):
    def run(c):
        S = fv.swe(c.model, bc, bath)
        where = "shallow water solver %r" % key
        n = NP.simp(S.N * 2) if key == "coarse" else S.N
        extra = ", coarsening_degree=2" if key == "coarse" else ""
        g = S.generic(n, "k")
        with c.part(key, S, where):
            S.bind(TS=sym("ts", "pos"), TA=sym("ta", "pos"), MS=n, U=S.swe(n, "uh", "uq"))
            S.generic_data(["uh", "uq"] + ([] if bath == "zero" else ["bath", "b", "a0", "dx"]))
            S.run('''
class Mirrored(SymbolicBenchmark):
    def bathymetry(self, x): return BATH(2*LA + N*DX - x)
    _boundary_conditions = BC if isinstance(BC, str) else BC[::-1]
    def inflow_left(self, t): return np.array([1, -1]) * SymbolicBenchmark.inflow_right(self, t)
    def inflow_right(self, t): return np.array([1, -1]) * SymbolicBenchmark.inflow_left(self, t)
def make(b):
    s = sol.SOLVER_PARSER[%r].solver(b, mesh_size=MS%s)
    r = s.as_dict()["right_hand_side"]
    %s
    return r
a = make(bench)(TA, U.copy())
''' % (key, extra, "r.set_time_step(TS)" if key == "lw" else ""))
            A = S.A(S.run("a"))
            if kind == "shift":
                B = S.A(S.run("make(bench)(TA, np.roll(U, 1, axis=0))"))
                for j in (0, 1, 2, g, NP.simp(n - 2), NP.simp(n - 1)):
                    src = NP.simp(n - 1) if j == 0 else NP.simp(num(j) - 1)
                    for q in range(2):
                        c.equal("shift[%s,%d]" % (j, q), S.I.E(B.fn((j, q))), S.I.E(A.fn((src, q))), where, "shifting a periodic state shifts the right hand side")
            else:
                B = S.A(S.run("make(Mirrored())(TA, np.array([U[::-1, 0], -U[::-1, 1]]).T)"))
                for j in (0, 1, 2, g, NP.simp(n - 2), NP.simp(n - 1)):
                    src = NP.simp(n - 1 - num(j))
                    for q in range(2):
                        w = S.I.E(A.fn((src, q)))
                        c.equal("mirror[%s,%d]" % (j, q), S.I.E(B.fn((j, q))), -w if q else w, where, "reflecting the state reflects the right hand side")
        c.absorb(S)
    return run


def scalar_symmetry(problem, key, kind, bc="periodic"):
    def run(c):
        S = fv.scalar(c.model, problem, bc)
        where = "scalar solver %r (%s)" % (key, problem)
        n = S.N
        g = S.generic(n, "k")
        with c.part(key, S, where):
            S.bind(TA=sym("ta", "pos"), U=S.vec(n, "u"))
            S.generic_data(["u"])
            S.run("def make(): return sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side']\na = make()(TA, U.copy())" % key)
            A = S.A(S.run("a"))
            B = S.A(S.run("make()(TA, np.roll(U, 1))" if kind == "shift" else "make()(TA, -U[::-1])"))
            for j in (0, 1, 2, g, NP.simp(n - 2), NP.simp(n - 1)):
                if kind == "shift":
                    src = NP.simp(n - 1) if j == 0 else NP.simp(num(j) - 1)
                    c.equal("shift[%s]" % j, S.I.E(B.fn((j,))), S.I.E(A.fn((src,))), where, "shifting a periodic state shifts the right hand side")
                else:
                    c.equal("mirror[%s]" % j, S.I.E(B.fn((j,))), -S.I.E(A.fn((NP.simp(n - 1 - num(j)),))), where, "reflecting the state reflects the right hand side")
        c.absorb(S)
    return run


def fe_symmetry(problem, key, p, kind):
    def run(c):
        S = fe.make(c.model, problem, p)
        where = "finite element solver %r (%s, degree %d)" % (key, problem, p)
        n = S.n
        g = S.generic(S.N, "k")
        with c.part(key, S, where):
            S.bind(TA=sym("ta", "pos"), U=S.vec(n, "u"))
            S.generic_data(["u"])
            S.run("def make(): return sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=P).as_dict()['right_hand_side']\na = make()(TA, U.copy())" % key)
            A = S.A(S.run("a"))
            B = S.A(S.run("make()(TA, np.roll(U, P))" if kind == "shift" else "make()(TA, -np.roll(U[::-1], 1))"))
            pos = list(range(2 * p)) + [NP.simp(p * g + r) for r in range(p)] + [NP.simp(n - 1 - r) for r in range(2 * p)]
            def moved(j):
                if kind == "shift":
                    q = NP.simp(num(j) - p)
                    return NP.simp(q + n) if X.idx_decide("<", q, X.ZERO) else q
                return 0 if NP.simp(num(j)) is X.ZERO else NP.simp(n - num(j))

            rule = "%s the state %s the right hand side" % (("shifting", "shifts") if kind == "shift" else ("reflecting", "reflects"))
            for j in pos:
                x, y = S.I.E(B.fn((j,))), S.I.E(A.fn((moved(j),)))
                if all(NP.simp(e).op == "app" and NP.simp(e).args[0] == "solve" for e in (x, y)):
                    # solutions of linear systems: matrix and right hand side
                    (mb, rb), (ma, ra) = [NP.solve_of(int(X.const(NP.simp(e).args[1]))) for e in (x, y)]
                    w = S.I.E(ra.fn((moved(j),)))
                    c.equal("%s/system[%s]" % (kind, j), S.I.E(rb.fn((j,))), w if kind == "shift" else -w, where, rule)
                    for l, v in mb.row(j):
                        c.equal("%s/matrix[%s,%s]" % (kind, j, l), S.I.E(NP.val(v)), S.I.E(NP.val(NP.sp_elem(S.I, ma, moved(j), moved(NP.simp(l))))), where, rule)
                    continue
                c.equal("%s[%s]" % (kind, j), x, y if kind == "shift" else -y, where, rule)
        c.absorb(S)
    return run


def edges(system, key, bc):
    """The right hand side of edge cells is the one of interior cells with the
    neighbours replaced by the prescribed extension."""
    def run(c):
        S = fv.swe(c.model, bc, "zero") if system else fv.scalar(c.model, "burgers", bc)
        where = "%s solver %r" % ("shallow water" if system else "scalar", key)
        n = S.N
        g = S.generic(n, "k")
        l, r = (bc, bc) if isinstance(bc, str) else bc
        with c.part(key, S, where):
            S.bind(TS=sym("ts", "pos"), TA=sym("ta", "pos"), U=S.swe(n, "uh", "uq") if system else S.vec(n, "u"))
            S.run("IL, IR = bench.inflow_left, bench.inflow_right")
            S.run("""
r = sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()["right_hand_side"]
%s
a = r(TA, U.copy())
""" % (key, "r.set_time_step(TS)" if key == "lw" else ""))
            A = S.A(S.run("a"))
            U = S.A(S.run("U"))
            ix = lambda j, q: (NP.simp(j), q) if system else (NP.simp(j),)
            for q in range(2 if system else 1):
                inner = X.canon(S.I.E(A.fn(ix(g, q))))
                for j in [num(i) for i in range(3)] + [NP.simp(n - 1 - i) for i in range(3)]:
                    m = {}
                    for d in range(-5, 6):
                        row = extended(S, n, l, r, system, NP.simp(j + d))
                        for p, v in enumerate(row):
                            m[S.I.E(U.fn(ix(g + d, p)))] = v
                    left = [x for x in X.leaves(inner) if isinstance(x.args[0], tuple) and x.args[0][0] in ("u", "uh", "uq") and x not in m]
                    if left:
                        c.unknown("edge[%s,%d]" % (j, q), where, "the right hand side of an interior cell depends on far cells", str(left[0]))
                        continue
                    c.equal("edge[%s,%d]" % (j, q), S.I.E(A.fn(ix(j, q))), X.subst(inner, m), where, "edge cells see the prescribed extension of the state as neighbours")
        c.absorb(S)
    return run


NETWORK = ("reduced-llf", "reduced-llf-2", "reduced-es", "reduced-mcl", "reduced-exact")


def scenarios(tier):
    from ..model import Model
    m = Model()
    out = [("neighbours/system", neighbours(True)), ("neighbours/scalar", neighbours(False)), ("invalid", invalid)]
    S = fv.swe(m)
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        if k != "coarse":
            out.append(("shift/swe/%s" % k, swe_symmetry(k, "periodic", "zero", "shift")))
        if k not in NETWORK and k != "coarse":
            for bc in ("periodic", ("outflow", "outflow"), ("wall", "wall"), ("inflow", "inflow"), ("wall", "inflow")):
                for bath in ("zero",) if k == "mcl" else ("zero", "free"):
                    out.append(("mirror/swe/%s/%s/%s" % (k, bc if isinstance(bc, str) else "-".join(bc), bath), swe_symmetry(k, bc, bath, "mirror")))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        for p in ("advection", "burgers"):
            out.append(("shift/scalar/%s/%s" % (k, p), scalar_symmetry(p, k, "shift")))
        for bc in ("periodic", ("outflow", "outflow")):
            out.append(("mirror/scalar/%s/%s" % (k, bc if isinstance(bc, str) else bc[0]), scalar_symmetry("burgers", k, "mirror", bc)))
    mixed = [("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow")]
    S = fv.swe(m)
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        if k not in ("coarse", "mcl"):
            for bc in mixed + [("wall", "outflow"), ("inflow", "wall")]:
                out.append(("edges/swe/%s/%s-%s" % (k, bc[0], bc[1]), edges(True, k, bc)))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        if k != "mcl-fv":
            for bc in mixed:
                out.append(("edges/scalar/%s/%s-%s" % (k, bc[0], bc[1]), edges(False, k, bc)))
    S = fe.make(m)
    for k in fe.keys(S):
        for deg in (1, 2):
            for pr in ("advection", "burgers"):
                out.append(("shift/fe/%s/%s/%d" % (k, pr, deg), fe_symmetry(pr, k, deg, "shift")))
            out.append(("mirror/fe/%s/%d" % (k, deg), fe_symmetry("burgers", k, deg, "mirror")))
    return out
