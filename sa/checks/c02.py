"""Steady states: constant states and lakes at rest stay as they are."""
from fractions import Fraction as F

from .. import expr as X, fe, fv, ref as R
from .. import npmodel as NP
from ..expr import num, sym

ID = "C02"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: for every registered solver the update of a constant state, and for the well-balanced schemes the update of a lake at rest with an "
    "arbitrary surface level over an arbitrary bottom, is computed as a term on a mesh of arbitrary size and shown to vanish identically next to both boundaries and in the interior; "
    "every registered flux of two equal states is shown to be the physical flux.")
ASSUMPTIONS = ["real arithmetic", "wet states", "trained networks are exempt: a learned correction need not vanish",
               "lakes at rest: the bottom is continued by its edge values beyond the ends of the domain, also on periodic ones, hence lakes on periodic domains have equal depths at both ends"]

BALANCED = ("central", "es", "es1", "low-order")


def cells(S):
    return [num(0), num(1), S.generic(S.N, "c"), NP.simp(S.N - 2), NP.simp(S.N - 1)]


def learned(e):
    return X.contains(e, lambda t: t.op == "app" and t.args[0] == "net")


def make_rhs(S, key, extra=""):
    if key == "coarse":
        extra += ", coarsening_degree=2"
    if key == "antidiffusion":
        extra += ", gamma=GA"
    r = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N%s).as_dict()['right_hand_side']" % (key, extra), GA=sym("gamma", "pos"))
    if key == "lw":
        S.run("r.set_time_step(TS)", r=r, TS=sym("ts", "pos"))
    return r


BC = [("periodic", "periodic"), ("outflow", "outflow"), ("wall", "wall"), ("inflow", "inflow"), ("wall", "outflow"), ("inflow", "wall"), ("outflow", "inflow")]


def vanish(c, S, v, comps, where, rule, n=None, key=""):
    A = S.A(v)
    for i in cells(S):
        if n is not None and not isinstance(n, int) and n is not S.N:
            i = NP.simp(i)
        for q in range(comps):
            e = S.I.E(A.fn((i, q) if comps == 2 else (i,)))
            if learned(e):
                continue
            c.zero("%srhs[%s,%d]" % (key, i, q), e, where, rule)


def constant_swe(key, bath, flux=None):
    def run(c):
        for l, r_ in BC:
            S = fv.swe(c.model, "periodic" if l == "periodic" else (l, r_), bath)
            q = num(0) if "wall" in (l, r_) else sym("q", "real")
            h = sym("h", "pos")
            data = S.native("inflow", lambda I, a, k: h)
            qd = S.native("inflow_q", lambda I, a, k: q)
            S.bind(HL=data, HR=data, QL=qd, QR=qd)
            where = "shallow water solver %r%s, %s-%s" % (key, "" if flux is None else " with flux %r" % flux, l, r_)
            with c.part("%s-%s" % (l, r_), S, where):
                S.bind(U=NP.new_arr(S.I, (S.N, 2), lambda ix: X.ite(X.cmp_("==", num(ix[1]), X.ZERO), h, q) if not isinstance(NP.simp_int(ix[1]), int) else (h if NP.simp_int(ix[1]) == 0 else q)))
                r = make_rhs(S, key, "" if flux is None else ", flux_getter=sol.SHALLOW_WATER_FLUX_GETTER[%r]" % flux)
                vanish(c, S, S.run("r(TA, U)", r=r, TA=sym("ta", "pos")), 2, where, "constant states are steady", key="%s-%s/" % (l, r_))
            c.absorb(S)
    return run


def constant_scalar(problem, key):
    def run(c):
        for l, r_ in [b for b in BC if "wall" not in b]:
            for value in ("generic", "zero"):
                S = fv.scalar(c.model, problem, "periodic" if l == "periodic" else (l, r_))
                u = sym("u", "real") if value == "generic" else num(0)
                data = S.native("inflow", lambda I, a, k: u)
                S.bind(UL=data, UR=data)
                where = "scalar solver %r (%s), %s-%s" % (key, problem, l, r_)
                with c.part("%s-%s/%s" % (l, r_, value), S, where):
                    S.bind(U=NP.new_arr(S.I, (S.N,), lambda ix: u))
                    r = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side']" % key)
                    vanish(c, S, S.run("r(TA, U)", r=r, TA=sym("ta", "pos")), 1, where, "constant states are steady", key="%s-%s/%s/" % (l, r_, value))
                c.absorb(S)
    return run


def constant_fe(problem, key, p):
    def run(c):
        for value in ("generic", "zero"):
            S = fe.make(c.model, problem, p)
            u = sym("u", "real") if value == "generic" else num(0)
            where = "finite element solver %r (%s, degree %d)" % (key, problem, p)
            with c.part(value, S, where):
                S.bind(U=NP.new_arr(S.I, (S.n,), lambda ix: u))
                r = fe.rhs(S, fe.solver(S, key))
                A = S.A(S.run("r(TA, U)", r=r, TA=sym("ta", "pos")))
                for i in fe.positions(S):
                    e = NP.simp(S.I.E(A.fn((i,))))
                    if e.op == "app" and e.args[0] == "solve":
                        m, b = NP.solve_of(int(X.const(e.args[1])))
                        c.zero("%s/load[%s]" % (value, i), S.I.E(b.fn((i,))), where, "constant states are steady: the load vanishes")
                    else:
                        c.zero("%s/rhs[%s]" % (value, i), e, where, "constant states are steady")
            c.absorb(S)
    return run


def lake(key, bc, flux=None):
    """Lake at rest: heights over an arbitrary bottom, level surface, no discharge."""
    def run(c):
        S = fv.swe(c.model, bc, "free")
        S.generic_data(["bath", "uh", "up"], passive=("surface", "a0", "dx", "DX"))
        where = "shallow water solver %r%s, %s" % (key, "" if flux is None else " with flux %r" % flux, bc if isinstance(bc, str) else "-".join(bc))
        d = num(1) / (2 * X.fn("sqrt", num(3)))
        n = S.N

        def depth(i):
            """Depth of cell i; on periodic domains both ends share a depth."""
            i = NP.simp(num(i))
            if bc == "periodic" and X.idx_decide("==", i, num(n) - 1):
                i = num(0)
            return sym(("uh", i), "pos")

        def bottom(I, a, k):
            x = I.E(a[0])
            for s in (-1, 1):
                i = NP.simp(X.canon((x - sym("a0", "pos")) / fv.DX - F(1, 2) - s * d))
                if X.ilin(i) is not None:
                    return sym("surface", "real") - depth(i) + s * sym(("up", i), "real")
            return X.app("bath", X.canon(x))

        S.bind(BATH=S.native("bath", bottom))
        with c.part("lake", S, where):
            for i in cells(S):
                b = S.I.E(S.A(S.run("swe.build_bathymetry_discretization(bench, N)")).fn((i,)))
                z, _ = X.is_zero(b + depth(i) - sym("surface", "real"))
                if z != X.PROVED:
                    c.unknown("bottom[%s]" % i, where, "bottom of the lake", str(b)[:100])
                    return
            S.bind(U=NP.new_arr(S.I, (n, 2), lambda ix: X.ite(X.cmp_("==", num(ix[1]), X.ZERO), depth(ix[0]), num(0)) if not isinstance(NP.simp_int(ix[1]), int) else (depth(ix[0]) if NP.simp_int(ix[1]) == 0 else num(0))))
            r = make_rhs(S, key, "" if flux is None else ", flux_getter=sol.SHALLOW_WATER_FLUX_GETTER[%r]" % flux)
            vanish(c, S, S.run("r(TA, U)", r=r, TA=sym("ta", "pos")), 2, where, "a lake at rest is steady")
        c.absorb(S)
    return run


def consistent(kind, key, problem=None):
    """The numerical flux of two equal states is the physical flux."""
    def run(c):
        S = fv.swe(c.model) if kind != "scalar" else fv.scalar(c.model, problem)
        where = "flux of %s %r" % ("solver" if kind != "getter" else "key", key)
        with c.part("flux", S, where):
            src = "sol.SHALLOW_WATER_FLUX_GETTER[%r](bench, finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, N)))" % key if kind == "getter" else \
                  "sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N%s).as_dict()['right_hand_side'].as_dict()['numerical_flux']" % (key, ", coarsening_degree=2" if key == "coarse" else "")
            f = S.run(src)
            S.bind(F=f)
            dim = S.run("F.input_dimension")
            if kind == "scalar":
                S.bind(U=NP.new_arr(S.I, (S.N + 1,), lambda ix: sym("u", "real")))
                want = [fv.scalar_flux(problem, sym("u", "real"))]
            else:
                S.bind(U=NP.new_arr(S.I, (S.N + 1, 2), lambda ix: sym("h", "pos") if NP.simp_int(ix[1]) == 0 else sym("q", "real")))
                want = list(R.flux((sym("h", "pos"), sym("q", "real"))))
            out = S.items(S.run("F(%s)" % ", ".join(["U"] * dim)))
            for side, sign in ((0, -1), (1, 1)):
                A = S.A(out[side])
                for i in (num(0), S.generic(S.N + 1, "n"), NP.simp(S.N + 0)):
                    for q, w in enumerate(want):
                        e = S.I.E(A.fn((i, q) if kind != "scalar" else (i,)))
                        if learned(e):
                            continue
                        c.equal("%s[%s,%d]" % ("left" if side == 0 else "right", i, q), e, sign * w, where, "consistent: equal states give the physical flux")
        c.absorb(S)
    return run


def riemann(kind, waves):
    """The flux and the intermediate state of two equal states."""
    def run(c):
        S = fv.swe(c.model)
        n, where = S.N, "core/riemann_solver.py:RiemannSolver"
        g = S.generic(n, "k")
        with c.part("solve", S, where):
            none = NP.new_arr(S.I, (n,), lambda ix: num(0))
            S.bind(WL=S.vec(n, "wl", "pos") if "l" in waves else none, WR=S.vec(n, "wr", "pos") if "r" in waves else none)
            S.bind(WS=S.native("speed", lambda I, a, k: (S.run("-WL"), S.run("WR"))))
            if kind == "scalar":
                S.bind(L=S.vec(n, "l"), FX=S.native("flux", lambda I, a, k: NP.new_arr(I, (n,), lambda ix: X.app("flux", I.E(S.A(a[0]).fn(ix))))))
                S.run("rs = core.RiemannSolver(FX, WS)")
                u = [sym(("l", g), "real")]
                w = [X.app("flux", u[0])]
            else:
                S.bind(L=S.swe(n, "lh", "lq"))
                S.run("rs = swe.RiemannSolver(G, WS)")
                u = [sym(("lh", g), "pos"), sym(("lq", g), "real")]
                w = list(R.flux(u))
            S.run("F, ST = rs.solve(L, L.copy())")
            for q in range(len(u)):
                ix = (g,) if kind == "scalar" else (g, q)
                c.equal("flux[%d]" % q, S.I.E(S.A(S.run("F")).fn(ix)), w[q], where, "consistent: equal states give the physical flux")
                if waves:
                    c.equal("state[%d]" % q, S.I.E(S.A(S.run("ST")).fn(ix)), u[q], where, "the intermediate state of equal states is this state")
        c.absorb(S)
    return run


def scenarios(tier):
    from ..model import Model
    m = Model()
    S = fv.swe(m)
    out = []
    keys = fv.keys(S, "sol.SOLVER_PARSER")
    getters = fv.keys(S, "sol.SHALLOW_WATER_FLUX_GETTER")
    for k in keys:
        if k.startswith("reduced"):
            continue
        for bath in ("zero", "const"):
            out.append(("constant/%s/%s" % (k, bath), constant_swe(k, bath)))
        out.append(("consistent/solver/%s" % k, consistent("solver", k)))
    for outer in ("mcl", "antidiffusion", "coarse"):
        for k in getters:
            if not k.startswith("reduced"):
                out.append(("constant/%s+%s" % (outer, k), constant_swe(outer, "zero", k)))
    for k in getters:
        if not k.startswith("reduced"):
            out.append(("consistent/flux/%s" % k, consistent("getter", k)))
    for bc in (("outflow", "outflow"), ("wall", "wall"), "periodic", ("wall", "outflow")):
        name = bc if isinstance(bc, str) else "-".join(bc)
        for k in BALANCED:
            if k in keys:
                out.append(("lake/%s/%s" % (k, name), lake(k, bc)))
            if k in getters:
                out.append(("lake/mcl+%s/%s" % (k, name), lake("mcl", bc, k)))
    for kind in ("scalar", "system"):
        for waves in ("lr", "l", "r", ""):
            out.append(("riemann/%s/%s" % (kind, waves or "none"), riemann(kind, waves)))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        for p in ("advection", "burgers"):
            out.append(("scalar/%s/%s" % (k, p), constant_scalar(p, k)))
            out.append(("consistent/scalar/%s/%s" % (k, p), consistent("scalar", k, p)))
    S = fe.make(m)
    for k in fe.keys(S):
        for pr in ("advection", "burgers"):
            for deg in (1, 2, 3):
                out.append(("fe/%s/%s/%d" % (k, pr, deg), constant_fe(pr, k, deg)))
    return out
