"""Wave speeds bound the signals; bar states, admissible steps and CFL checks."""
from .. import expr as X, fe, fv, ref as R
from .. import npmodel as NP
from ..expr import num, sym
from ..pos import Below, Lemma, Min, Prod, Sum, certified
from .c13 import Local, Space, line, matrix

ID = "C04"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: wave speeds are derived as terms of two generic states and shown to dominate the characteristic speeds of both; the contributions of a node to its cells are shown to be "
    "a multiple of a state whose height is non-negative (scalar equations: which lies between the neighbouring values), by certificates that are sums of products of non-negative factors identical to the derived terms; "
    "optimal time steps, their use by solvers and the CFL check are compared with their definitions.")
ASSUMPTIONS = ["real arithmetic", "wet states unless stated otherwise"]

ab, mx, mn, sq = R.ab, R.mx, R.mn, R.sq


def speeds_swe(c):
    S = fv.swe(c.model)
    n = S.N
    g = S.generic(n, "k")
    L, Rr = [[sym((a, g), "pos"), sym((b, g), "real")] for a, b in (("lh", "lq"), ("rh", "rq"))]
    S.bind(L=S.swe(n, "lh", "lq"), RR=S.swe(n, "rh", "rq"))
    for name in ("MaximumWaveSpeed", "WaveSpeed"):
        where = "finite_volume/shallow_water/core.py:%s" % name
        with c.part(name, S, where):
            S.run("wl, wr = swe.%s(G)(L, RR)" % name)
            bounds(c, S, name, "wl", "wr", g, L, Rr, where)
            S.run("rs = swe.RiemannSolver(G, swe.%s(G))\nrs.solve(L, RR)" % name)
            bounds(c, S, name + "/solver", "rs.wave_speed_left", "rs.wave_speed_right", g, L, Rr, where)
    where = "finite_volume/shallow_water/core.py:RiemannSolver"
    with c.part("default", S, where):
        S.run("rs = swe.RiemannSolver(G)\nF, ST = rs.solve(L, RR)")
        bounds(c, S, "default", "rs.wave_speed_left", "rs.wave_speed_right", g, L, Rr, where)
        lam = S.I.E(S.A(S.run("rs.wave_speed_right")).fn((g,)))
        certified(c, "height", 2 * lam * S.I.E(S.A(S.run("ST")).fn((g, 0))), Sum(Prod(L[0], lam + L[1] / L[0]), Prod(Rr[0], lam - Rr[1] / Rr[0])), where,
                  "the intermediate height is non-negative")
    c.absorb(S)


def bounds(c, S, key, l, r, g, L, Rr, where):
    at = lambda src: S.I.E(S.A(S.run(src)).fn((g,)))
    wl, wr = at(l), at(r)
    c.nonneg(key + "/left-sign", -wl, where, "waves to the left have non-positive speed")
    c.nonneg(key + "/right-sign", wr, where, "waves to the right have non-negative speed")
    for side, (h, q) in (("left", L), ("right", Rr)):
        c.nonneg("%s/%s-fast" % (key, side), wr - q / h - sq(R.G * h), where, "wave speeds bound the characteristic speeds of both states")
        c.nonneg("%s/%s-slow" % (key, side), q / h - sq(R.G * h) - wl, where, "wave speeds bound the characteristic speeds of both states")


def speeds_dry(c):
    """Dry states: no divisions by zero, still bounds of the computed velocities."""
    S = fv.swe(c.model)
    S.I.wet = False
    n = S.N
    g = S.generic(n, "k")
    S.bind(L=S.swe(n, "lh", "lq", "nonneg"), RR=S.swe(n, "rh", "rq", "nonneg"))
    S.run("VL, VR = swe.get_velocities(L, RR)")
    at = lambda src: S.I.E(S.A(S.run(src)).fn((g,)))
    for name in ("MaximumWaveSpeed", "WaveSpeed"):
        where = "finite_volume/shallow_water/core.py:%s" % name
        with c.part(name, S, where):
            S.run("wl, wr = swe.%s(G)(L, RR)" % name)
            wl, wr = at("wl"), at("wr")
            for v, h in (("VL", "lh"), ("VR", "rh")):
                k = sq(R.G * sym((h, g), "nonneg"))
                c.nonneg("%s/%s-fast" % (name, v), wr - at(v) - k, where, "wave speeds bound the characteristic speeds of both states")
                c.nonneg("%s/%s-slow" % (name, v), at(v) - k - wl, where, "wave speeds bound the characteristic speeds of both states")
    c.absorb(S)


def between(problem, lam, u, w, lo):
    """Certificate of 2*lam*(bar - lo) for lo below both states."""
    if problem == "advection":
        return Sum(Prod(u - lo, lam + 1), Prod(w - lo, lam - 1))
    return Sum(Prod(u - lo, Sum(lam / 2 + u / 2, lam / 2 + w / 2)), Prod(w - lo, Sum(lam / 2 - u / 2, lam / 2 - w / 2)))


def above(problem, lam, u, w, hi):
    if problem == "advection":
        return Sum(Prod(hi - u, lam + 1), Prod(hi - w, lam - 1))
    return Sum(Prod(hi - u, Sum(lam / 2 + u / 2, lam / 2 + w / 2)), Prod(hi - w, Sum(lam / 2 - u / 2, lam / 2 - w / 2)))


def speeds_scalar(problem):
    def run(c):
        S = fv.scalar(c.model, problem)
        n = S.N
        g = S.generic(n, "k")
        where = "finite_volume/scalar/core.py (%s)" % problem
        S.bind(L=S.vec(n, "l"), RR=S.vec(n, "r"), PROBLEM=problem)
        u, w = sym(("l", g), "real"), sym(("r", g), "real")
        at = lambda src: S.I.E(S.A(S.run(src)).fn((g,)))
        with c.part("speed", S, where):
            S.run("from finite_volume import scalar as sc\nrs = sc.get_riemann_solver(PROBLEM)\nF, ST = rs.solve(L, RR)")
            wl, wr = at("rs.wave_speed_left"), at("rs.wave_speed_right")
            for v in (u, w):
                s = num(1) if problem == "advection" else v
                c.nonneg("fast[%s]" % v, wr - s, where, "wave speeds bound the characteristic speeds of both states")
                c.nonneg("slow[%s]" % v, s - wl, where, "wave speeds bound the characteristic speeds of both states")
            c.nonneg("left-sign", -wl, where, "waves to the left have non-positive speed")
            c.nonneg("right-sign", wr, where, "waves to the right have non-negative speed")
            lo, hi, st = mn(u, w), mx(u, w), at("ST")
            certified(c, "state-min", 2 * wr * (st - lo), between(problem, wr, u, w, lo), where, "the intermediate state lies between both states")
            certified(c, "state-max", 2 * wr * (hi - st), above(problem, wr, u, w, hi), where, "the intermediate state lies between both states")
        c.absorb(S)
    return run


def state(S, comps):
    if comps == 1:
        S.bind(U=S.vec(S.N, "u"))
    else:
        S.bind(U=S.swe(S.N, "uh", "uq"))


def clamp(S, i):
    i = NP.simp(num(i))
    if X.idx_decide("<", i, X.ZERO):
        return num(0)
    if X.idx_decide(">=", i, num(S.N)):
        return NP.simp(S.N - 1)
    return i


def cells(S):
    return [num(0), num(1), S.generic(S.N, "c"), NP.simp(S.N - 2), NP.simp(S.N - 1)]


def heights(key, extra="", bath="zero"):
    """A step below dx/(sum of the speeds at both nodes) keeps heights non-negative."""
    def run(c):
        S = fv.swe(c.model, ("outflow", "outflow"), bath)
        S.generic_data(["bath", "uh", "uq"] if bath == "free" else ["uh", "uq"])
        where = "shallow water solver %r%s" % (key, extra)
        u = lambda i: (sym(("uh", clamp(S, i)), "pos"), sym(("uq", clamp(S, i)), "real"))
        d = num(1) / (2 * X.fn("sqrt", num(3)))

        def b(i):
            if bath != "free":
                return X.ZERO
            x = lambda s: X.canon(sym("a0", "pos") + fv.DX * (clamp(S, i) + num(1) / 2 + s * d))
            return (X.app("bath", x(-1)) + X.app("bath", x(1))) / 2

        with c.part("positivity", S, where):
            state(S, 2)
            r = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N%s).as_dict()['right_hand_side']" % (key, extra))
            v = S.A(S.run("r(TA, U)", r=r, TA=sym("ta", "pos")))
            for i in cells(S):
                cert, total, lam = [], fv.DX * S.I.E(v.fn((i, 0))), X.ZERO
                for l in (i - 1, i):
                    a, e = u(l), u(l + 1)
                    w = R.speed(a, e)
                    h = R.bar(a, e, w)[0]
                    bar = Lemma(w * h, Prod(num(1) / 2, Sum(Prod(a[0], w + a[1] / a[0]), Prod(e[0], w - e[1] / e[0]))))
                    if bath == "free":
                        db = b(l + 1) - b(l)
                        s = X.fn("sign", db)
                        hh = Lemma(h, Prod(1 / (2 * w), Sum(Prod(a[0], w + a[1] / a[0]), Prod(e[0], w - e[1] / e[0]))))
                        cert.append(Prod(w, Sum(Below(hh, ab(db) / 2), Prod(Min(hh, ab(db) / 2), 1 - s if l is not i else 1 + s))))
                    else:
                        cert.append(bar)
                    lam = lam + w
                certified(c, "height[%s]" % i, total + lam * u(i)[0], Sum(*cert), where, "an admissible step keeps the height of a cell non-negative")
        c.absorb(S)
    return run


def extrema(key, problem):
    """Scalar low order schemes: an admissible step stays between the neighbours."""
    def run(c):
        S = fv.scalar(c.model, problem, ("outflow", "outflow"))
        where = "scalar solver %r (%s)" % (key, problem)
        u = lambda i: sym(("u", clamp(S, i)), "real")
        with c.part("bounds", S, where):
            state(S, 1)
            r = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side']" % key)
            v = S.A(S.run("r(TA, U)", r=r, TA=sym("ta", "pos")))
            for i in cells(S):
                up, lo = mx(u(i - 1), u(i), u(i + 1)), mn(u(i - 1), u(i), u(i + 1))
                w = [R.sspeed(problem, u(j), u(j + 1)) for j in (i - 1, i)]
                x = 2 * (fv.DX * S.I.E(v.fn((i,))) + (w[0] + w[1]) * u(i))
                pairs = ((w[0], u(i - 1), u(i)), (w[1], u(i), u(i + 1)))
                certified(c, "minimum[%s]" % i, x - 2 * (w[0] + w[1]) * lo, Sum(*[between(problem, a, p, q, lo) for a, p, q in pairs]), where, "an admissible step does not fall below the neighbours")
                certified(c, "maximum[%s]" % i, 2 * (w[0] + w[1]) * up - x, Sum(*[above(problem, a, p, q, up) for a, p, q in pairs]), where, "an admissible step does not exceed the neighbours")
        c.absorb(S)
    return run


def low_order_fe(problem, p):
    def run(c):
        S = fe.make(c.model, problem, p)
        sp, L = Space(S), Local(p)
        where = "finite element solver 'cg-low' (%s, degree %d)" % (problem, p)
        u = lambda j: sym(("u", num(j)), "real")
        S.bind(U=S.vec(sp.n, "u"))
        with c.part("bounds", S, where):
            A = S.A(S.run("sol.SOLVER_PARSER['cg-low'].solver(bench, mesh_size=N, polynomial_degree=P).as_dict()['right_hand_side'](TA, U.copy())", TA=sym("ta", "pos")))
            for cell, r in sp.dofs:
                i = sp.index(cell, r)
                m = sum((v * fe.DX for v in sp.row(cell, r, lambda a, b: L.mass[a][b]).values()), X.ZERO)
                grad = {j: v for j, v in sp.row(cell, r, lambda a, b: L.grad[a][b]).items() if j is not i}
                nb = [u(j) for j in [i] + list(grad)]
                lo, hi = mn(*nb), mx(*nb)
                low, high, lam = [], [], X.ZERO
                for j, g in grad.items():
                    a = X.fn("abs", g)
                    w = num(1) if problem == "advection" else mx(ab(u(i)), ab(u(j)))
                    lam = lam + a * w
                    s = X.const(X.canon(g))
                    x, y = (u(i), u(j)) if s is not None and s > 0 else (u(j), u(i))
                    low.append(Prod(a, between(problem, w, x, y, lo)))
                    high.append(Prod(a, above(problem, w, x, y, hi)))
                t = m * S.I.E(A.fn((i,))) + 2 * lam * u(i)
                certified(c, "minimum[%s,%d]" % (cell, r), t - 2 * lam * lo, Sum(*low), where, "an admissible step does not fall below the neighbours")
                certified(c, "maximum[%s,%d]" % (cell, r), 2 * lam * hi - t, Sum(*high), where, "an admissible step does not exceed the neighbours")
        c.absorb(S)
    return run


def parts(e):
    """Kind and elements of a reduction (generic, first, last element)."""
    e = X.num(e)
    if e.op == "red":
        return e.args[0], list(e.args[2:5])
    return None, None


def optimal_fv(kind, bc):
    system = kind.startswith("swe")

    def run(c):
        name = bc if isinstance(bc, str) else "-".join(bc)
        S = fv.swe(c.model, bc) if system else fv.scalar(c.model, kind, bc)
        where = "finite_volume/time_stepping.py:OptimalTimeStep (%s, %s)" % (kind, name)
        with c.part("step", S, where, raises=True):
            state(S, 2 if system else 1)
            S.run("from finite_volume import time_stepping as fts\nfrom finite_volume import scalar as sc")
            data = ("HL", "QL", "HR", "QR") if system else ("UL", "UR")
            for d in data:
                S.bind(**{d: S.native(d, lambda I, a, k, d=d: X.app("in" + d, I.E(a[0])) if d[0] != "H" else sym(("in" + d, I.E(a[0])), "pos"))})
            builder = "swe.get_boundary_conditions" if system else "core.get_boundary_conditions"
            rs = ("swe.RiemannSolver(G)" if kind == "swe" else "swe.RiemannSolver(G, wave_speed=swe.WaveSpeed(G))") if system else "sc.get_riemann_solver(bench.problem)"
            S.run("bc = %s(*bench.boundary_conditions, inflow_left=bench.inflow_left, inflow_right=bench.inflow_right)\nrs = %s" % (builder, rs))
            x = S.I.E(S.run("fts.OptimalTimeStep(rs, bc, DX)(TA, U)", TA=sym("ta", "pos")))
            S.run("l, r = bc.get_node_neighbours(U, time=TA)\nwl, wr = rs.wave_speed(l, r)")
            W = [S.A(S.run("wl")), S.A(S.run("wr"))]
            red = find_red_term(x, "max")
            els = red and list(red.args[2:5])
            if els is None and not X.contains(X.canon(x), lambda t: t.op == "red"):
                k = S.generic(S.N, "k")
                c.equal("constant", x, fv.DX / mx(*[ab(S.I.E(w.fn((k, 0) if system else (k,)))) for w in W]), where, "the optimal step is the cell size over the largest wave speed")
            elif els is None:
                c.unknown("form", where, "cell size over the largest wave speed", str(x)[:120])
            else:
                idx = beta(els[0])
                at = lambda i: [ab(S.I.E(w.fn((i, 0) if system else (i,)))) for w in W]
                tests = [("generic", els[0], idx), ("first", els[1], num(0)), ("last", els[2], NP.simp(S.N + 0))]
                for tag, got, i in tests:
                    if i is None:
                        c.unknown(tag, where, "cell size over the largest wave speed", "no index")
                        continue
                    c.equal(tag, got, mx(*at(i)), where, "the optimal step is the cell size over the largest wave speed")
                c.equal("ratio", X.subst(X.canon(x), {red: sym("speed", "pos")}), fv.DX / sym("speed", "pos"), where, "the optimal step is the cell size over the largest wave speed")
        c.absorb(S)
    return run


def find_red_term(x, kind):
    found = []
    X.contains(X.canon(x), lambda t: bool(found.append(t)) if t.op == "red" and t.args[0] == kind else False)
    return found[0] if len(set(found)) == 1 else None


def beta(e):
    """Index variable of the generic element of a reduction."""
    out = set()
    for l in X.leaves(e):
        n = l.args[0]
        for s in ([l] if isinstance(n, str) else [x for x in n if isinstance(x, X.E)]):
            for t in X.leaves(s):
                if isinstance(t.args[0], str) and t.args[0].startswith("\u03b2"):
                    out.add(t)
    return out.pop() if len(out) == 1 else None


def optimal_fe(problem, p):
    def run(c):
        S = fe.make(c.model, problem, p)
        sp = Space(S)
        where = "finite_element/scalar/solver/cg_low.py:OptimalTimeStep (%s, degree %d)" % (problem, p)
        S.bind(U=S.vec(sp.n, "u"), W=S.vec(sp.n, "w"), CN=sym("cfl", "pos"))
        S.generic_data(["u", "w"])
        with c.part("step", S, where, raises=True):
            S.run("from finite_element.scalar.solver import cg_low\nLM = fe.LumpedMassVector(space)\nD = fe.build_artificial_diffusion(PROBLEM, space)\nopt = cg_low.OptimalTimeStep(LM, fe.build_artificial_diffusion(PROBLEM, space))\nopt(0.0, W)")
            x = S.I.E(S.run("opt(TA, U)", TA=sym("ta", "pos")))
            S.run("D.assemble(U)\nm = LM(U)")
            D, M = matrix(S, "D()"), S.A(S.run("m"))
            kind, els = parts(X.canon(x))
            if kind is None and X.const(x) is None and not X.contains(x, lambda t: t.op == "red"):
                els = [x]
            if els is None:
                c.unknown("form", where, "smallest ratio of mass and diffusion", str(x)[:120])
            elif kind == "min":
                groups = X.const(NP.simp(X.div(num(sp.n), X.canon(x).args[1])))
                ratio = lambda i: S.I.E(M.fn((i,))) / (2 * ab(line(S, D, i)[NP.simp(i)]))
                for tag, got, i in (("generic", els[0], beta(els[0]) or S.generic(S.N, "k")), ("first", els[1], num(0)), ("last", els[2], NP.simp(X.canon(x).args[1] - 1))):
                    if groups is None or groups.denominator != 1:
                        c.unknown(tag, where, "smallest ratio of mass and diffusion", "grouped by %s" % groups)
                        continue
                    c.equal(tag, got, mn(*[ratio(NP.simp(num(i) * groups + r)) for r in range(int(groups))]), where, "the optimal step of a degree of freedom is its mass over twice its diffusion")
            elif kind is not None:
                c.fact("form", False, where, "the smallest of the optimal steps", kind)
            else:
                for cell, r in sp.dofs[:1]:
                    i = sp.index(cell, r)
                    c.equal("constant", x, S.I.E(M.fn((i,))) / (2 * ab(line(S, D, i)[i])), where, "the optimal step of a degree of freedom is its mass over twice its diffusion")
        for key in ("cg-low", "mcl-fem"):
            w = "finite element solver %r (%s, degree %d)" % (key, problem, p)
            for adaptive in (True, False):
                with c.part("%s/%s" % (key, adaptive), S, w):
                    S.bind(slv=S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=P, cfl_number=CN, adaptive=%s)" % (key, adaptive)))
                    S.run("v = slv.solution.value\ng = slv.as_dict()['time_stepping'].as_dict()['time_step_generator']")
                    c.equal("%s/%s/step" % (key, adaptive), S.I.E(S.run("g()")), sym("cfl", "pos") * S.I.E(S.run("opt(TA, v)")), w, "time steps are the CFL number times the optimal step of the initial data")
                    c.equal("%s/%s/again" % (key, adaptive), S.I.E(S.run("g()")), sym("cfl", "pos") * S.I.E(S.run("opt(TA, v)")), w, "time steps are the CFL number times the optimal step of the initial data")
                    if adaptive:
                        S.run("slv.solution.set_value(U, TA)")
                        c.equal("%s/%s/later" % (key, adaptive), S.I.E(S.run("g()")), sym("cfl", "pos") * x, w, "adaptive steps follow the current solution")
                with c.part("%s/check-%s" % (key, adaptive), S, w):
                    seen = []

                    def oracle(cond):
                        seen.append(cond)
                        return False
                    old, S.I.oracle = S.I.oracle, oracle
                    try:
                        r = S.run("try:\n    slv._cfl_checker(TS, [TA], U)\n    err = False\nexcept core.CFLConditionViolatedError:\n    err = True\nerr", TS=sym("ts", "pos"))
                    finally:
                        S.I.oracle = old
                    cmp_ = [q for q in seen if X.contains(q, lambda t: t is sym("ts", "pos"))]
                    want = X.canon(X.cmp_("<", x, sym("ts", "pos")))
                    ok = None
                    if r is False and len(cmp_) == 1:
                        q = X.canon(cmp_[0])
                        ok = True if q is want else None
                    c.fact("%s/check-%s/checked" % (key, adaptive), ok, w, "solvers check their steps against the optimal step of each stage", str(cmp_)[:120])
        c.absorb(S)
    return run


def optimal_mesh(kind, p):
    """Optimal steps on a small mesh, where all ratios are explicit."""
    def run(c):
        if p:
            S = fe.make(c.model, kind, p, 3)
            n = 3 * p
            where = "finite_element/scalar/solver/cg_low.py:OptimalTimeStep (%s, degree %d)" % (kind, p)
        else:
            S = fv.swe(c.model) if kind == "swe" else fv.scalar(c.model, kind)
            n = 3
            where = "finite_volume/time_stepping.py:OptimalTimeStep (%s)" % kind
        with c.part("step", S, where):
            if p:
                S.bind(U=S.vec(n, "u"))
                S.run("from finite_element.scalar.solver import cg_low\nLM = fe.LumpedMassVector(space)\nD = fe.build_artificial_diffusion(PROBLEM, space)\nopt = cg_low.OptimalTimeStep(LM, fe.build_artificial_diffusion(PROBLEM, space))")
                x = S.I.E(S.run("opt(TA, U)", TA=sym("ta", "pos")))
                S.run("D.assemble(U)\nm = LM(U)")
                D, M = matrix(S, "D()"), S.A(S.run("m"))
                want = mn(*[S.I.E(M.fn((i,))) / (2 * ab(line(S, D, num(i))[num(i)])) for i in range(n)])
            else:
                S.bind(U=S.swe(n, "uh", "uq") if kind == "swe" else S.vec(n, "u"))
                builder = "swe.get_boundary_conditions" if kind == "swe" else "core.get_boundary_conditions"
                rs = "swe.RiemannSolver(G)" if kind == "swe" else "sc.get_riemann_solver(bench.problem)"
                S.run("from finite_volume import time_stepping as fts\nfrom finite_volume import scalar as sc\nbc = %s(*bench.boundary_conditions)\nrs = %s" % (builder, rs))
                x = S.I.E(S.run("fts.OptimalTimeStep(rs, bc, DX)(TA, U)", TA=sym("ta", "pos")))
                S.run("l, r = bc.get_node_neighbours(U)\nwl, wr = rs.wave_speed(l, r)")
                W = [S.A(S.run("wl")), S.A(S.run("wr"))]
                want = fv.DX / mx(*[ab(S.I.E(w.fn((i,)))) for w in W for i in range(n + 1)])
            c.equal("step", x, want, where, "the optimal step is the smallest admissible step")
        c.absorb(S)
    return run


CHECK = '''
def opt(t, u):
    return OPT(t, u[0])
chk = core.CFLChecker(opt)
try:
    chk(TS, [T1, T2, T3], V1, V2, V3)
    err = None
except core.CFLConditionViolatedError:
    err = "violated"
'''


def checker(c):
    """The check fires exactly when the step exceeds the optimal step of a stage."""
    where = "core/time_stepping.py:CFLChecker"
    for bad in (None, 0, 1, 2):
        for gap in ("exceeds", "equals"):
            if bad is None and gap == "exceeds":
                continue
            S = fv.swe(c.model)
            ts = sym("ts", "pos")
            S.bind(TS=ts, **{"T%d" % (i + 1): sym("t%d" % i, "pos") for i in range(3)})
            S.bind(**{"V%d" % (i + 1): S.vec(S.N, "v%d" % i) for i in range(3)})
            calls = []

            def opt(I, a, k):
                i = [j for j in range(3) if I.E(a[0]) is sym("t%d" % j, "pos")]
                calls.append((i, I.E(a[1])))
                i = i[0] if i else -1
                return ts if bad is None else ts - sym("gap", "pos") if i == bad and gap == "exceeds" else ts + sym("gap", "pos")
            S.bind(OPT=S.native("opt", opt))
            if bad is not None and gap == "equals":
                continue
            tag = "none" if bad is None else "stage-%d" % bad
            with c.part(tag, S, where, raises=True):
                S.run(CHECK)
                c.fact(tag, S.run("err") == (None if bad is None else "violated"), where, "a violation is reported exactly when the step exceeds the optimal step of a stage", "reported %s" % (S.run("err"),))
                for i, v in calls:
                    c.fact("%s/pair-%s" % (tag, i), len(i) == 1 and v is sym(("v%d" % i[0], num(0)), "real"), where, "every stage is checked with its own time and value")
            c.absorb(S)


SOLVER = '''
class S(core.Solver):
    def reinitialize(self, benchmark): pass
def check(ts, nodes, *stages):
    CHK(ts, nodes, stages)
    if BAD:
        raise core.CFLConditionViolatedError
def F(t, u): return u
sol_ = core.DiscreteSolution(U, initial_time=TA)
class Steps:
    time = 0.0
    def __iter__(self):
        return iter([DT])
s = S(sol_, F, core.Heun, Steps(), cfl_checker=check)
from tqdm.auto import tqdm
s.solve()
'''


def solver_check(c):
    """Steps are checked with the stages just computed; violations are reported and
    do not stop the calculation."""
    for bad in (False, True):
        S = fv.swe(c.model)
        where = "core/solver.py:Solver.solve"
        seen = []
        S.bind(U=S.vec(S.N, "u"), DT=sym("dt", "pos"), TA=sym("ta", "pos"), BAD=bad)

        def chk(I, a, k):
            S.bind(ND=a[1], ST=a[2])
            g = S.generic(S.N, "k")
            st = [S.I.E(S.A(v).fn((g,))) for v in S.I.seq_items(a[2])]
            nd = [S.I.E(v) for v in S.I.seq_items(a[1])]
            seen.append((I.E(a[0]), nd, st, sym(("u", g), "real")))
            return None
        S.bind(CHK=S.native("chk", chk))
        tag = "violated" if bad else "fine"
        with c.part(tag, S, where):
            S.run(SOLVER)
            dt, ta = sym("dt", "pos"), sym("ta", "pos")
            c.fact(tag + "/called", len(seen) == 1, where, "every step is checked once", "%d checks" % len(seen))
            for step, nd, st, u in seen:
                c.equal(tag + "/step", step, dt, where, "the check sees the step taken")
                for i, (got, want) in enumerate(zip(nd, (ta, ta + dt))):
                    c.equal("%s/node-%d" % (tag, i), got, want, where, "the check sees the stage times of this step")
                for i, (got, want) in enumerate(zip(st, (u, u + dt * u))):
                    c.equal("%s/stage-%d" % (tag, i), got, want, where, "the check sees the stages of this step")
                c.fact(tag + "/stages", len(st) == 2 and len(nd) == 2, where, "all stages are checked")
            g = S.generic(S.N, "k")
            u = sym(("u", g), "real")
            c.equal(tag + "/value", S.I.E(S.A(S.run("sol_.value")).fn((g,))), u + dt * u + dt * dt * u / 2, where, "a violation does not stop the calculation")
            c.equal(tag + "/time", S.I.E(S.run("sol_.time")), ta + dt, where, "a violation does not stop the calculation")
        c.absorb(S)


def scenarios(tier):
    from ..model import Model
    m = Model()
    out = [("speeds/swe", speeds_swe), ("speeds/dry", speeds_dry)]
    for p in ("advection", "burgers"):
        out.append(("speeds/%s" % p, speeds_scalar(p)))
    S = fv.swe(m)
    keys, getters = fv.keys(S, "sol.SOLVER_PARSER"), fv.keys(S, "sol.SHALLOW_WATER_FLUX_GETTER")
    for k in ("llf", "low-order"):
        if k in keys:
            out.append(("heights/%s/flat" % k, heights(k)))
    if "low-order" in keys:
        out.append(("heights/low-order/bottom", heights("low-order", bath="free")))
    if "llf" in keys:
        out.append(("heights/llf/bottom", heights("llf", bath="const")))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        if k in ("llf", "llf-fv", "lax-friedrichs"):
            for p in ("advection", "burgers"):
                out.append(("extrema/%s/%s" % (k, p), extrema(k, p)))
    for p in ("advection", "burgers"):
        for deg in (1, 2):
            out.append(("extrema/cg-low/%s/%d" % (p, deg), low_order_fe(p, deg)))
            out.append(("optimal/fe/%s/%d" % (p, deg), optimal_fe(p, deg)))
    for bc in ("periodic", ("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow"), ("wall", "wall")):
        for kind in ("swe", "swe-one-sided", "advection", "burgers"):
            if "wall" in bc and not kind.startswith("swe"):
                continue
            out.append(("optimal/fv/%s/%s" % (kind, bc if isinstance(bc, str) else "-".join(bc)), optimal_fv(kind, bc)))
    out += [("optimal/mesh/%s/%d" % (p, d), optimal_mesh(p, d)) for p in ("advection", "burgers") for d in (0, 1, 2)]
    out += [("optimal/mesh/swe", optimal_mesh("swe", 0))]
    out += [("checker", checker), ("solver", solver_check)]
    return out
