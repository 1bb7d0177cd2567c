"""Fluxes, wave speeds and schemes evaluate their documented formulas."""
from fractions import Fraction as F

from .. import expr as X, fv, ref as R
from .. import npmodel as NP
from ..expr import num, sym

ID = "C03"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: the right hand side that each registered finite volume solver assembles is computed as a term of a generic state and bathymetry on a mesh of "
    "arbitrary size and compared, next to both boundaries and at an arbitrary interior cell, with the formula of its scheme as algebraic normal forms; "
    "fluxes, entropy pairs, wave speeds and Riemann solvers are compared with theirs and with the identities that relate them.")
ASSUMPTIONS = ["real arithmetic", "wet states (dry ones where stated)", "the network is an opaque function of its input row",
               "the Lax-Wendroff flux is compared for vanishing time steps only (its correction is not documented)"]

E_ = F(1)


def gauss(S, i, bath):
    """Cell average of the bathymetry by the two point Gauss rule."""
    if bath != "free":
        return X.ZERO
    d = num(1) / (2 * X.fn("sqrt", num(3)))
    x = lambda s: X.canon(sym("a0", "pos") + fv.DX * (num(i) + F(1, 2) + s * d))
    return (X.app("bath", x(-1)) + X.app("bath", x(1))) / 2


class State:
    """Generic state extended by outflow conditions."""

    def __init__(self, S, bath="zero"):
        self.S, self.n, self.bath = S, S.N, bath

    def clamp(self, i):
        i = NP.simp(num(i))
        if X.idx_decide("<", i, X.ZERO):
            return num(0)
        if X.idx_decide(">=", i, num(self.n)):
            return NP.simp(self.n - 1)
        return i

    def __call__(self, i):
        i = self.clamp(i)
        return sym(("uh", i), "pos"), sym(("uq", i), "real")

    def scalar(self, i):
        return sym(("u", self.clamp(i)), "real")

    def b(self, i):
        return gauss(self.S, self.clamp(i), self.bath)

    def step(self, i):
        return self.b(i + 1) - self.b(i)


def cells(S):
    return [num(0), num(1), S.generic(S.N, "c"), NP.simp(S.N - 2), NP.simp(S.N - 1)]


def node(key, u, i):
    """Contributions (to the left cell, to the right cell) of the node right of cell i."""
    l, r, step = u(i), u(i + 1), u.step(i)
    if key == "low-order":
        return R.low_order(l, r, step)
    f = {"llf": R.llf, "lw": R.llf, "central": R.central, "es": R.es, "coarse": R.llf,
         "es1": lambda l, r: R.es1(l, r, u.b(i), u.b(i + 1))}.get(key)
    return None if f is None else R.pair(f(l, r), l, r, step)


def plus(a, b):
    return tuple(tuple(x + y for x, y in zip(p, q)) for p, q in zip(a, b))


def antidiffusion(u, i, gamma):
    a = tuple(gamma * (y - x) / fv.DX for x, y in zip(u(i), u(i + 1)))
    return tuple(-x for x in a), a


def update(pairs, i):
    """Right hand side of cell i from the contributions of its nodes."""
    right = pairs(i - 1)[1]
    left = pairs(i)[0]
    return [(a + b) / fv.DX for a, b in zip(left, right)]


def compare(c, S, where, r, pairs, comps, rule, mesh=None):
    v = S.A(S.run("r(TA, U)", r=r, TA=sym("ta", "pos")))
    for i in cells(S):
        for q, want in enumerate(update(pairs, i)):
            got = S.I.E(v.fn((i, q) if comps == 2 else (i,)))
            c.equal("rhs[%s,%d]" % (i, q), got, want, where, rule)


def swe_solver(key, bath):
    def run(c):
        S = fv.swe(c.model, ("outflow", "outflow"), bath)
        S.generic_data(["bath", "uh", "uq"] if bath == "free" else ["uh", "uq"])
        u = State(S, bath)
        where = "shallow water solver %r" % key
        with c.part(key, S, where):
            S.bind(U=S.swe(S.N, "uh", "uq"))
            slv = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N)" % key)
            r = S.run("slv.as_dict()['right_hand_side']", slv=slv)
            if key == "lw":
                S.run("r.set_time_step(0.0)", r=r)
            if key == "antidiffusion":
                S.bind(slv=S.run("sol.SOLVER_PARSER['antidiffusion'].solver(bench, mesh_size=N, gamma=GA)", GA=sym("gamma", "pos")))
                r = S.run("slv.as_dict()['right_hand_side']")
                pairs = lambda i: plus(node("llf", u, i), antidiffusion(u, i, sym("gamma", "pos")))
            elif key == "mcl":
                pairs = (lambda i: R.pair(R.mcl(u, i), u(i), u(i + 1), X.ZERO)) if bath == "zero" else lambda i: R.mcl_free(u, i, u.step, node("central", u, i))
            else:
                pairs = lambda i: node(key, u, i)
                if pairs(num(1)) is None:
                    c.unknown("formula", where, "formula of the scheme", "not documented")
                    return
            compare(c, S, where, r, pairs, 2, "the update is the formula of the scheme")
        c.absorb(S)
    return run


def composed(outer, key, bath):
    def run(c):
        S = fv.swe(c.model, ("outflow", "outflow"), bath)
        S.generic_data(["bath", "uh", "uq"] if bath == "free" else ["uh", "uq"])
        u = State(S, bath)
        where = "shallow water solver %r with flux %r" % (outer, key)
        with c.part(outer, S, where):
            S.bind(U=S.swe(S.N, "uh", "uq"), GA=sym("gamma", "pos"))
            extra = ", gamma=GA" if outer == "antidiffusion" else ""
            S.run("slv = sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, flux_getter=sol.SHALLOW_WATER_FLUX_GETTER[%r]%s)" % (outer, key, extra))
            r = S.run("slv.as_dict()['right_hand_side']")
            if node(key, u, num(1)) is None:
                c.unknown("formula", where, "formula of the scheme", "not documented")
                return
            if outer == "antidiffusion":
                pairs = lambda i: plus(node(key, u, i), antidiffusion(u, i, sym("gamma", "pos")))
            else:
                high = lambda i: node(key, u, i)[1]
                pairs = (lambda i: R.pair(R.mcl(u, i, lambda l, r: high(i)), u(i), u(i + 1), X.ZERO)) if bath == "zero" else lambda i: R.mcl_free(u, i, u.step, node(key, u, i))
            compare(c, S, where, r, pairs, 2, "the update is the formula of the scheme")
        c.absorb(S)
    return run


def network(key):
    """Learned correction: base flux plus an output of the network for the four
    cells around the node."""
    def run(c):
        S = fv.swe(c.model, ("outflow", "outflow"))
        S.generic_data(["uh", "uq"])
        u = State(S)
        where = "shallow water solver %r" % key
        with c.part(key, S, where):
            S.bind(U=S.swe(S.N, "uh", "uq"))
            r = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side']" % key)
            v = S.A(S.run("r(TA, U)", r=r, TA=sym("ta", "pos")))
            for i in cells(S):
                for q in (0, 1):
                    got = S.I.E(v.fn((i, q)))
                    base = update(lambda j: node("llf", u, j), i)[q]
                    nets = {}
                    collect(got, nets)
                    other = [t for t in nets if NP.simp_int(t.args[1]) != q]
                    c.fact("outputs[%s,%d]" % (i, q), not other, where, "corrections of a quantity are the output for this quantity")
                    left, right, stray = [], [], []
                    for t in nets:
                        j = seen(t, u, i)
                        (stray if j is None else left if j is i else right).append(t)
                    c.fact("inputs[%s,%d]" % (i, q), not stray and len(left) == 1 and len(right) == 1, where, "the network sees the two cells on each side of a node",
                           "%d other inputs, %d and %d of the nodes" % (len(stray), len(left), len(right)))
                    if len(left) != 1 or len(right) != 1:
                        continue
                    pl, pr = sym("probe_l", "real"), sym("probe_r", "real")
                    d = X.subst(got - base, {left[0]: pl, right[0]: pr})
                    c.zero("opposite[%s,%d]" % (i, q), X.subst(d, {pl: pr}), where, "equal corrections of both nodes cancel and leave the update of the base flux")
                    k = X.subst(d, {pl: num(0)}) - X.subst(d, {pl: num(0), pr: num(0)})
                    for n, b in enumerate(branches(X.subst(k, {pr: num(1)}))):
                        c.ob("sign[%s,%d,%d]" % (i, q, n), verdict_sign(b), where, "corrections flow into the right cell")
        c.absorb(S)
    return run


def collect(e, out, memo=None):
    memo = set() if memo is None else memo
    if e.id in memo:
        return
    memo.add(e.id)
    if e.op == "app" and e.args[0] == "net":
        out[e] = True
    for k in X.kids(e):
        collect(k, out, memo)


def branches(e, depth=0):
    """Alternatives of a gated term."""
    g = X.find_gate(e)
    if g is None or depth > 4:
        return [e]
    return branches(X.assume_cond(e, g, X.TRUE), depth + 1) + branches(X.assume_cond(e, g, X.FALSE), depth + 1)


def seen(t, u, i):
    """The node (by its left cell: i or i-1) whose four cells a network term sees."""
    for j in (num(i), NP.simp(num(i) - 1)):
        want = [x for d in (-1, 0, 1, 2) for x in u(NP.simp(j + d))]
        if len(t.args) - 2 == len(want) and all(only(a, w) for a, w in zip(t.args[2:], want)):
            return i if j is num(i) else j
    return None


def only(a, w):
    """Is a (scaled) input an increasing affine function of the value w alone?"""
    ls = {l for l in X.leaves(a) if isinstance(l.args[0], tuple) and l.args[0][0] in ("uh", "uq")}
    if ls != {w}:
        return False
    return all(verdict_sign(b) == X.PROVED for b in branches(X.subst(a, {w: w + 1}) - a))


def verdict_sign(k):
    v, _ = X.is_nonneg(k)
    if v != X.PROVED:
        return v
    z, _ = X.is_zero(k)
    return X.REFUTED if z == X.PROVED else X.PROVED


def scalar_solver(problem, key):
    def run(c):
        S = fv.scalar(c.model, problem, ("outflow", "outflow"))
        S.generic_data(["u"])
        u = State(S)
        where = "scalar solver %r (%s)" % (key, problem)
        f = {"llf": lambda i: R.sllf(problem, u.scalar(i), u.scalar(i + 1)),
             "central": lambda i: R.scentral(problem, u.scalar(i), u.scalar(i + 1)),
             "mcl-fv": lambda i: R.smcl(problem, u.scalar, i)}.get(key)
        if f is None:
            c.unknown("formula", where, "formula of the scheme", "not documented")
            return
        with c.part(key, S, where):
            S.bind(U=S.vec(S.N, "u"))
            r = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side']" % key)
            compare(c, S, where, r, lambda i: ((-f(i),), (f(i),)), 1, "the update is the formula of the scheme")
        c.absorb(S)
    return run


def physics(vector):
    """Flux, entropy variables, potential, velocities and wave speeds."""
    def run(c):
        S = fv.swe(c.model)
        where = "finite_volume/shallow_water/core.py"
        kind = "vector" if vector else "single state"
        n = S.N
        g = S.generic(n, "k") if vector else None
        if vector:
            S.bind(L=S.swe(n, "lh", "lq"), RR=S.swe(n, "rh", "rq"), B=S.vec(n, "b"))
            S.bind(DRY=S.swe(n, "lh", "lq"))
            l, r = (sym(("lh", g), "pos"), sym(("lq", g), "real")), (sym(("rh", g), "pos"), sym(("rq", g), "real"))
            b = sym(("b", g), "real")
        else:
            S.bind(L=S.run("np.array([a, b])", a=sym("lh", "pos"), b=sym("lq", "real")), RR=S.run("np.array([a, b])", a=sym("rh", "pos"), b=sym("rq", "real")), B=sym("b", "real"))
            l, r, b = (sym("lh", "pos"), sym("lq", "real")), (sym("rh", "pos"), sym("rq", "real")), sym("b", "real")
        at = lambda v, q=None: S.I.E(S.A(v).fn(((g,) if vector else ()) + ((q,) if q is not None else ())))

        def check(key, src, want, rule, raises=True):
            with c.part(key, S, where, raises=raises):
                v = S.run(src)
                for q, w in enumerate(want):
                    c.equal("%s[%d]" % (key, q), at(v, q if len(want) > 1 else None), w, where + " (%s)" % kind, rule)

        S.generic_data(["lh", "lq", "rh", "rq", "b"])
        check("flux", "swe.Flux(G)(L)", R.flux(l), "shallow water flux (q, q^2/h + g h^2/2)")
        check("entropy", "swe.Entropy(G)(L)", R.entropy(l, X.ZERO), "entropy variables (g(h+b) - u^2/2, u)")
        if vector:
            check("entropy-bathymetry", "swe.Entropy(G)(L, B)", R.entropy(l, b), "entropy variables (g(h+b) - u^2/2, u)")
            check("entropy-keyword", "swe.Entropy(G)(L, bathymetry=B)", R.entropy(l, b), "entropy variables (g(h+b) - u^2/2, u)")
        check("potential", "swe.Potential(G)(L)", [G_half() * l[0] * l[1]], "potential g/2 h^2 u")
        check("velocity", "swe.get_velocity(L)", [l[1] / l[0]], "velocity q/h of wet states")
        if vector:
            # shallow cells: the velocity is regularised, never larger than q/h
            S.bind(EPS=sym("eps", "pos"))
            eps = S.I.E(S.run("EPS"))
            for tag, h, want in (("shallow", eps / 2, l[1] * 4 / (5 * eps)), ("threshold", eps, l[1] / eps), ("deep", 2 * eps, l[1] / (2 * eps)), ("dry", X.ZERO, X.ZERO)):
                S.bind(SH=h, SQ=S.vec(n, "lq"), M=n)
                check("velocity-%s" % tag, "swe.get_velocity(np.array([SH * np.ones(M), SQ]).T, EPS)", [want], "velocity of shallow cells is 2hq/(h^2 + max(h, eps)^2)")
            eps = S.I.E(S.run("import defaults\ndefaults.EPSILON"))
            for tag, h, q, want in (("dry", eps / 2, 1, (0, 0)), ("resting", 1, eps / 2, (1, 0)), ("resting-left", 1, -eps / 2, (1, 0)), ("moving-left", 2, num(-1), (2, -1)), ("wet", 2, 3, (2, 3))):
                S.bind(SH=h, SQ=q, ONE=S.run("np.ones(M)", M=n))
                check("nullify-%s" % tag, "swe.nullify(np.array([SH * ONE, SQ * ONE]).T)", [num(x) for x in want], "small heights and discharges are set to zero")
        check("average", "swe.get_average(L, RR)", [(x + y) / 2 for x, y in zip(l, r)], "arithmetic mean")
        with c.part("speeds", S, where, raises=True):
            cl, cr = R.sq(R.G * l[0]), R.sq(R.G * r[0])
            ul, ur = l[1] / l[0], r[1] / r[0]
            for name, lo, hi in (("MaximumWaveSpeed", -R.speed(l, r), R.speed(l, r)),
                                 ("WaveSpeed", R.mn(ul - cl, ur - cr, num(0)), R.mx(ul + cl, ur + cr, num(0)))):
                S.run("a, b = swe.%s(G)(L, RR)" % name)
                c.equal("%s-left" % name, at(S.run("a")), lo, where, "left wave speed")
                c.equal("%s-right" % name, at(S.run("b")), hi, where, "right wave speed")
        with c.part("gravity", S, where):
            gd = S.run("import defaults\ndefaults.GRAVITATIONAL_ACCELERATION")
            for name, call, q in (("Flux", "swe.Flux({})(L)", 1), ("Entropy", "swe.Entropy({})(L)", 0), ("Potential", "swe.Potential({})(L)", None)):
                a, e = at(S.run(call.format("")), q), at(S.run(call.format("G")), q)
                c.equal("default-%s" % name, a, X.subst(e, {R.G: S.I.E(gd)}), where, "the default gravitational acceleration is used unless one is given")
        if vector:
            with c.part("jacobian", S, where, raises=True):
                v = S.A(S.run("swe.FluxJacobian(G)(L)"))
                u, h = l[1] / l[0], l[0]
                d = {(0, 0): num(0), (0, 1): num(1), (1, 0): R.G * h - u * u, (1, 1): 2 * u}
                for (i, j), w in d.items():
                    got = S.I.E(v.fn((g, i, j)))
                    key = "jacobian-exchanged" if i == 1 and X.is_zero(got - d[(1, 1 - j)])[0] == X.PROVED else "jacobian"
                    c.equal("%s[%d,%d]" % (key, i, j), got, w, where + ":FluxJacobian", "the Jacobian holds the derivatives of the flux")
        c.absorb(S)
    return run


def G_half():
    return R.G / 2


def dry(c):
    """Dry states have no flux, negative heights are rejected."""
    S = fv.swe(c.model)
    where = "finite_volume/shallow_water/core.py"
    for vector in (True, False):
        tag = "vector" if vector else "single"
        for kind, val in (("zero", 0), ("negative", -1)):
            with c.part("%s-%s" % (tag, kind), S, where):
                g = S.generic(S.N, "k")
                if vector:
                    S.bind(D=NP.new_arr(S.I, (S.N, 2), lambda ix: (num(val) if kind == "zero" else
                           X.ite(X.cmp_("==", num(ix[0]), g), num(-1), num(1))) if NP.simp_int(ix[1]) == 0 else sym(("q", num(ix[0])), "real")))
                else:
                    S.bind(D=S.run("np.array([float(v), Q])", v=val, Q=sym("q", "real")))
                S.run('''
try:
    out = swe.Flux(G)(D)
    err = None
except ValueError:
    err = "ValueError"
''')
                err = S.run("err")
                if kind == "negative":
                    c.fact("%s-negative" % tag, err == "ValueError", where + ":Flux", "negative heights are rejected", "no error")
                else:
                    c.fact("%s-dry" % tag, err is None, where + ":Flux", "dry states are accepted", str(err))
                    for q in (0, 1):
                        c.equal("%s-dry[%d]" % (tag, q), S.I.E(S.A(S.run("out")).fn((g, q) if vector else (q,))), num(0), where + ":Flux", "dry states have no flux")
    c.absorb(S)


def riemann(kind, waves="both"):
    """Two-wave Riemann solver for opaque fluxes and wave speeds."""
    def speeds(S, n):
        none = NP.new_arr(S.I, (n,), lambda ix: num(0))
        return (S.vec(n, "wl", "pos") if waves != "right" else none), (S.vec(n, "wr", "pos") if waves != "left" else none)

    def run(c):
        S = fv.swe(c.model)
        where = "core/riemann_solver.py"
        n = S.N
        g = S.generic(n, "k")
        with c.part("hll", S, where, raises=True):
            if kind == "scalar":
                S.bind(L=S.vec(n, "l"), RR=S.vec(n, "r"))
                L, Rr = [sym(("l", g), "real")], [sym(("r", g), "real")]
                S.bind(FX=S.native("flux", lambda I, a, k: NP.new_arr(I, (n,), lambda ix: X.app("flux", I.E(S.A(a[0]).fn(ix))))))
                f = lambda v: [X.app("flux", v[0])]
            else:
                S.bind(L=S.swe(n, "lh", "lq"), RR=S.swe(n, "rh", "rq"))
                L, Rr = [sym(("lh", g), "pos"), sym(("lq", g), "real")], [sym(("rh", g), "pos"), sym(("rq", g), "real")]
                WL, WR = speeds(S, n)
                S.bind(WS=S.native("speed", lambda I, a, k: (S.run("-WL"), S.run("WR"))), WL=WL, WR=WR)
                S.run("rs = swe.RiemannSolver(G, WS)")
                f = lambda v: R.flux(v)
            if kind == "scalar":
                WL, WR = speeds(S, n)
                S.bind(WL=WL, WR=WR)
                S.bind(WS=S.native("speed", lambda I, a, k: (S.run("-WL"), S.run("WR"))))
                S.run("rs = core.RiemannSolver(FX, WS)")
            wl = -sym(("wl", g), "pos") if waves != "right" else num(0)
            wr = sym(("wr", g), "pos") if waves != "left" else num(0)
            S.run("F, ST = rs.solve(L, RR)")
            fl, fr = f(L), f(Rr)
            for q in range(len(L)):
                ix = (g,) if kind == "scalar" else (g, q)
                st = (wr * Rr[q] - wl * L[q] - (fr[q] - fl[q])) / (wr - wl)
                fx = fl[q] + wl * (st - L[q])
                at = lambda src: S.I.E(S.A(S.run(src)).fn(ix))
                c.equal("state[%d]" % q, at("ST"), st, where, "HLL state: mean of the solution between the waves")
                c.equal("flux[%d]" % q, at("F"), fx, where, "HLL flux: Rankine-Hugoniot across the left wave")
                c.equal("flux-right[%d]" % q, at("F"), fr[q] + wr * (st - Rr[q]), where, "HLL flux: Rankine-Hugoniot across the right wave")
                c.equal("record-state[%d]" % q, at("rs.intermediate_state"), st, where, "the solver keeps the intermediate state")
                c.equal("record-left[%d]" % q, at("rs.flux_left"), fl[q], where, "the solver keeps the fluxes of both states")
                c.equal("record-right[%d]" % q, at("rs.flux_right"), fr[q], where, "the solver keeps the fluxes of both states")
            c.equal("speed-left", S.I.E(S.A(S.run("rs.wave_speed_left")).fn((g,))), wl, where, "the solver keeps the wave speeds")
            c.equal("speed-right", S.I.E(S.A(S.run("rs.wave_speed_right")).fn((g,))), wr, where, "the solver keeps the wave speeds")
        c.absorb(S)
    return run


def tadmor(c):
    """The energy conservative flux satisfies [V] F = [Psi]."""
    S = fv.swe(c.model)
    where = "finite_volume/shallow_water/solver/energy_stable.py:EnergyStableFlux"
    n = S.N
    g = S.generic(n, "k")
    with c.part("tadmor", S, where, raises=True):
        S.bind(L=S.swe(n, "lh", "lq"), RR=S.swe(n, "rh", "rq"))
        S.run("F = sol.EnergyStableFlux(G)(L, RR)[1]\nV = swe.Entropy(G)(RR) - swe.Entropy(G)(L)\nP = swe.Potential(G)(RR) - swe.Potential(G)(L)")
        e = S.I.E(S.A(S.run("V[:, 0] * F[:, 0] + V[:, 1] * F[:, 1] - P")).fn((g,)))
        c.zero("identity", e, where, "entropy variables times flux equals the jump of the potential")
    c.absorb(S)


def scalar_physics(problem):
    def run(c):
        S = fv.scalar(c.model, problem)
        where = "finite_volume/scalar/core.py"
        n = S.N
        g = S.generic(n, "k")
        with c.part("physics", S, where, raises=True):
            S.bind(L=S.vec(n, "l"), RR=S.vec(n, "r"))
            l, r = sym(("l", g), "real"), sym(("r", g), "real")
            at = lambda src: S.I.E(S.A(S.run(src)).fn((g,)))
            c.equal("flux", at("scalar.get_flux(PROBLEM)(L)"), R.sflux(problem, l), where, "flux of the equation")
            S.run("a, b = scalar.get_wave_speed(PROBLEM)(L, RR)")
            c.equal("speed-left", at("a"), -R.sspeed(problem, l, r), where, "left wave speed: largest |f'|")
            c.equal("speed-right", at("b"), R.sspeed(problem, l, r), where, "right wave speed: largest |f'|")
            S.run("F, ST = scalar.get_riemann_solver(PROBLEM).solve(L, RR)")
            c.equal("llf", at("F"), R.sllf(problem, l, r), where, "local Lax-Friedrichs flux")
            c.equal("state", at("ST"), R.sbar(problem, l, r), where, "intermediate state")
        for f in ("get_flux", "get_wave_speed"):
            with c.part(f, S, where):
                S.run("try:\n    scalar.%s('unknown')\n    err = None\nexcept ValueError:\n    err = 'ValueError'" % f)
                c.fact("unknown-%s" % f, S.run("err") == "ValueError", where, "unknown equations are rejected")
        c.absorb(S)
    return run


def wrappers(c):
    """Composition of numerical fluxes."""
    S = fv.swe(c.model, ("outflow", "outflow"))
    where = "finite_volume/numerical_flux.py"
    n = S.N
    g = S.generic(n, "k")

    def opaque(name, dim):
        def call(I, a, k):
            out = []
            for side in ("l", "r"):
                out.append(NP.new_arr(I, (S.A(a[0]).shape[0], 2), lambda ix, side=side: X.app(name + side, num(ix[1]), *[I.E(S.A(v).fn((ix[0], q))) for v in a for q in (0, 1)])))
            return tuple(out)
        S.bind(**{name: S.native(name, call)})
        S.run("class C_%s(finite_volume.NumericalFlux):\n    input_dimension = %d\n    def __call__(self, *values):\n        assert len(values) == %d\n        return %s(*values)\nF_%s = C_%s()" % (name, dim, dim, name, name, name))

    with c.part("setup", S, where):
        opaque("p", 2)
        opaque("s", 4)
        vals = {}
        for j in range(6):
            S.bind(**{"V%d" % j: S.swe(n, ("vh", j), ("vq", j))})
        v = lambda j: [sym((("vh", j), g), "pos"), sym((("vq", j), g), "real")]
        app = lambda name, q, js: X.app(name, num(q), *[x for j in js for x in v(j)])
    with c.part("corrected", S, where, raises=True):
        for a, b in (("p", "s"), ("s", "p"), ("p", "p"), ("s", "s")):
            S.run("fl, fr = finite_volume.CorrectedNumericalFlux(F_%s, F_%s)(%s)" % (a, b, "V1, V2" if a == b == "p" else "V0, V1, V2, V3"))
            c.fact("dimension-%s%s" % (a, b), S.run("finite_volume.CorrectedNumericalFlux(F_%s, F_%s).input_dimension" % (a, b)) == (2 if a == b == "p" else 4), where, "a corrected flux needs the values of the wider flux")
            js = lambda k: (1, 2) if k == "p" else (0, 1, 2, 3)
            for q in (0, 1):
                for side, src in (("l", "fl"), ("r", "fr")):
                    c.equal("corrected-%s%s-%s[%d]" % (a, b, side, q), S.I.E(S.A(S.run(src)).fn((g, q))), app(a + side, q, js(a)) + app(b + side, q, js(b)), where + ":CorrectedNumericalFlux",
                            "sum of both fluxes, each evaluated at the innermost values")
    with c.part("required", S, where, raises=True):
        for have in (2, 4, 6):
            for need in (2, 4, 6):
                args = ", ".join("V%d" % j for j in range(have))
                if need > have:
                    S.run("try:\n    finite_volume.get_required_values(%d, %s)\n    ok = True\nexcept Exception:\n    ok = False" % (need, args))
                    c.fact("required-%d-%d" % (need, have), S.run("ok") is False, where + ":get_required_values", "missing values are rejected")
                    continue
                out = S.items(S.run("finite_volume.get_required_values(%d, %s)" % (need, args)))
                d = (have - need) // 2
                c.fact("required-%d-%d" % (need, have), len(out) == need and all(S.I.E(S.A(o).fn((g, 0))) is v(d + j)[0] for j, o in enumerate(out)), where + ":get_required_values", "the innermost values are kept")
    with c.part("history", S, where, raises=True):
        S.run("hf = finite_volume.NumericalFluxWithHistory(F_p)\na = hf(V0, V1)\nb = hf(V2, V3)\nd = hf(V4, V5)\nhl, hr = hf.flux_left_history, hf.flux_right_history")
        for side, src, q in (("l", "hl", 0), ("r", "hr", 1)):
            A = S.A(S.run(src))
            c.fact("history-%s" % side, NP.dim_eq(A.shape[0], 3), where + ":NumericalFluxWithHistory", "every evaluation is recorded")
            for t, js in enumerate(((0, 1), (2, 3), (4, 5))):
                c.equal("history-%s[%d]" % (side, t), S.I.E(A.fn((t, g, q))), app("p" + side, q, js), where + ":NumericalFluxWithHistory", "fluxes are recorded in order")
                c.equal("flux-%s[%d]" % (side, t), S.I.E(S.A(S.run("(a, b, d)[%d][%d]" % (t, 0 if side == "l" else 1))).fn((g, q))), app("p" + side, q, js), where + ":NumericalFluxWithHistory", "fluxes are handed through")
    with c.part("right-hand-side", S, where, raises=True):
        for name, dim in (("p", 2), ("s", 4)):
            S.bind(U=S.swe(n, "uh", "uq"), DXX=fv.DX)
            S.run("bc = swe.get_boundary_conditions('outflow', 'outflow', radius=%d)\nrr = finite_volume.NumericalFluxDependentRightHandSide(F_%s, DXX, bc)" % (dim // 2, name))
            u = State(S)
            val = lambda side, i, q: X.app(name + side, num(q), *[x for d in range(1 - dim // 2, dim // 2 + 1) for x in u(i + d)])
            A = S.A(S.run("rr(TA, U)", TA=sym("ta", "pos")))
            for i in cells(S):
                for q in (0, 1):
                    c.equal("rhs-%d[%s,%d]" % (dim, i, q), S.I.E(A.fn((i, q))), (val("l", i, q) + val("r", i - 1, q)) / fv.DX, where + ":NumericalFluxDependentRightHandSide",
                            "contributions of both nodes of a cell over its length")
    c.absorb(S)


def topography(bath):
    """Cell averages of the bathymetry and its classification."""
    def run(c):
        S = fv.swe(c.model, "periodic", bath)
        where = "finite_volume/shallow_water/core.py"
        with c.part("bathymetry", S, where, raises=True):
            A = S.A(S.run("swe.build_bathymetry_discretization(bench, N)"))
            c.fact("size", NP.dim_eq(A.shape[0], S.N), where, "one value per cell")
            for i in cells(S):
                want = gauss(S, i, bath) if bath == "free" else (num(0) if bath == "zero" else sym("b0", "real"))
                c.equal("average[%s]" % i, S.I.E(A.fn((i,))), want, where, "cell averages of the bathymetry")
            c.fact("constant", S.run("bool(swe.is_constant(swe.build_bathymetry_discretization(bench, N)))") == (bath != "free"), where + ":is_constant", "constant bathymetries are recognised")
            S.run("try:\n    swe.assert_constant_bathymetry(bench, N)\n    ok = True\nexcept AssertionError:\n    ok = False")
            c.fact("assert", S.run("ok") == (bath != "free"), where + ":assert_constant_bathymetry", "variable bathymetries are rejected")
        c.absorb(S)
    return run


def scenarios(tier):
    from ..model import Model
    m = Model()
    S = fv.swe(m)
    out = []
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        if k.startswith("reduced"):
            out.append(("network/%s" % k, network(k)))
            continue
        if k == "coarse":
            continue
        for bath in ("zero", "free"):
            out.append(("swe/%s/%s" % (k, bath), swe_solver(k, bath)))
    for k in fv.keys(S, "sol.SHALLOW_WATER_FLUX_GETTER"):
        if k.startswith("reduced"):
            continue
        out.append(("antidiffusion/%s" % k, composed("antidiffusion", k, "free")))
        out.append(("mcl/%s" % k, composed("mcl", k, "zero")))
        out.append(("mcl-free/%s" % k, composed("mcl", k, "free")))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        for p in ("advection", "burgers"):
            out.append(("scalar/%s/%s" % (k, p), scalar_solver(p, k)))
    out += [("physics/vector", physics(True)), ("physics/single", physics(False)), ("dry", dry), ("tadmor", tadmor), ("scalar-physics/advection", scalar_physics("advection")), ("scalar-physics/burgers", scalar_physics("burgers")), ("wrappers", wrappers)]
    for kind in ("scalar", "system"):
        for waves in ("both", "left", "right"):
            out.append(("riemann/%s/%s" % (kind, waves), riemann(kind, waves)))
    out += [("topography/%s" % b, topography(b)) for b in ("zero", "const", "free")]
    return out
