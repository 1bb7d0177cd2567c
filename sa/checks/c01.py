"""Conservation of the semi-discrete finite volume schemes."""
from .. import expr as X, fe, fv
from .. import npmodel as NP
from ..expr import num, sym

ID = "C01"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation of the registered solvers: the right hand side that each solver assembles is computed as a term of its "
    "degrees of freedom for a mesh of arbitrary size; for states that are constant outside three free cells the sum of the cell updates "
    "must be, as a rational-function identity, the difference of the physical fluxes of the outer states (telescoping).")
ASSUMPTIONS = [
    "real arithmetic (no rounding)", "wet states: positive heights exceed the dry tolerance",
    "stencil width of a scheme is at most three cells", "the opaque network output is a deterministic function of its input row"]
RULE = "telescoping sum of cell updates equals outer flux difference"


def check_rhs(c, S, key, r, comps, flux, width=3, m=3, flat=True, where=""):
    I = S.I
    g = S.generic(S.N, "k")
    u = fv.piecewise(S, S.N, g, m, comps)
    v = S.run("r(0.0, u)", r=r, u=u)
    vec = len(comps) > 1
    names = [n for n, _ in comps]
    doms = dict(comps)
    fw = flux(*[sym((n, "w"), doms[n]) for n in names])
    fvv = flux(*[sym((n, "v"), doms[n]) for n in names])
    if not vec:
        fw, fvv = (fw,), (fvv,)
    for q in range(len(comps)):
        if q > 0 and not flat:
            continue
        t = fv.total(S, v, g, m, width, q if vec else None)
        if learned(t):
            same = {sym((n, "v"), d): sym((n, "w"), d) for n, d in comps}
            c.zero("%s/%s" % (key, names[q]), X.subst(t, same), where, "a compact perturbation of a constant state keeps the total")
            continue
        c.zero("%s/%s" % (key, names[q]), t * fv.DX - (fw[q] - fvv[q]), where, RULE)


def learned(t):
    """Does the update contain the output of a trained network?  Its flux is not
    consistent, hence only cancellation can be asked for."""
    return X.contains(t, lambda e: e.op == "app" and e.args[0] == "net")


def wrap(c, S, key, r, comps, flat, where):
    """Periodic wrap: free cells at both ends, a constant in between."""
    I, N = S.I, S.N
    vec = len(comps) > 1

    def val(name, dom, i):
        i = num(i)
        for p in (0, 1):
            if X.isign(i - p) == 0:
                return sym((name, p), dom)
            if X.isign(i - (N - 1 - p)) == 0:
                return sym((name, -1 - p), dom)
        return sym((name, "w"), dom)

    if vec:
        u = NP.new_arr(I, (N, 2), lambda ix: val(comps[ix[1]][0], comps[ix[1]][1], ix[0]))
    else:
        u = NP.new_arr(I, (N,), lambda ix: val(comps[0][0], comps[0][1], ix[0]))
    v = S.run("r(0.0, u)", r=r, u=u)
    for q in range(len(comps)):
        if q > 0 and not flat:
            continue
        t = X.ZERO
        for p in list(range(5)) + [NP.simp_int(N - d) for d in range(5, 0, -1)]:
            t = t + I.E(S.A(v).fn((p, q) if vec else (p,)))
        c.zero("%s/wrap-%s" % (key, comps[q][0]), t, where, "periodic updates sum to zero")


def wall(c, S, key, r, comps, where):
    """Mass is neither created nor lost at a wall."""
    I, N = S.I, S.N

    for side in ("left", "right"):
        def val(name, dom, i):
            i = num(i)
            for p in (0, 1, 2):
                if X.isign(i - (p if side == "left" else N - 1 - p)) == 0:
                    return sym((name, p), dom)
            return sym((name, "w"), dom)

        u = NP.new_arr(I, (N, 2), lambda ix: val(comps[ix[1]][0], comps[ix[1]][1], ix[0]))
        v = S.run("r(0.0, u)", r=r, u=u)
        t = X.ZERO
        for p in range(6):
            t = t + I.E(S.A(v).fn((p if side == "left" else NP.simp_int(N - 1 - p), 0)))
        if learned(t):
            continue
        qw = sym(("q", "w"), "real")
        c.zero("%s/wall-%s" % (key, side), t * fv.DX + (qw if side == "left" else -qw), where, "no mass flux through a wall")


HQ = [("h", "pos"), ("q", "real")]


def make_rhs(S, key):
    extra = ", coarsening_degree=2" if key == "coarse" else ""
    slv = fv.solver(S, key, extra)
    r = fv.rhs(S, slv)
    if key == "lw":
        S.run("r.set_time_step(TS)", r=r, TS=sym("ts", "pos"))
    return r


def swe_scenario(key, bc, bath):
    def run(c):
        S = fv.swe(c.model, bc, bath)
        where = "shallow water solver %r" % key
        with c.part(key, S, where):
            r = make_rhs(S, key)
            flat = bath == "zero"
            if bc == "periodic":
                check_rhs(c, S, key, r, HQ, fv.swe_flux, flat=flat, where=where)
                if bath == "zero":
                    wrap(c, S, key, r, HQ, flat, where)
            else:
                wall(c, S, key, r, HQ, where)
        c.absorb(S)
    return run


def getter_scenario(outer):
    """Every registered flux below a composing solver."""
    def run(c):
        S = fv.swe(c.model, "periodic", "zero")
        for key in fv.keys(S, "sol.SHALLOW_WATER_FLUX_GETTER"):
            where = "%s with flux %r" % (outer, key)
            with c.part(key, S, where):
                g = S.run("sol.SHALLOW_WATER_FLUX_GETTER[%r]" % key)
                S.bind(FG=g)
                slv = fv.solver(S, outer, ", flux_getter=FG" + (", gamma=GA" if outer == "antidiffusion" else "")
                                ) if outer != "antidiffusion" else S.run(
                    "sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, flux_getter=FG, gamma=GA)" % outer, GA=sym("gamma", "pos"))
                r = fv.rhs(S, slv)
                check_rhs(c, S, key, r, HQ, fv.swe_flux, where=where)
        c.absorb(S)
    return run


def scalar_scenario(problem, key):
    def run(c):
        S = fv.scalar(c.model, problem)
        where = "scalar solver %r (%s)" % (key, problem)
        with c.part(key, S, where):
            r = fv.rhs(S, fv.solver(S, key))
            flux = lambda u: fv.scalar_flux(problem, u)
            check_rhs(c, S, key, r, [("u", "real")], flux, where=where)
            wrap(c, S, key, r, [("u", "real")], True, where)
        c.absorb(S)
    return run


def fe_scenario(problem, key, p):
    """sum(m_i u_i) is preserved by the periodic finite element solvers."""
    def run(c):
        S = fe.make(c.model, problem, p)
        where = "finite element solver %r (%s, degree %d)" % (key, problem, p)
        with c.part(key, S, where):
            r = fe.rhs(S, fe.solver(S, key))
            L = S.A(S.run("fe.LumpedMassVector(space)(space.grid)"))
            g = S.generic(S.N, "k")
            for name, u, k, lo, hi in (("interior", fe.state(S, g, 2), g, -3 * p, 4 * p + 2),
                                       ("wrap", fe.edge_state(S, width=1 if p == 1 else 2), num(0), -4 * p, 4 * p)):
                v = S.A(S.run("r(0.0, u)", r=r, u=u))
                e = NP.simp(v.fn((NP.simp_int(num(p) * g),)))
                if e.op == "app" and e.args[0] == "solve":
                    m, b = NP.solve_of(int(X.const(e.args[1])))
                    for j, pos in enumerate(fe.positions(S)):
                        t = X.ZERO
                        for i, x in m.col(pos):
                            t = t + S.I.E(NP.val(x))
                        c.equal("%s/columns-%d" % (name, j), t, S.I.E(L.fn((pos,))), where, "column sums of the system matrix are the lumped masses")
                    t = X.ZERO
                    for d in range(lo, hi):
                        t = t + S.I.E(b.fn((wrapped(S, num(p) * num(k) + d),)))
                else:
                    t = X.ZERO
                    for d in range(lo, hi):
                        i = wrapped(S, num(p) * num(k) + d)
                        t = t + S.I.E(L.fn((i,))) * S.I.E(v.fn((i,)))
                c.zero(name, t, where, "lumped mass weighted updates sum to zero")
        c.absorb(S)
    return run


def wrapped(S, i):
    if X.isign(NP.simp(i)) == -1:
        i = i + S.n
    return NP.simp_int(i)


def scenarios(tier):
    from ..model import Model
    m = Model()
    out = []
    S = fv.swe(m)
    ks = fv.keys(S, "sol.SOLVER_PARSER")
    for k in ks:
        for bc, bath in (("periodic", "zero"), ("periodic", "bump"), (("wall", "wall"), "bump")):
            out.append(("swe/%s/%s/%s" % (k, bc if isinstance(bc, str) else "wall", bath), swe_scenario(k, bc, bath)))
    for outer in ("antidiffusion", "mcl"):
        out.append(("swe/%s/fluxes" % outer, getter_scenario(outer)))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        for p in ("advection", "burgers"):
            out.append(("scalar/%s/%s" % (k, p), scalar_scenario(p, k)))
    S = fe.make(m)
    for k in fe.keys(S):
        for pr in ("advection", "burgers"):
            for deg in (1, 2):
                out.append(("fe/%s/%s/%d" % (k, pr, deg), fe_scenario(pr, k, deg)))
    return out
