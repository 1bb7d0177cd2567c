"""Right hand sides and their parts are pure functions of time and state."""
from .. import fe, fv
from .. import expr as X
from .. import npmodel as NP
from ..expr import E, num, sym

ID = "C10"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation with alias and effect tracking: every registered solver's right hand side (and the numerical fluxes, time steps and "
    "finite element operators below) is evaluated for generic states of arbitrary length in sequences u, w, u with arrays overwritten in between; "
    "results must coincide as terms with those of a freshly built object and arguments must be unchanged.")
ASSUMPTIONS = ["real arithmetic", "a trained network is a deterministic function of its input rows"]

SEQ = '''
ua, wa = U.copy(), W.copy()
r1 = f(TA, ua)
r1c = r1.copy()
r2 = f(TB, wa)
r2c = r2.copy()
r3 = f(TA, ua)
r3c = r3.copy()
'''


class Same:
    """Equality of two arrays at representative positions."""

    def __init__(self, c, S, where, pos):
        self.c, self.S, self.where, self.pos = c, S, where, pos

    def __call__(self, key, a, b, rule):
        c, S = self.c, self.S
        A, B = S.A(a), S.A(b)
        ok = len(A.shape) == len(B.shape) and all(NP.dim_eq(x, y) for x, y in zip(A.shape, B.shape))
        if not ok:
            c.fact(key + "/shape", False if len(A.shape) != len(B.shape) else None, self.where, rule, "%s and %s" % (A.shape, B.shape))
            return
        if A.shape == ():
            c.equal(key, S.I.E(A.fn(())), S.I.E(B.fn(())), self.where, rule)
            return
        for p in self.pos:
            for q in range(A.shape[1] if len(A.shape) > 1 else 1):
                ix = (p,) + ((q,) if len(A.shape) > 1 else ())
                x, y = NP.simp(S.I.E(A.fn(ix))), NP.simp(S.I.E(B.fn(ix)))
                if x is not y and all(isinstance(e, E) and e.op == "app" and e.args[0] == "solve" for e in (x, y)):
                    self.systems("%s[%s]" % (key, p), x, y, rule)
                    return
                c.equal("%s[%s,%d]" % (key, p, q), S.I.E(A.fn(ix)), S.I.E(B.fn(ix)), self.where, rule)


    def systems(self, key, x, y, rule):
        """Solutions of linear systems: compare matrices and right hand sides."""
        c, S = self.c, self.S
        (ma, ba), (mb, bb) = [NP.solve_of(int(X.const(e.args[1]))) for e in (x, y)]
        for p in self.pos:
            c.equal("%s/system[%s]" % (key, p), S.I.E(ba.fn((p,))), S.I.E(bb.fn((p,))), self.where, rule)
            for j, v in ma.row(p):
                c.equal("%s/matrix[%s,%s]" % (key, p, j), S.I.E(NP.val(v)), S.I.E(NP.val(NP.sp_elem(S.I, mb, p, j))), self.where, rule)


def entry(S):
    """An arbitrary position."""
    n = S.shape(S.run("U"))[0]
    if getattr(S, "p", 1) > 1 and NP.dim_eq(n, S.p * S.N):
        return NP.simp(S.p * S.generic(S.N, "kk") + 1)     # inside an element
    return S.generic(n, "kk")


def pure(c, S, where, build, state, pos, key="", names=[]):
    """`build`: driver expression constructing a fresh callable f(t, y)."""
    same = Same(c, S, where, pos)
    S.bind(U=state("u"), W=state("w"), TA=sym("ta", "pos"), TB=sym("tb", "pos"))
    S.bind(KK=entry(S))
    S.generic_data(["uh", "uq", "wh", "wq", "u", "w"] + names)
    S.run("f = " + build)
    S.run(SEQ)
    same(key + "argument", S.run("ua"), S.run("U"), "the state given is not modified")
    same(key + "argument-2", S.run("wa"), S.run("W"), "the state given is not modified")
    same(key + "repeat", S.run("r3c"), S.run("r1c"), "the same time and state give the same result again")
    same(key + "kept", S.run("r1"), S.run("r1c"), "a later evaluation does not change an earlier result")
    S.run("g = %s\nx1 = g(TA, U.copy())\nx1c = x1.copy()" % build)
    S.run("g = %s\nx2 = g(TB, W.copy())\nx2c = x2.copy()" % build)
    same(key + "fresh", S.run("r1c"), S.run("x1c"), "a used object evaluates like a new one")
    same(key + "fresh-2", S.run("r2c"), S.run("x2c"), "a used object evaluates like a new one")
    # overwrite what was handed out, then what was handed in
    S.run("r1[...] = 7\nr2[...] = 7\nr3[...] = 7\nr4 = f(TA, ua)\nr4c = r4.copy()")
    same(key + "overwritten-results", S.run("r4c"), S.run("x1c"), "changing a result does not change later results")
    same(key + "argument-3", S.run("ua"), S.run("U"), "results do not alias the state")
    S.run("ua[...] = W\nr5 = f(TB, ua)\nr5c = r5.copy()")
    same(key + "in-place", S.run("r5c"), S.run("x2c"), "a state changed in place is recognised")
    # the same buffer at the same time with other values
    S.run("ua[...] = U\nr6 = f(TB, ua)\nr7 = f(TA, ua)\nr7c = r7.copy()")
    same(key + "in-place-2", S.run("r7c"), S.run("x1c"), "a state changed in place is recognised")
    S.run("f(TA, ua)\nua[...] = W\nr8 = f(TA, ua)\nr8c = r8.copy()\ng = %s\nx3 = g(TA, W.copy())" % build)
    same(key + "in-place-same-time", S.run("r8c"), S.run("x3"), "a state changed in place is recognised")
    S.run("ua[...] = U\nf(TA, ua)\nua[...] = W\nr10 = f(TA, U.copy())\nr10c = r10.copy()")
    same(key + "buffer", S.run("r10c"), S.run("x1c"), "a buffer overwritten after an evaluation does not leak into later results")
    S.run("va = U.copy()\nf(TA, va)\nva[KK] = W[KK]\nr11 = f(TA, va)\ng = %s\nx4 = g(TA, va.copy())" % build)
    Same(c, S, where, list(pos) + [S.run("KK")])(key + "one-entry", S.run("r11"), S.run("x4"), "a state changed in one entry is recognised")
    S.run("ua[...] = W\nr9 = f(TB, ua)\nr9c = r9.copy()")
    same(key + "time", S.run("r9c"), S.run("x2c"), "the given time is used")


def swe_solver(key, bc, bath):
    def run(c):
        S = fv.swe(c.model, bc, bath)
        where = "shallow water solver %r" % key
        I = S.I
        g = S.generic(S.N, "k")
        n = NP.simp(S.N * 2) if key == "coarse" else S.N
        g = S.generic(n, "k")
        pos = [0, g, NP.simp(n - 1)]
        extra = ", coarsening_degree=2" if key == "coarse" else ""
        with c.part(key, S, where):
            S.bind(TS=sym("ts", "pos"), MS=n)
            S.run('''
def make():
    s = sol.SOLVER_PARSER[%r].solver(bench, mesh_size=MS%s)
    r = s.as_dict()["right_hand_side"]
    %s
    return r
''' % (key, extra, "r.set_time_step(TS)" if key == "lw" else ""))
            pure(c, S, where, "make()", lambda a: S.swe(n, a + "h", a + "q"), pos, names=[] if bath == "zero" else ["bath", "b"])
        with c.part("solution", S, where):
            S.run('''
s = sol.SOLVER_PARSER[%r].solver(bench, mesh_size=MS%s)
v0 = s.solution.value
y0 = s.as_dict()["ode_solver"].solution.copy()
r = s.as_dict()["right_hand_side"]
%s
r(TA, U)
''' % (key, extra, "r.set_time_step(TS)" if key == "lw" else ""))
            same = Same(c, S, where, [0, g])
            same("value", S.run("s.solution.value"), S.run("v0"), "an evaluation does not change the solution")
            same("stepper", S.run("s.as_dict()['ode_solver'].solution"), S.run("y0"), "an evaluation does not change the solution")
            c.equal("time", S.run("s.solution.time"), S.run("bench.start_time"), where, "an evaluation does not change the solution")
        with c.part("independent", S, where):
            S.bind(BATH2=S.func("bath2"), G2=sym("g2", "pos"))
            S.run('''
class OtherBenchmark(SymbolicBenchmark):
    gravitational_acceleration = G2
    domain = core.Interval(LA, LA+2*N*DX)
    def bathymetry(self, x): return BATH2(x)
    def initial_data(self, x): return np.array([H0(2*x), Q0(3*x)])
f = make()
a1 = f(TA, U.copy()).copy()
o = sol.SOLVER_PARSER[%r].solver(OtherBenchmark(), mesh_size=MS%s)
ro = o.as_dict()["right_hand_side"]
%s
ro(TB, W.copy())
a2 = f(TA, U.copy())
a3 = make()(TA, U.copy())
''' % (key, extra, "ro.set_time_step(TS)" if key == "lw" else ""))
            same = Same(c, S, where, pos)
            same("other-solver", S.run("a2"), S.run("a1"), "solvers do not influence each other")
            same("after-other-solver", S.run("a3"), S.run("a1"), "solvers do not influence each other")
        if key == "lw":
            with c.part("step", S, where):
                S.bind(TS2=sym("ts2", "pos"))
                S.run('''
f = make()
f(TA, U.copy())
f.set_time_step(TS2)
s1 = f(TA, U.copy()).copy()
def make():
    return sol.SOLVER_PARSER["lw"].solver(bench, mesh_size=MS).as_dict()["right_hand_side"]
g = make()
g.set_time_step(TS2)
s2 = g(TA, U.copy())
s = sol.SOLVER_PARSER["lw"].solver(bench, mesh_size=MS)
d = s.as_dict()
s.solution.set_value(U.copy(), TA)
d["ode_solver"].reinitialize(U.copy(), TA)
s._update(TS)
y1 = s.solution.value.copy()
g = make()
g.set_time_step(TS)
s3 = U + TS * g(TA, U.copy())
s.solution.set_value(W.copy(), TA)
d["ode_solver"].reinitialize(W.copy(), TA)
s._update(TS2)
g = make()
g.set_time_step(TS2)
s5 = W + TS2 * g(TA, W.copy())
''')
                same = Same(c, S, where, pos)
                same("new-step", S.run("s1"), S.run("s2"), "the time step set last is used")
                same("solver-step", S.run("y1"), S.run("s3"), "the time step of the current step is used")
                same("solver-step-2", S.run("s.solution.value"), S.run("s5"), "the time step of the current step is used")
        c.absorb(S)
    return run


def swe_parts(bath, dry):
    """Fluxes, wave speeds and time steps of the shallow water equations."""
    def run(c):
        S = fv.swe(c.model, "periodic", bath)
        S.I.wet = not dry
        hdom = "nonneg" if dry else "pos"
        where = "finite_volume/shallow_water"
        pos = [0, S.generic(S.N, "k"), NP.simp(S.N - 1)]
        two = lambda a: S.swe(S.N, a + "h", a + "q", hdom)
        S.run("import finite_volume.shallow_water.core as swc")
        for name, build in (
                ("flux", "(lambda f: lambda t, u: f(u))(swe.Flux(G))"),
                ("wave-speed", "(lambda f: lambda t, u: f(u, u + t)[0])(swe.WaveSpeed(G))"),
                ("wave-speed-right", "(lambda f: lambda t, u: f(u, u + t)[1])(swe.WaveSpeed(G))"),
                ("max-wave-speed", "(lambda f: lambda t, u: f(u, u + t)[0])(swe.MaximumWaveSpeed(G))"),
                ("max-wave-speed-right", "(lambda f: lambda t, u: f(u, u + t)[1])(swe.MaximumWaveSpeed(G))"),
                ("entropy", "(lambda f: lambda t, u: f(u))(swe.Entropy(G))"),
                ("potential", "(lambda f: lambda t, u: f(u))(swe.Potential(G))"),
                ("riemann", "(lambda f: lambda t, u: f.solve(u, u + t)[0])(swe.RiemannSolver(gravitational_acceleration=G))"),
                ("nullify", "lambda t, u: swe.nullify(u)"),
                ("velocity", "lambda t, u: swe.get_velocity(u)")):
            with c.part(name, S, where + " " + name):
                pure(c, S, where + " " + name, build, two, pos, key="%s/" % name, names=[] if bath == "zero" else ["bath", "b"])
        n = NP.simp(S.N + 1)
        pos = [0, S.generic(n, "e"), S.N]
        for key in fv.keys(S, "sol.SHALLOW_WATER_FLUX_GETTER"):
            w = "flux %r" % key
            with c.part(key, S, w):
                S.run('''
space = finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, N))
def mk():
    f = sol.SHALLOW_WATER_FLUX_GETTER[%r](bench, space)
    d = f.input_dimension
    def call(t, u):
        l, r = f(*[np.roll(u, -i, axis=0) for i in range(d)])
        return np.concatenate([l, r + t], axis=1)
    return call
''' % key)
                edges = lambda a: S.swe(n, a + "h", a + "q", hdom)
                pure(c, S, w, "mk()", edges, pos, key="flux-%s/" % key, names=[] if bath == "zero" else ["bath", "b"])
        c.absorb(S)
    return run


def scalar_solver(problem, key):
    def run(c):
        S = fv.scalar(c.model, problem)
        where = "scalar solver %r (%s)" % (key, problem)
        pos = [0, S.generic(S.N, "k"), NP.simp(S.N - 1)]
        with c.part(key, S, where):
            pure(c, S, where, "sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side']" % key, lambda a: S.vec(S.N, a), pos)
        c.absorb(S)
    return run


def fe_solver(problem, key, p, more=""):
    def run(c):
        S = fe.make(c.model, problem, p)
        where = "finite element solver %r (%s, degree %d)" % (key, problem, p)
        pos = fe.positions(S)
        with c.part(key, S, where):
            pure(c, S, where, "sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=P%s).as_dict()['right_hand_side']" % (key, more),
                 lambda a: S.vec(S.n, a), pos)
        c.absorb(S)
    return run


def recorded(c):
    """Recorded fluxes are independent of the arrays handed out and of the arrays evaluated next."""
    S = fv.swe(c.model, "periodic", "zero")
    where = "finite_volume/numerical_flux.py:NumericalFluxWithHistory"
    S.generic_data(["uh", "uq", "wh", "wq"])
    S.bind(U=S.swe(S.N, "uh", "uq"), W=S.swe(S.N, "wh", "wq"))
    same = Same(c, S, where, [0, S.generic(S.N, "k")])
    with c.part("history", S, where):
        S.run('''
class Buffered(finite_volume.NumericalFlux):
    input_dimension = 2
    def __init__(self):
        self.l, self.r = np.zeros((N, 2)), np.zeros((N, 2))
    def __call__(self, a, b):
        self.l[...] = a
        self.r[...] = b
        return self.l, self.r
h = finite_volume.NumericalFluxWithHistory(Buffered())
a, b = h(U.copy(), W.copy())
a, b = a.copy(), b.copy()
c, d = h(W.copy(), U.copy())
c[...] = 7
d[...] = 7
e, f = h(W.copy(), W.copy())
''')
        for side, want in (("left", "UWW"), ("right", "WUW")):
            for t, w in enumerate(want):
                same("%s-%d" % (side, t), S.run("h.flux_%s_history[%d]" % (side, t)), S.run(w), "recorded fluxes are not changed by later evaluations or by their users")
        same("first", S.run("a"), S.run("U"), "fluxes are handed through")
        same("last", S.run("f"), S.run("W"), "fluxes are handed through")
    c.absorb(S)


def scenarios(tier):
    from ..model import Model
    m = Model()
    out = []
    S = fv.swe(m)
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        for bc, bath in (("periodic", "free"), (("wall", "outflow"), "zero"), (("inflow", "inflow"), "zero")):
            out.append(("swe/%s/%s/%s" % (k, bc if isinstance(bc, str) else "-".join(bc), bath), swe_solver(k, bc, bath)))
    for bath, dry in (("zero", False), ("free", False), ("zero", True)):
        out.append(("swe/parts/%s%s" % ("dry/" * dry, bath), swe_parts(bath, dry)))
    S = fv.scalar(m, "burgers")
    for k in fv.keys(S, "sol.SOLVER_PARSER"):
        for p in ("advection", "burgers"):
            out.append(("scalar/%s/%s" % (k, p), scalar_solver(p, k)))
    S = fe.make(m)
    for k in fe.keys(S):
        for pr in ("advection", "burgers"):
            for deg in (1, 2):
                out.append(("fe/%s/%s/%d" % (k, pr, deg), fe_solver(pr, k, deg)))
    for deg in (1, 2):
        out.append(("fe/cg/exact/%d" % deg, fe_solver("burgers", "cg", deg, ", exact_flux=True")))
    out.append(("recorded", recorded))
    return out
