"""Integrity of the discrete solution."""
from .. import expr as X, fe, fv, ode
from .. import npmodel as NP
from ..expr import num, sym
from ..values import PyRaise

ID = "C09"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation with alias tracking: for solutions of arbitrary length every array handed in or out is overwritten afterwards "
    "and the state of the solution is compared with the value it must have; updates, re-initialisation, rejected updates and histories "
    "are compared entry by entry.")
ASSUMPTIONS = ["real arithmetic"]
T0, DT, DT2 = sym("t", "real"), sym("dt", "pos"), sym("dt2", "pos")

VARIANTS = {
    "plain": "core.DiscreteSolution(y_in, T0, space=SPACE)",
    "history": "core.DiscreteSolutionWithHistory(core.DiscreteSolution(y_in, T0, space=SPACE))",
    "coarse": "core.CoarseSolution(core.DiscreteSolution(y_in, T0, space=SPACE), 2)",
    "coarse-history": "core.CoarseSolutionWithHistory(core.DiscreteSolution(y_in, T0, space=SPACE), 2)",
}


def make(model, variant, comps):
    S = ode.make(model)
    coarse = variant.startswith("coarse")
    n = NP.simp(S.N * 2) if coarse else S.N
    S.n = n
    if comps == 1:
        mk = lambda a: S.vec(n, a)
    else:
        mk = lambda a: S.swe(n, a + "h", a + "q", "real")
    S.bind(Y=mk("y"), Z=mk("z"), W=mk("w"), T0=T0, DT=DT, DT2=DT2, NN=n, SPACE=None, T9=T0 + DT / 2, K=S.generic(n, "k"))
    S.run('''
import finite_volume
mesh = core.UniformMesh(core.Interval(0.0, 1.0), NN)
SPACE = finite_volume.FiniteVolumeSpace(mesh)
y_in, z_in, w_in = Y.copy(), Z.copy(), W.copy()
s = %s
''' % VARIANTS[variant])

    def ref(a, g, q):
        def one(i):
            i = num(NP.simp(num(i)))
            if comps == 1:
                return sym((a, i), "real")
            return sym((a + "hq"[q], i), "real")
        if coarse:
            return (one(2 * num(g)) + one(2 * num(g) + 1)) / 2
        return one(g)

    return S, ref


def variant(name, comps):
    def run(c):
        S, ref = make(c.model, name, comps)
        where = "core/discrete_solution.py (%s)" % name
        I = S.I
        g = S.generic(S.N, "g")
        qs = range(comps)
        history = "history" in name
        I.wet = False

        def value(key, src, a, rule):
            v = S.run(src)
            for q in qs:
                for p, pos in (("g", g), ("0", 0), ("last", NP.simp(S.N - 1))):
                    c.equal("%s-%s-%d" % (key, p, q), S.at(v, pos, *((q,) if comps > 1 else ())), ref(a, pos, q), where, rule)

        def hist(key, times, names):
            if not history:
                return
            th, vh = S.run("s.time_history"), S.run("s.value_history")
            ok = S.shape(th) == (len(times),) and S.shape(vh)[0] == len(times)
            c.fact(key + "/length", ok, where, "times and values of the history belong together", "%s times, %s values" % (S.shape(th), S.shape(vh)))
            if not ok:
                return
            for i, (t, a) in enumerate(zip(times, names)):
                c.equal("%s/time-%d" % (key, i), S.at(th, i), t, where, "history times")
                for q in qs:
                    c.equal("%s/value-%d-%d" % (key, i, q), S.at(vh, i, g, *((q,) if comps > 1 else ())), ref(a, g, q), where, "history values")
            st = S.run("s.time_step_history")
            c.fact(key + "/steps", S.shape(st) == (len(times) - 1,), where, "one time step between two entries")
            for i in range(len(times) - 1):
                c.equal("%s/step-%d" % (key, i), S.at(st, i), times[i + 1] - times[i], where, "time steps are the differences of the times")

        with c.part("start", S, where, raises=True):
            c.equal("time", S.run("s.time"), T0, where, "a solution starts at the initial time")
            value("value", "s.value", "y", "a solution starts at the initial value")
            S.run("y_in[:] = 0")
            value("input-changed", "s.value", "y", "changing the given array afterwards does not change the solution")
            S.run("v = s.value\nv[:] = 1")
            value("output-changed", "s.value", "y", "changing a returned array does not change the solution")
            hist("history", [T0], "y")
        with c.part("update", S, where, raises=True):
            S.run("s.update(DT, z_in)")
            c.equal("time", S.run("s.time"), T0 + DT, where, "an update advances the time")
            value("value", "s.value", "z", "an update sets the value")
            S.run("z_in[:] = 0")
            value("input-changed", "s.value", "z", "changing the given array afterwards does not change the solution")
            S.run("v = s.value\nv[:] = 1")
            value("output-changed", "s.value", "z", "changing a returned array does not change the solution")
            hist("history", [T0, T0 + DT], "yz")
            S.run("s.update(DT2, w_in)")
            c.equal("time-2", S.run("s.time"), T0 + DT + DT2, where, "updates accumulate the time")
            value("value-2", "s.value", "w", "an update sets the value")
            hist("history-2", [T0, T0 + DT, T0 + DT + DT2], "yzw")
            if history:
                S.run("a = s.time_history\na[:] = 0\nb = s.value_history\nb[:] = 0\nc = s.time_step_history\nc[:] = 0")
                hist("history-copy", [T0, T0 + DT, T0 + DT + DT2], "yzw")
        with c.part("rejected", S, where):
            for bad in ("np.nan", "np.inf", "-np.inf"):
                S.run('''
bad = Z.copy()
bad[K] = %s
msg = "accepted"
try:
    s.update(DT, bad)
except ValueError:
    msg = "rejected"
''' % bad)
                key = "update(%s)" % bad
                m = S.run("msg")
                c.fact(key, m == "rejected" if isinstance(m, str) else None, where, "values that are not finite are rejected", str(m))
                c.equal(key + "/time", S.run("s.time"), T0 + DT + DT2, where, "a rejected update changes nothing")
                value(key + "/value", "s.value", "w", "a rejected update changes nothing")
                hist(key + "/history", [T0, T0 + DT, T0 + DT + DT2], "yzw")
            S.run('''
msg = "accepted"
try:
    s.set_value(bad, T9)
except ValueError:
    msg = "rejected"
''')
            c.equal("set/time", S.run("s.time"), T0 + DT + DT2, where, "a rejected value changes nothing")
            value("set/value", "s.value", "w", "a rejected value changes nothing")
            hist("set/history", [T0, T0 + DT, T0 + DT + DT2], "yzw")
        with c.part("set", S, where, raises=True):
            S.run("y2 = Y.copy()\ns.set_value(y2, T9)\ny2[:] = 0")
            c.equal("time", S.run("s.time"), T0 + DT / 2, where, "setting a value sets the time")
            value("value", "s.value", "y", "setting a value sets the value")
            hist("history", [T0, T0 + DT / 2], "yy")
            S.run("s.update(DT, Z)")
            c.equal("time-after", S.run("s.time"), T0 + DT / 2 + DT, where, "updates continue from the set time")
            hist("history-after", [T0, T0 + DT / 2, T0 + DT / 2 + DT], "yyz")
            S.run("s.set_value(W, T0)")
            c.equal("time-start", S.run("s.time"), T0, where, "setting a value sets the time")
            hist("history-start", [T0], "w")
        with c.part("same-time", S, where, raises=True):
            S.run("s.set_value(Y, T0)\ns.set_value(Z, T0)")
            c.equal("time", S.run("s.time"), T0, where, "setting a value at the current time keeps the time")
            value("value", "s.value", "z", "a value can be replaced at the same time")
            hist("history", [T0], "z")
            S.run("s.update(DT, Y)\ns.update(DT2, Z)\ns.set_value(W, T0 + DT)")
            value("earlier", "s.value", "w", "a value can be set at an earlier entry")
            hist("earlier-history", [T0, T0 + DT], "zw")
            S.run("s.update(0.0, Y)")
            value("no-time", "s.value", "y", "an update without advance in time sets the value")
            S.run("s.set_value(W, T0 - DT)")
            hist("before-history", [T0 - DT], "w")
        with c.part("space", S, where, raises=True):
            v = S.run("s.value")
            d = S.run("s.space.dimension")
            c.equal("dimension", S.I.E(d), S.shape(v)[0], where, "the space has as many degrees of freedom as the value")
            c.fact("grid", NP.dim_eq(S.shape(S.run("s.grid"))[0], S.shape(v)[0]), where, "the grid has one point per entry of the value")
            dim = S.run("s.dimension")
            if comps == 1:
                c.equal("shape", S.I.E(dim), S.shape(v)[0], where, "the dimension is the shape of the value")
            else:
                c.fact("shape", isinstance(dim, tuple) and all(NP.dim_eq(a, b) for a, b in zip(dim, S.shape(v))), where, "the dimension is the shape of the value")
            k = 2 if name.startswith("coarse") else 1
            c.equal("grid-value", S.at(S.run("s.grid"), g), (num(g) + num(1) / 2) / S.N, where, "grid points are the centers of the cells of the value")
        c.absorb(S)
    return run


def reinitialise(kind, key):
    """Re-initialising a used solver equals building a new one."""
    def run(c):
        S = fv.swe(c.model, "periodic", "zero") if kind == "swe" else fv.scalar(c.model, "burgers") if kind == "scalar" else fe.make(c.model, "burgers")
        where = "%s solver %r" % (kind, key)
        I = S.I
        mk = lambda b: S.run("sol.SOLVER_PARSER[%r].solver(%s, mesh_size=MS%s)" % (key, b, extra))
        extra = ", coarsening_degree=2" if key == "coarse" else ", polynomial_degree=P" if kind == "fe" else ""
        S.bind(MS=NP.simp(S.N * 2) if key == "coarse" else S.N, H1=S.func("h1"), Q1=S.func("q1"), U1=S.func("u1"), T3=sym("t3", "pos"))
        with c.part("reinitialise", S, where):
            S.run('''
class OtherBenchmark(SymbolicBenchmark):
    start_time = T3
    def initial_data(self, x): return %s
other = OtherBenchmark()
''' % ("np.array([H1(x), Q1(x)])" if kind == "swe" else "U1(x)"))
            S.bind(a=mk("bench"), b=mk("other"))
            n = S.shape(S.run("a.solution.value"))
            vec = len(n) > 1
            fine = NP.simp(num(n[0]) * 2) if key == "coarse" else n[0]
            S.bind(V=S.swe(fine, "vh", "vq") if vec else S.vec(fine, "v"), D=sym("d", "pos"))
            # history of use
            S.run("a.solution.update(D, V)\na._ode_solver.execute(0.0) if False else None\na.reinitialize(other)")
            c.equal("time", S.run("a.solution.time"), S.run("b.solution.time"), where, "a re-initialised solver starts at the time of a new one")
            c.equal("start", S.run("a.solution.time"), sym("t3", "pos"), where, "a re-initialised solver starts at the start time")
            va, vb = S.run("a.solution.value"), S.run("b.solution.value")
            c.fact("shape", all(NP.dim_eq(x, y) for x, y in zip(S.shape(va), S.shape(vb))), where, "a re-initialised solver has the shape of a new one")
            g = S.generic(S.N, "g")
            ps = [(0,), (g,), (NP.simp(S.N - 1),)]
            for q in range(2 if vec else 1):
                for p in ps:
                    ix = p + ((q,) if vec else ())
                    c.equal("value-%s-%d" % (p[0], q), S.at(va, *ix), S.at(vb, *ix), where, "a re-initialised solver starts at the value of a new one")
            S.run("oa, ob = a.as_dict()['ode_solver'], b.as_dict()['ode_solver']")
            c.equal("stepper-time", S.run("oa.time"), S.run("ob.time"), where, "the stepper is re-initialised as well")
            xa, xb = S.run("oa.solution"), S.run("ob.solution")
            for q in range(2 if vec else 1):
                for p in ps:
                    ix = p + ((q,) if vec else ())
                    c.equal("stepper-value-%s-%d" % (p[0], q), S.at(xa, *ix), S.at(xb, *ix), where, "the stepper is re-initialised as well")
        c.absorb(S)
    return run


def initial(kind, key):
    """Solvers start from the initial data of the benchmark."""
    def run(c):
        S = fv.swe(c.model, "periodic", "zero") if kind == "swe" else fv.scalar(c.model, "burgers") if kind == "scalar" else fe.make(c.model, "burgers")
        where = "%s solver %r" % (kind, key)
        with c.part("initial", S, where):
            ms = NP.simp(S.N * 2) if key == "coarse" else S.N
            extra = ", coarsening_degree=2" if key == "coarse" else ", polynomial_degree=P" if kind == "fe" else ""
            S.run("a = sol.SOLVER_PARSER[%r].solver(bench, mesh_size=MS%s)" % (key, extra), MS=ms)
            v = S.run("a.solution.value")
            o = S.run("a.as_dict()['ode_solver'].solution")
            vec = len(S.shape(v)) > 1
            c.equal("time", S.run("a.solution.time"), S.run("bench.start_time"), where, "a solver starts at the start time")
            c.equal("stepper-time", S.run("a.as_dict()['ode_solver'].time"), S.run("bench.start_time"), where, "a solver starts at the start time")
            L, dx = sym("a0", "pos"), fv.DX
            for p in (0, S.generic(S.N, "g"), NP.simp(S.N - 1)):
                for q in range(2 if vec else 1):
                    ix = (p,) + ((q,) if vec else ())
                    name = "h0 q0".split()[q] if vec else "u0"
                    if kind == "fe":
                        c.equal("value-%s" % (p,), S.at(v, *ix), X.app(name, X.canon(L + num(p) * dx)), where, "nodal values of the initial data")
                        continue

                    def avg(cell, h):
                        mid = L + (num(cell) + num(1) / 2) * h
                        r = X.fn("sqrt", num(1) / 3) * h / 2
                        return (X.app(name, X.canon(mid - r)) + X.app(name, X.canon(mid + r))) / 2
                    if key == "coarse":
                        e = (avg(2 * num(p), dx / 2) + avg(2 * num(p) + 1, dx / 2)) / 2
                    else:
                        e = avg(p, dx)
                    c.equal("value-%s-%d" % (p, q), S.at(v, *ix), e, where, "two point Gauss averages of the initial data")
            # the stepper starts from the same (fine) data
            if key != "coarse":
                for p in (0, S.generic(S.N, "g"), NP.simp(S.N - 1)):
                    for q in range(2 if vec else 1):
                        ix = (p,) + ((q,) if vec else ())
                        c.equal("stepper-%s-%d" % (p, q), S.at(o, *ix), S.at(v, *ix), where, "the stepper starts at the initial value")
        c.absorb(S)
    return run


def scenarios(tier):
    from ..model import Model
    m = Model()
    out = []
    for v in VARIANTS:
        for comps in (1, 2):
            out.append(("solution/%s/%d" % (v, comps), variant(v, comps)))
    S = fv.swe(m)
    ks = [("swe", k) for k in fv.keys(S, "sol.SOLVER_PARSER")]
    S = fv.scalar(m, "burgers")
    ks += [("scalar", k) for k in fv.keys(S, "sol.SOLVER_PARSER")]
    S = fe.make(m)
    ks += [("fe", k) for k in fe.keys(S)]
    out += [("reinitialise/%s/%s" % k, reinitialise(*k)) for k in ks]
    out += [("initial/%s/%s" % k, initial(*k)) for k in ks]
    return out
