"""Time stepping covers the simulated interval."""
from .. import expr as X, fe, fv, ode
from .. import npmodel as NP
from ..expr import num, sym

ID = "C06"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation of the time step iterator and of the solve loop: for a duration that is a given multiple of a symbolic step "
    "(including remainders below the tolerance) the emitted steps are compared as terms; they are positive, bounded by the requested "
    "step, add up to the duration, end exactly at the end time, and are emitted again by the next iteration.")
ASSUMPTIONS = ["step sizes exceed 1e-3 and durations are the listed multiples of the step (1/2 .. 25/2, with and without a remainder below 1e-12)",
               "real arithmetic"]

SMALL = num(1) / 1000 + sym("s", "pos")
EPS = num(5) / 10 ** 13
CFL = sym("cfl", "pos")
T0 = sym("t_start", "real")
RATIOS = [("1", num(1)), ("half", num(1) / 2), ("5/2", num(5) / 2), ("3", num(3)), ("25/2", num(25) / 2), ("2+5e-4", num(4001) / 2000),
          ("1+1e-7", 1 + num(1) / 10 ** 7), ("4-1e-7", 4 - num(1) / 10 ** 7)]

SRC = '''
from core import time_stepping as ts
x = ts.TimeStepping(T0+L, CFL, STEP, adaptive=AD, start_time=T0)
out, times = [], []
for d in x:
    out.append(d)
    times.append(x.time)
number = x.time_steps_number
'''


def common(c, S, L, step, exact, where, key):
    I = S.I
    out = [I.E(d) for d in S.items(S.run("out"))]
    times = [I.E(t) for t in S.items(S.run("times"))]
    n = len(out)
    total = X.ZERO
    for i, d in enumerate(out):
        c.nonneg("%s/positive-%d" % (key, i), d, where, "steps are positive")
        c.nonneg("%s/bounded-%d" % (key, i), step(T0 + total) - d, where, "a step does not exceed the requested step")
        total = total + d
        rule = "the clock shows the sum of the steps and the end time at the end"
        off = X.nf(X.canon(times[i] - (T0 + total if i < n - 1 else T0 + L)))
        if set(off) == {()} and abs(off[()]) > 1e-13:  # smaller than the tolerance for sampled terms, but known exactly
            c.fact("%s/clock-%d" % (key, i), False, where, rule, "the clock is off by %.1e" % float(off[()]))
            continue
        c.equal("%s/clock-%d" % (key, i), times[i], T0 + total if i < n - 1 else T0 + L, where, rule)
    if exact:
        c.equal(key + "/total", total, L, where, "the steps add up to the duration")
    c.equal(key + "/count", S.run("number"), num(n), where, "the step counter is the number of steps")
    return n


def constant(name, r, rem):
    def run(c):
        S = ode.make(c.model)
        where = "core/time_stepping.py"
        L = r * SMALL + (EPS if rem else 0)
        with c.part("run", S, where, raises=True):
            S.run(SRC, L=L, CFL=CFL, STEP=S.native("step", lambda I, a, k: SMALL / CFL), AD=False, T0=T0)
            n = common(c, S, L, lambda t: SMALL, not rem, where, "first")
            expected = -(-X.const(r).numerator // X.const(r).denominator)
            c.fact("first/number", n == expected, where, "as many steps as needed", "%d steps instead of %d" % (n, expected))
            v = S.run("len(x)")
            if not rem:
                c.equal("length", v, num(n), where, "the announced number of steps is the number of steps")
            S.run("out, times = [], []\nfor d in x:\n    out.append(d)\n    times.append(x.time)\nnumber = x.time_steps_number")
            m = common(c, S, L, lambda t: SMALL, not rem, where, "again")
            c.fact("again/number", m == n, where, "a second iteration repeats the first", "%d, then %d steps" % (n, m))
        c.absorb(S)
    return run


def adaptive(name, L, shrink=False):
    """The step follows the solution that is current when the step is taken."""
    def run(c):
        S = ode.make(c.model)
        where = "core/time_stepping.py"

        def opt(t):
            if shrink:
                return (SMALL - (t - T0) / 4) / CFL
            return (SMALL + (t - T0) / 2) / CFL

        with c.part("run", S, where, raises=True):
            S.run('''
from core import time_stepping as ts
class Bench:
    end_time = T0+L
    start_time = T0
solution = core.DiscreteSolution(Y, T0)
x = ts.get_adaptive_time_stepping(Bench(), solution, STEP, CFL, AD)
out, times = [], []
for d in x:
    out.append(d)
    times.append(x.time)
    solution.update(d, Y)
number = x.time_steps_number
''', L=L, T0=T0, CFL=CFL, AD=True, STEP=S.native("step", lambda I, a, k: opt(I.E(a[0]))))
            n = common(c, S, L, lambda t: opt(t) * CFL, True, where, "adaptive")
            out = S.items(S.run("out"))
            t = T0
            for i, d in enumerate(out[:-1]):
                c.equal("current-%d" % i, S.I.E(d), opt(t) * CFL, where, "an adaptive step uses the current solution")
                t = t + opt(t) * CFL
        with c.part("frozen", S, where, raises=True):
            S.run('''
solution = core.DiscreteSolution(Y, T0)
x = ts.get_adaptive_time_stepping(Bench(), solution, STEP, CFL, False)
out, times = [], []
for d in x:
    out.append(d)
    times.append(x.time)
    solution.update(d, Y)
number = x.time_steps_number
''')
            common(c, S, L, lambda t: SMALL, True, where, "frozen")
            for i, d in enumerate(S.items(S.run("out"))[:-1]):
                c.equal("constant-%d" % i, S.I.E(d), SMALL, where, "without adaptivity the first step size is kept")
        c.absorb(S)
    return run


def current(c):
    """The adaptive step follows the value of the solution, not only its time."""
    S = ode.make(c.model)
    where = "core/time_stepping.py"
    value = lambda I, a, k: SMALL * NP.simp(NP.asarr(I, a[1]).fn((0,))) / CFL
    with c.part("value", S, where, raises=True):
        S.run('''
from core import time_stepping as ts
class Bench:
    end_time = T0+L
    start_time = T0
solution = core.DiscreteSolution(np.array([1.0]), T0)
x = ts.get_adaptive_time_stepping(Bench(), solution, STEP, CFL, True)
a = next(iter(x))
solution.set_value(np.array([2.0]), T0)
b = next(iter(x))
solution.update(a, np.array([3.0]))
d = next(iter(x))
other = core.DiscreteSolution(np.array([4.0]), T0)
y = ts.get_adaptive_time_stepping(Bench(), other, STEP, CFL, True)
e = next(iter(y))
f = next(iter(x))
''', L=SMALL * 20, T0=T0, CFL=CFL, STEP=S.native("step", value))
        for name, n, rule in (("first", 1, "the step follows the initial value"), ("same-time", 2, "the step follows a value set at the same time"),
                              ("updated", 3, "the step follows an updated value"), ("other", 4, "another clock follows its own solution"),
                              ("untouched", 3, "another clock does not influence the step")):
            c.equal(name, S.run("abdef"[["first", "same-time", "updated", "other", "untouched"].index(name)]), SMALL * n, where, rule)
    with c.part("constant", S, where, raises=True):
        S.run('''
solution = core.DiscreteSolution(np.array([1.0]), T0)
x = ts.get_adaptive_time_stepping(Bench(), solution, STEP, CFL, False)
a = next(iter(x))
solution.update(a, np.array([2.0]))
b = next(x)
solution.set_value(np.array([3.0]), T0)
d = next(iter(x))
''')
        for name in "abd":
            c.equal(name, S.run(name), SMALL, where, "without adaptivity the step stays the same")
    c.absorb(S)


def too_small(c):
    S = ode.make(c.model)
    where = "core/time_stepping.py"
    for name, L, st in (("tiny-step", SMALL, num(1) / 10 ** 13), ("zero-step", SMALL, num(0)), ("no-duration", num(0), SMALL), ("backwards", -SMALL, SMALL)):
        with c.part(name, S, where):
            S.run('''
from core import time_stepping as ts
x = ts.TimeStepping(T0+L, 1.0, STEP, start_time=T0)
msg = "completed"
try:
    for d in x:
        msg = "stepped"
        break
except ts.TimeStepTooSmallError:
    msg = "too small"
''', L=L, T0=T0, STEP=S.native("step", lambda I, a, k: st))
            m = S.run("msg")
            c.fact(name, m == "too small" if isinstance(m, str) else None, where, "vanishing and negative steps are reported", str(m))
    c.absorb(S)


SOLVER = '''
from core import time_stepping as ts
class S(core.Solver):
    def reinitialize(self, benchmark): pass
def make(L, ode, save=False):
    solution = core.DiscreteSolution(Y, T0)
    if save:
        solution = core.DiscreteSolutionWithHistory(solution)
    return S(solution, F, ode, ts.TimeStepping(T0+L, CFL, STEP, start_time=T0))
'''


def solve(name, r):
    def run(c):
        S = ode.make(c.model)
        I = S.I
        where = "core/solver.py"
        g = S.generic(S.N, "g")
        k = S.func("k")
        rhs = S.native("f", lambda I, a, kw: NP.new_arr(I, (S.N,), lambda ix: X.app("f", I.E(a[0]), NP.simp(NP.asarr(I, a[1]).fn(ix)))))
        with c.part("solve", S, where, raises=True):
            S.run(SOLVER, T0=T0, CFL=CFL, STEP=S.native("step", lambda I, a, k: SMALL / CFL), F=rhs)
            L = r * SMALL
            S.run("s = make(L, core.ForwardEuler, True)\ns.solve()", L=L)
            c.equal("end-time", S.run("s.solution.time"), T0 + L, where, "solving ends at the end time")
            y, t, rest = sym(("y", g), "real"), T0, X.const(r)
            n = 0
            ys, tl = [y], [T0]
            while rest > 0:
                d = SMALL * num(min(rest, 1))
                y = y + d * X.app("f", t, y)
                t = t + d
                rest -= 1
                n += 1
                ys.append(y)
                tl.append(t)
            c.equal("end-value", S.at(S.run("s.solution.value"), g), y, where, "the solution is the composition of the single steps")
            th = S.run("s.solution.time_history")
            vh = S.run("s.solution.value_history")
            c.fact("history", S.shape(th) == (n + 1,) and S.shape(vh)[0] == n + 1, where, "one history entry per step", "%s %s" % (S.shape(th), S.shape(vh)))
            for i in range(n + 1):
                c.equal("history-time-%d" % i, S.at(th, i), tl[i], where, "the history lists the times of the steps")
                c.equal("history-value-%d" % i, S.at(vh, i, g), ys[i], where, "the history lists the values of the steps")
        for cls in ode.classes(S):
            with c.part(cls.name, S, where):
                S.run("s = make(L, C, True)\ns.solve()", C=cls)
                c.equal("end-time", S.run("s.solution.time"), T0 + L, where, "solving ends at the end time with every integrator")
                th = S.run("s.solution.time_history")
                for i in range(min(n + 1, S.shape(th)[0])):
                    c.equal("history-time-%d" % i, S.at(th, i), tl[i], where, "the history lists the times of the steps")
        with c.part("interrupted", S, where, raises=True):
            S.run("s = make(L, core.ForwardEuler)\ns.solve()", L=EPS)
            c.equal("kept", S.at(S.run("s.solution.value"), g), sym(("y", g), "real"), where, "an interrupted calculation keeps the last value")
        c.absorb(S)
    return run


def registered(kind, key):
    def run(c):
        S = fv.swe(c.model) if kind == "swe" else fv.scalar(c.model, "burgers") if kind == "scalar" else fe.make(c.model, "burgers")
        where = "%s solver %r" % (kind, key)
        with c.part("clock", S, where):
            extra = ", cfl_number=CN"
            S.bind(CN=sym("cfl", "pos"))
            if kind == "fe":
                slv = fe.solver(S, key, extra)
            else:
                slv = fv.solver(S, key, extra + (", coarsening_degree=2" if key == "coarse" else ""))
            S.bind(slv=slv)
            t0, t1 = S.run("bench.start_time"), S.run("bench.end_time")
            c.equal("solution-start", S.run("slv.solution.time"), t0, where, "the solution starts at the start time")
            S.run("st = slv.as_dict()['time_stepping']\nit = iter(st)")
            c.equal("clock-start", S.run("it.time"), t0, where, "the clock starts at the start time")
            d = S.run("st.as_dict()")
            c.equal("start", S.run("st.as_dict()['start_time']"), t0, where, "time stepping runs from start time ...")
            c.equal("end", S.run("st.as_dict()['end_time']"), t1, where, "... to end time")
        c.absorb(S)
    return run


def scenarios(tier):
    from ..model import Model
    m = Model()
    out = []
    for n, r in RATIOS:
        for rem in (False, True) if n in ("1", "3") else (False,):
            out.append(("constant/%s%s" % (n, "+eps" if rem else ""), constant(n, r, rem)))
    for n, L in (("2", SMALL * 2), ("7", SMALL * 7), ("half", SMALL / 2)):
        out.append(("adaptive/" + n, adaptive(n, L)))
        if n != "7":
            out.append(("adaptive-shrinking/" + n, adaptive(n, L, True)))
    out.append(("adaptive/current", current))
    out.append(("too-small", too_small))
    for n, r in RATIOS[:4] + RATIOS[5:6]:
        out.append(("solve/" + n, solve(n, r)))
    S = fv.swe(m)
    out += [("registered/swe/" + k, registered("swe", k)) for k in fv.keys(S, "sol.SOLVER_PARSER")]
    S = fv.scalar(m, "burgers")
    out += [("registered/scalar/" + k, registered("scalar", k)) for k in fv.keys(S, "sol.SOLVER_PARSER")]
    S = fe.make(m)
    out += [("registered/fe/" + k, registered("fe", k)) for k in fe.keys(S)]
    return out
