"""What plots, animations, error tables and error evolutions show (shared by the checks C11 and C18)."""
from .. import expr as X
from .. import fv
from .. import npmodel as NP
from ..expr import E, num, sym
from ..scen import Sc
from ..values import *

EXPLANATION = (
    "Abstract interpretation of the plotting, animation, convergence order and error evolution commands with solvers whose grids, values and "
    "histories are arrays of symbols, and with interpreted models of matplotlib and pandas that record which arrays are drawn under which label in "
    "which axes, which figure is saved under which name and what is printed. The recorded arrays are compared entry by entry as normal forms with the "
    "solution, interpolation, error or statistic that has to be shown.")
ASSUMPTIONS = ["matplotlib, pandas and pickle behave as modelled in sa/stubs (subset of the documented behaviour)",
               "numpy.interp interpolates piecewise linearly"]

PRELUDE = """
import numpy as np
import core, command
import _opaque
import matplotlib.pyplot as plt
import finite_volume.shallow_water as swe
from benchmark.shallow_water import ShallowWaterBenchmark
class Scalar(core.Benchmark):
    domain = core.Interval(LA, LA + N * DX)
    problem = "burgers"
    start_time = T0
    end_time = T1
    def __init__(self): pass
    def initial_data(self, x): return U0(x)
    def exact_solution(self, x, t): return UX(x, t)
class Water(ShallowWaterBenchmark):
    domain = core.Interval(LA, LA + N * DX)
    start_time = T0
    end_time = T1
    seed = 5
    def __init__(self): pass
    def bathymetry(self, x): return BATH(x)
    def initial_data(self, x): return np.array([H0(x), Q0(x)])
    def exact_solution(self, x, t): return np.array([HX(x, t), QX(x, t)])
class ScalarUnknown(Scalar):
    def exact_solution(self, x, t): return core.Benchmark.exact_solution(self, x, t)
class WaterUnknown(Water):
    def exact_solution(self, x, t): return core.Benchmark.exact_solution(self, x, t)
class Space:
    def __init__(self, grid): self.grid = grid
class Solver(core.Solver):
    def __init__(self, solution, name, short, effect=None):
        self.solution = solution
        self.name = name
        self.short = short
        self.effect = effect
        self.count = 0
        self.seen = []
    def reinitialize(self, benchmark):
        self.seen.append(benchmark)
    def solve(self, **kwargs):
        self.count += 1
        if self.effect is not None:
            self.effect(self)
"""


def opaque(S, name, dom="real"):
    """Opaque function of position and time."""
    return S.native(name, lambda I, a, k: sym((name,) + tuple(X.canon(I.E(x)) for x in a), dom))


def general_position(inner):
    """Equalities between the ends of the domain and fixed numbers do not hold."""
    memo = {}

    def oracle(c):
        r = inner(c)
        if r is not None or c.id in memo:
            return memo.get(c.id, r)
        memo[c.id] = None
        names = {l.args[0] for l in X.leaves(c)}
        if names and all(isinstance(n, str) and (n in ("a0", "dx", "b0") or X.DOMAIN.get(n) in ("len", "idx")) for n in names):
            vals = set()
            for i in range(24):
                v = X.Valuation("oracle/%d" % i)
                v.reds = True
                try:
                    vals.add(bool(v.ev(c)))
                except (X.Skip, OverflowError):
                    continue
            if len(vals) == 1:
                memo[c.id] = vals.pop()
        return memo[c.id]
    return oracle


class Shown:
    def __init__(self, x, y, label):
        self.x, self.y, self.label = x, y, label


class Stage:
    """The program with symbolic benchmarks, recording what it shows."""

    def __init__(self, c, stubs=("matplotlib", "_opaque", "pandas"), bath=None):
        S = self.S = Sc(c.model, 8_000_000, stubs)
        self.c = c
        self.dumps = []
        t0 = sym("t0", "pos")
        self.end = t0 + sym("dt_total", "pos")
        S.bind(N=S.N, LA=sym("a0", "pos"), DX=fv.DX, T0=t0, T1=self.end, U0=opaque(S, "u0"), UX=opaque(S, "ux"), H0=opaque(S, "h0", "pos"),
               Q0=opaque(S, "q0"), HX=opaque(S, "hx", "pos"), QX=opaque(S, "qx"), BATH=opaque(S, "bath") if bath is None else S.native("bath", lambda I, a, k: bath),
               M=sym("m", "len"))
        S.I.ext_models["pickle.dump"] = lambda I, a, k: self.dumps.append((a[0], a[1]))
        S.I.echo = []
        S.I.eager = True
        S.run(PRELUDE)
        S.generic_data(["u0", "ux", "h0", "q0", "hx", "qx", "bath", "v", "g", "w", "t0", "dt_total"], passive=("a0", "dx", "t0", "dt_total"))
        S.I.oracle = general_position(S.I.oracle)

    # ------------------------------------------------------------ recordings
    def log(self):
        v = self.S.items(self.S.run("_opaque.LOG"))
        return None if not isinstance(v, list) or any(not isinstance(x, tuple) for x in v) else v

    def content(self, v):
        """Axes of a figure, each a list of curves."""
        out = []
        for axes in self.S.items(v):
            out.append([Shown(*x) for x in self.S.items(axes)])
        return out

    def saved(self, kind="savefig"):
        """{path: axes} of the files written, in order, and whether all is known."""
        log = self.log()
        if log is None:
            return None
        out = []
        for e in log:
            if e[0] == kind:
                path = text(e[2][0])
                out.append((path, self.content(e[2][1]), e[1]))
        return out

    def shown(self):
        log = self.log()
        return None if log is None else [[self.content(f) for f in self.S.items(e[2])] for e in log if e[0] == "show"]

    def figures(self):
        """Axes of every open figure."""
        return [self.content(f) for f in self.S.items(self.S.run("[f.content() for f in plt._CURRENT]"))]

    # ------------------------------------------------------------ comparisons
    def same(self, key, got, want, where, rule):
        c, S = self.c, self.S
        try:
            a, b = S.A(got), S.A(want)
        except Exception:
            return c.unknown(key, where, rule, "no array")
        if a is None or b is None:
            return c.unknown(key, where, rule, "no array")
        if len(a.shape) != len(b.shape):
            return c.fact(key + "/shape", False, where, rule, "%s instead of %s" % (NP.shp(a.shape), NP.shp(b.shape)))
        for d, e in zip(a.shape, b.shape):
            if not NP.dim_eq(d, e):
                return c.fact(key + "/shape", False if NP.dim_ne(d, e) else None, where, rule, "%s instead of %s" % (NP.shp(a.shape), NP.shp(b.shape)))
        for ix in places(S, b.shape):
            c.equal("%s%s" % (key, list(map(str, ix))), S.I.E(a.fn(ix)), S.I.E(b.fn(ix)), where, rule)

    def curve(self, key, shown, x, y, where, rule):
        self.same(key + "/x", shown.x, x, where, rule)
        self.same(key + "/y", shown.y, y, where, rule)


def places(S, shape):
    out = [()]
    for d in shape:
        if isinstance(d, int):
            q = range(d)
        else:
            q = [num(0), S.generic(d, "i%d" % len(out[0])), NP.simp(num(d) - 1)]
        out = [p + (i,) for p in out for i in q]
    return out


def text(v):
    if isinstance(v, str):
        return v
    p = getattr(v, "parts", None)
    if p is not None and all(isinstance(x, str) for x in p):
        return "".join(p)
    return None


KINDS = {"scalar": ("command.plot.ScalarPlotter", "command.animate.ScalarAnimator", "Scalar"),
         "swe": ("command.plot.ShallowWaterPlotter", "command.animate.ShallowWaterAnimator", "Water")}


def solution(S, i, kind, n=None):
    """DiscreteSolution number i: (grid, values)."""
    n = n or sym("n%d" % i, "len")
    g = S.vec(n, "g%d" % i)
    if kind == "scalar":
        v = S.vec(n, "v%d" % i)
    else:
        v = NP.new_arr(S.I, (n, 2), lambda ix: water(i, ix[0], ix[1]))
    return g, v


def water(tag, p, j):
    h, q = sym(("v%s_h" % tag, X.canon(num(p))), "pos"), sym(("v%s_q" % tag, X.canon(num(p))), "real")
    if isinstance(j, int):
        return (h, q)[j]
    k = X.const(j)
    return (h, q)[int(k)] if k is not None else X.ite(X.cmp_("==", j, num(0)), h, q)


def parts_of(S, kind, g, v):
    """Arrays drawn for values on a grid: u, or h + b, q and the velocity."""
    if kind == "scalar":
        return [v]
    return S.items(S.run("[_v[:, 0] + np.array([BATH(x) for x in _g]), _v[:, 1], swe.get_velocity(_v)]", _g=g, _v=v))


def sampled(S, kind, g, f):
    """The same for a function on the benchmark's domain."""
    if kind == "scalar":
        return S.items(S.run("[np.array([_f(x) for x in _g])]", _g=g, _f=f))
    v = S.run("np.array([_f(x) for x in _g])", _g=g, _f=f)
    return parts_of(S, kind, g, v)


def labelled(lines, label):
    return [x for x in lines if text(x.label) == label]


def named(label, k):
    """Whether a label can belong to height, discharge or velocity number k."""
    short = ["h", "q", "uv"]
    label = label.lower()
    own = [x for x in short[k] if x in label]
    other = [x for j, s in enumerate(short) for x in s if j != k and x in label]
    return bool(own) or not other


def plot(kind, constant=False, aligned=False):
    """Plots of two solvers; aligned: all grids have the same number of nodes."""
    def run(c):
        st = Stage(c, bath=sym("b0", "real") if constant else None)
        S = st.S
        plotter, _, bench = KINDS[kind]
        where = "command/plot.py:%s" % plotter.rsplit(".", 1)[1]
        axes = 1 if kind == "scalar" else 3
        suffix = [""] if kind == "scalar" else ["_h", "_q", "_v"]
        sizes = (sym("m", "len"),) * 2 if aligned else (sym("n1", "len"), sym("n2", "len"))
        g1, old1 = solution(S, 1, kind, sizes[0])
        g2, v2 = solution(S, 2, kind, sizes[1])
        _, new1 = solution(S, 3, kind, sizes[0])
        S.bind(GA=g1, OLD=old1, GB=g2, VB=v2, NEW=new1)
        grid = S.run("np.linspace(LA, LA + N * DX, M)")

        def solvers():
            S.run("""
                def calculate(solver):
                    solver.solution.update(T1 - T0, NEW)
                first = Solver(core.DiscreteSolution(OLD, T0, Space(GA)), "name1", "short1", calculate)
                second = Solver(core.DiscreteSolution(VB, T0, Space(GB)), "name2", "short2")
                """)

        def inspect(key, figs, want, extra):
            """The curves of the solvers, and at most one other."""
            flat = [a for f in figs for a in f]
            c.fact(key + "/axes", len(flat) == axes, where, "one plot per quantity", "%d instead of %d" % (len(flat), axes))
            if len(flat) != axes:
                return
            for k, lines in enumerate(flat):
                rest = list(lines)
                for label, g, v in want:
                    found = labelled(lines, label)
                    c.fact("%s/%s%d/drawn" % (key, label, k), len(found) == 1, where, "every solution is drawn once, under its short name", "%d curves '%s'" % (len(found), label))
                    for x in found:
                        rest.remove(x)
                        st.curve("%s/%s%d" % (key, label, k), x, g, parts_of(S, kind, g, v)[k], where, "a solution is drawn with its own grid and values")
                if kind == "swe" and k == 0 and not constant:
                    b = labelled(rest, "$b$")
                    c.fact("%s/bottom" % key, len(b) == 1, where, "a bottom that is not constant is drawn with the heights", "%d curves" % len(b))
                    for x in b:
                        rest.remove(x)
                        st.curve("%s/bottom" % key, x, grid, S.run("np.array([BATH(x) for x in _g])", _g=grid), where, "the bottom is drawn")
                c.fact("%s/others%d" % (key, k), len(rest) == (1 if extra else 0), where, "nothing else is drawn", "%d further curves" % len(rest))
                if extra and len(rest) == 1:
                    if kind == "swe":
                        label = rest[0].label
                        label = label if isinstance(label, str) else "".join(x for x in getattr(label, "parts", None) or () if isinstance(x, str)) or None
                        c.fact("%s/function%d/label" % (key, k), None if label is None else named(label, k), where, "a curve carries the name of its quantity", str(label))
                    st.curve("%s/function%d" % (key, k), rest[0], grid, sampled(S, kind, grid, extra)[k], where, "initial data and exact solution are drawn on the benchmark's domain")

        def data(name, figs):
            paths = ["other/y%s.pkl" % s for s in suffix]
            got = {}
            for d, f in st.dumps:
                got.setdefault(getattr(f, "tag", None), []).append(d)
            c.fact(name + "/data", sorted(map(str, got)) == sorted(paths), where, "plot data is saved under the name asked for", str(sorted(map(str, got))))
            for k, p in enumerate(paths):
                if len(got.get(p, [])) != 1 or not figs[k]:
                    continue
                d = got[p][0]
                for label, x in [(text(x.label), x) for x in figs[k][0]]:
                    if label is None:
                        continue
                    v = S.run("_d.get(_l)", _d=d, _l=label)
                    c.fact("%s/data/%s%d" % (name, label, k), None if isinstance(v, Unk) else v is not None, where, "the data of every curve is saved under its label", label)
                    if isinstance(v, Ref):
                        st.same("%s/data/%s%d/x" % (name, label, k), S.run("_v['xdata']", _v=v), x.x, where, "saved data is what is drawn")
                        st.same("%s/data/%s%d/y" % (name, label, k), S.run("_v['ydata']", _v=v), x.y, where, "saved data is what is drawn")

        variants = [("initial", bench + "Unknown", True, True, "first, second"), ("exact", bench, False, False, "first, second"), ("bare", bench + "Unknown", False, True, "second"),
                    ("single", bench + "Unknown", False, False, None), ("unsaved", bench, False, True, "first, second")]
        for name, b, initial, show, given in variants:
            S.run("_opaque.LOG.clear()\nplt._CURRENT.clear()\nplt._FIGURES.clear()")
            st.dumps.clear()
            with c.part(name, S, where, raises=True):
                solvers()
                S.run("""
                    bench = %s()
                    plotter = %s(bench, mesh_size=M, show=SHOW%s)
                    command.plot.Plot(bench, %s, plotter, initial=INITIAL).execute()
                    """ % (b, plotter, "" if name == "unsaved" else ', save_plot="dir/x.png", save_data="other/y.pkl"', "second" if given is None else "[%s]" % given), SHOW=show, INITIAL=initial)
                want = [("short2", g2, v2)]
                if given and "first" in given:
                    want = [("short1", g1, new1)] + want
                    c.fact(name + "/solved1", S.run("first.count") == 1, "command/plot.py:Plot", "every solver is executed once", str(S.run("first.count")))
                c.fact(name + "/solved2", S.run("second.count") == 1, "command/plot.py:Plot", "every solver is executed once", str(S.run("second.count")))
                extra = S.run("bench.initial_data") if initial else S.run("lambda x: bench.exact_solution(x, T1)") if not b.endswith("Unknown") else None
                saved = st.saved()
                if saved is None:
                    c.unknown(name + "/log", where, "figures are recorded")
                    continue
                if name == "unsaved":
                    c.fact(name + "/files", not saved, where, "plots are saved only if asked for", str([p for p, _, _ in saved]))
                    sh = st.shown()
                    c.fact(name + "/shown", len(sh) == 1, where, "plots are shown unless hidden")
                    if len(sh) == 1:
                        inspect(name + "/window", sh[0], want, extra)
                    continue
                c.fact(name + "/files", sorted(str(p) for p, _, _ in saved) == sorted("dir/x%s.png" % s for s in suffix), where, "plots are saved under the name asked for", str([p for p, _, _ in saved]))
                by = {p: a for p, a, _ in saved}
                figs = [by.get("dir/x%s.png" % s, []) for s in suffix]
                inspect(name + "/saved", figs, want, extra)
                sh = st.shown()
                if show:
                    c.fact(name + "/shown", len(sh) == 1 and len(sh[0]) == len(figs), where, "plots are shown unless hidden", "%d windows" % (len(sh[0]) if sh else 0))
                    if len(sh) == 1 and len(sh[0]) == len(figs):
                        inspect(name + "/window", sh[0], want, extra)
                else:
                    c.fact(name + "/hidden", len(sh) == 0, where, "no window opens with hidden plots")
                    c.fact(name + "/closed", S.run("len(plt._CURRENT)") == 0, where, "hidden figures are closed: later plots start from empty figures", "%s figures stay open" % S.run("len(plt._CURRENT)"))
                data(name, figs)
            c.absorb(S)

        def nothing():
            S.run("_opaque.LOG.clear()\nplt._CURRENT.clear()\nplt._FIGURES.clear()")
            with c.part("nothing", S, where, raises=True):
                S.run("""
                    bench = %s()
                    command.plot.Plot(bench, None, %s(bench, mesh_size=M, save_plot="dir/x.png")).execute()
                    """ % (bench + "Unknown", plotter))
                c.fact("nothing/show", st.log() is not None and not st.shown() and not st.saved(), where, "nothing to show is not an error and shows nothing")

        nothing()
        c.absorb(S)
    return run


ERRORS = ("None", "ValueError", "ZeroDivisionError", "FloatingPointError", "IndexError", "RuntimeError", "core.time_stepping.CFLConditionViolatedError", "core.time_stepping.TimeStepTooSmallError")


def many(c):
    """Any number of solvers is executed and shown; a failing one does not stop the others."""
    for command in ("plot", "animate"):
        st = Stage(c)
        S = st.S
        S.run("T0 = 0.0\nT1 = 4.0\nScalar.start_time = T0\nScalar.end_time = T1")
        where = "command/%s.py" % command
        for number in (1, 2, 3, 4, 5):
            for k, error in enumerate(ERRORS):
                key = "%s/%d/%s" % (command, number, error.rsplit(".", 1)[-1])
                if error != "None" and number not in (2, 4):
                    continue
                bad = (k + number) % number if error != "None" else None
                S.run("_opaque.LOG.clear()\nplt._CURRENT.clear()\nplt._FIGURES.clear()")
                with c.part(key, S, where, raises=True):
                    made = [calculated(S, i, "scalar", [0, 1, 4], n=i + 1) for i in range(1, number + 1)]
                    if bad is not None:
                        S.run("""
                            def fail(solver, first=_v):
                                solver.solution.update(1.0, first)
                                raise %s("not finite")
                            _s.effect = fail
                            """ % error, _s=made[bad][0], _v=made[bad][2][1])
                    S.bind(SOLVERS=S.I.list([m[0] for m in made]))
                    if command == "plot":
                        S.run("bench = ScalarUnknown()\ncommand.plot.Plot(bench, SOLVERS, command.plot.ScalarPlotter(bench, mesh_size=4, show=False, save_plot='dir/x.png')).execute()")
                    else:
                        S.run("bench = ScalarUnknown()\ncommand.animate.Animate(bench, SOLVERS, command.animate.ScalarAnimator(bench, mesh_size=4, time_steps=3, show=False, save='dir/x.mp4')).execute()")
                    for i, m in enumerate(made, 1):
                        c.fact("%s/solved%d" % (key, i), S.run("_s.count", _s=m[0]) == 1, where, "every solver is executed once", str(S.run("_s.count", _s=m[0])))
                    saves = st.saved() if command == "plot" else st.saved("save")
                    if saves is None:
                        c.unknown(key + "/log", where, "figures are recorded")
                        continue
                    c.fact(key + "/files", len(saves) == 1, where, "the figure is saved", str([p for p, _, _ in saves]))
                    for _, figs, _ in saves[:1]:
                        lines = [x for a in figs for x in a]
                        for i in range(1, number + 1):
                            c.fact("%s/drawn%d" % (key, i), len(labelled(lines, "short%d" % i)) == 1, where, "every solution is drawn once, under its short name", str([text(x.label) for x in lines]))
        c.absorb(S)


TIMES = {1: [0, 1, 4], 2: [0, 2, 3, 4]}
ALIGNED = {1: [0, 1, 2.5, 3, 4], 2: [0, 2, 3, 3.5, 4]}


def history(S, i, kind, steps, n=None):
    """Grid and value arrays of the solution number i at every time."""
    n = n or sym("n%d" % i, "len")
    g = S.vec(n, "g%d" % i)
    vs = []
    for k in range(steps):
        if kind == "scalar":
            vs.append(S.vec(n, "v%d_%d" % (i, k)))
        else:
            vs.append(NP.new_arr(S.I, (n, 2), lambda ix, k=k: water("%d_%d" % (i, k), ix[0], ix[1])))
    return g, vs


def calculated(S, i, kind, times, name="short%d", n=None):
    """A solver whose calculation adds the states at the given times."""
    g, vs = history(S, i, kind, len(times), n)
    S.run("""
        def calculate(solver, times=_times, values=_values):
            for k in range(1, len(times)):
                solver.solution.update(times[k] - times[k - 1], values[k])
        _s = Solver(core.DiscreteSolutionWithHistory(core.DiscreteSolution(_values[0], _times[0], Space(_g))), "name%d", "%s", calculate)
        """ % (i, name % i if "%" in name else name), _times=S.I.list([num(t) for t in times]), _values=S.I.list(vs), _g=g)
    return S.run("_s"), g, vs


def snapshot(S, times, vs, t):
    """The solution at a time, linearly interpolated."""
    return S.run("core.TemporalInterpolator()(np.array(_times), np.array(_values), np.array([_t]))[0]", _times=S.I.list([num(q) for q in times]), _values=S.I.list(vs), _t=num(t))


def animate(kind, aligned=False):
    """Animations of two solvers; aligned: all grids have the same number of nodes, all histories the same number of times."""
    TIMES = ALIGNED if aligned else globals()["TIMES"]

    def run(c):
        st = Stage(c)
        S = st.S
        _, animator, bench = KINDS[kind]
        where = "command/animate.py:%s" % animator.rsplit(".", 1)[1]
        axes = 1 if kind == "scalar" else 3
        if aligned:
            S.bind(M=3)
        S.run("T0 = 0.0\nT1 = 4.0\nScalar.start_time = Water.start_time = T0\nScalar.end_time = Water.end_time = T1")
        grid = S.run("np.linspace(LA, LA + N * DX, M)")
        # name, benchmark, initial, show, start time, duration, number of solvers
        variants = [("plain", bench + "Unknown", False, True, None, 2, 2), ("exact", bench, False, False, 1.5, 10, 1), ("initial", bench + "Unknown", True, True, 2, 3, 1),
                    ("failing", bench + "Unknown", False, False, None, 2, 2)]
        def frame(name, S, k, t, made, times, extra):
            key = "%s/t=%g" % (name, t)
            drawn = S.run("_anim.func(_k)", _k=k)
            figs = st.content(S.run("_anim.fig.content()"))
            c.fact(key + "/axes", len(figs) == axes, where, "one plot per quantity", "%d instead of %d" % (len(figs), axes))
            texts = S.items(S.run("[e[2][0] for e in _opaque.LOG if e[0] == 'text']"))
            said = text(texts[-1]) if texts else None
            c.fact(key + "/time", None if said is None else ("%.2f" % t) in said, where, "the time displayed is the time of the frame", str(said))
            artists = S.items(drawn) if isinstance(drawn, (Ref, tuple)) else []
            count = S.run("len([x for x in _d if isinstance(x, plt.Line)])", _d=drawn) if artists else 0
            n = (len(made) + (1 if extra else 0)) * axes
            c.fact(key + "/updated", None if isinstance(count, (E, Unk)) else count >= n, where, "every curve is redrawn", "%s of %d" % (count, n))
            if len(figs) != axes:
                return
            if kind == "swe":
                names = [text(x) for x in S.items(S.run("[a.texts.get('ylabel') for a in _anim.fig.axes]"))]
                for a, label in enumerate(names):
                    other = [w for q, w in enumerate(("height", "discharge", "velocity")) if q != a and label is not None and w in label.lower()]
                    c.fact("%s/label%d" % (key, a), None if label is None else not other, where, "axes carry the name of their quantity", str(label))
            for a, lines in enumerate(figs):
                rest = list(lines)
                for i, (s, g, vs) in enumerate(made, 1):
                    found = labelled(lines, "short%d" % i)
                    c.fact("%s/short%d.%d/drawn" % (key, i, a), len(found) == 1, where, "every solution is drawn once, under its short name", "%d curves" % len(found))
                    for x in found:
                        rest.remove(x)
                        v = snapshot(S, times[i], vs[:len(times[i])], t)
                        st.curve("%s/short%d.%d" % (key, i, a), x, g, parts_of(S, kind, g, v)[a], where, "a frame shows the solution at its time")
                if kind == "swe" and a == 0:
                    bottom = labelled(rest, "$b$")
                    c.fact("%s/bottom" % key, len(bottom) == 1, where, "the bottom is drawn with the heights", "%d curves" % len(bottom))
                    for x in bottom:
                        rest.remove(x)
                        st.curve("%s/bottom" % key, x, grid, S.run("np.array([BATH(x) for x in _g])", _g=grid), where, "the bottom is drawn")
                c.fact("%s/others%d" % (key, a), len(rest) == (1 if extra else 0), where, "nothing else is drawn", "%d further curves" % len(rest))
                if extra and len(rest) == 1:
                    f = S.run("lambda x: _fx(x, _tx)", _fx=extra, _tx=S.I.E(num(t)))
                    st.curve("%s/function%d" % (key, a), rest[0], grid, sampled(S, kind, grid, f)[a], where, "a frame shows the function at its time")

        def rate(name, S, want, duration):
            for key, src, exact in (("interval", "_anim.kwargs.get('interval')", 1000.0 * duration / len(want)),
                                    ("fps", "[e[3].get('fps') for e in _opaque.LOG if e[0] == 'save'][-1]", len(want) / duration)):
                v = S.run(src)
                v = X.const(S.I.E(v)) if isinstance(v, (int, E)) else None
                if v is not None:
                    c.fact("%s/%s" % (name, key), abs(float(v) - exact) <= 1.0, where, "the animation lasts as long as asked for", "%s instead of %s" % (float(v), exact))
                else:
                    c.unknown("%s/%s" % (name, key), where, "the animation lasts as long as asked for")

        for name, b, initial, show, start, duration, number in variants:
            S.run("_opaque.LOG.clear()\nplt._CURRENT.clear()\nplt._FIGURES.clear()")
            with c.part(name, S, where, raises=True):
                made = [calculated(S, i, kind, TIMES[i], n=3 if aligned else i + 2) for i in range(1, number + 1)]
                times = {i: TIMES[i] for i in range(1, number + 1)}
                if name == "failing":
                    S.run("""
                        def fail(solver, first=_v):
                            solver.solution.update(1.0, first)
                            raise ValueError("not finite")
                        _s.effect = fail
                        """, _s=made[0][0], _v=made[0][2][1])
                    times[1] = TIMES[1][:2]
                S.run("""
                    bench = %s()
                    animator = %s(bench, mesh_size=M, time_steps=5, save="dir/x.mp4", start_time=START, duration=DURATION, show=SHOW)
                    command.animate.Animate(bench, SOLVERS, animator, initial=INITIAL).execute()
                    """ % (b, animator), START=None if start is None else S.I.E(num(start)), DURATION=duration, SHOW=show, SOLVERS=S.I.list([m[0] for m in made]), INITIAL=initial)
                for m in made:
                    c.fact(name + "/solved", S.run("_s.count == 1", _s=m[0]), "command/animate.py:Animate", "every solver is executed once")
                extra = S.run("lambda x, t: bench.initial_data(x)") if initial else S.run("bench.exact_solution") if name == "exact" else None
                log = st.log()
                if log is None:
                    c.unknown(name + "/log", where, "figures are recorded")
                    continue
                anim = [e for e in log if e[0] == "animation"]
                c.fact(name + "/animated", len(anim) == 1, where, "one animation is built", str(len(anim)))
                if len(anim) != 1:
                    continue
                S.bind(_anim=anim[0][1])
                saves = st.saved("save")
                c.fact(name + "/file", [p for p, _, _ in saves] == ["dir/x.mp4"], where, "the animation is saved under the name asked for", str([p for p, _, _ in saves]))
                sh = st.shown()
                c.fact(name + "/shown", (len(sh) == 1 and len(sh[0]) == 1) if show else len(sh) == 0, where, "the animation is shown unless hidden")
                if not show:
                    c.fact(name + "/closed", S.run("len(plt._CURRENT)") == 0, where, "hidden figures are closed")
                grids = [times[i] for i in times] + ([list(range(5))] if extra else [])
                want = [t for t in sorted(set(sum(grids, []))) if start is None or t >= start]
                frames = S.items(S.run("list(range(_anim.frames)) if isinstance(_anim.frames, int) else list(_anim.frames)"))
                c.fact(name + "/frames", len(frames) == len(want), where, "every time of the solutions from the start time on is a frame", "%d frames instead of %d" % (len(frames), len(want)))
                rate(name, S, want, duration)
                if len(frames) != len(want):
                    continue
                for k, t in zip(frames, want):
                    frame(name, S, k, t, made, times, extra)
            c.absorb(S)
    return run


NORMS = """
class FirstNorm:
    name = "first"
    def __init__(self, mesh, quadrature_degree=None): self.mesh = mesh
    def __call__(self, f): return MEASURE(1, self.mesh, f(CELL, POINT))
class SecondNorm(FirstNorm):
    name = "second"
    def __call__(self, f): return MEASURE(2, self.mesh, f(CELL, POINT))
class ThirdNorm(FirstNorm):
    name = "third"
    def __call__(self, f): return MEASURE(3, self.mesh, f(CELL, POINT))
class DofSpace:
    def __init__(self, number):
        self.mesh = number
        self.grid = [number]
    def element(self, dofs): return lambda cell_index, x: ELEMENT(self.mesh, dofs, cell_index, x)
"""


def measure(S):
    """Opaque norms of opaque functions, entry by entry."""
    def norm(I, a, k):
        def one(x):
            return sym(("norm", X.canon(num(a[0])), X.canon(I.E(a[1])), X.canon(NP.simp(I.E(x)))), "pos")
        v = a[2]
        if isinstance(v, Ref):
            r = S.A(v)
            return NP.mk_arr(I, NP.A(r.shape, lambda ix: one(r.fn(ix))))
        return one(v)

    def element(I, a, k):
        d = S.A(a[1])
        def at(j):
            ix = (lambda p: (p, j)) if j is not None else (lambda p: (p,))
            tag = tuple(X.canon(I.E(d.fn(ix(p)))) for p in NP.positions(d.shape[0]))
            return sym(("element", X.canon(num(a[0]))) + tag + tuple(X.canon(I.E(x)) for x in a[2:]), "real")
        if len(d.shape) == 1:
            return at(None)
        return NP.new_arr(I, (d.shape[1],), lambda ix: at(ix[0]))

    S.bind(MEASURE=S.native("measure", norm), ELEMENT=S.native("element", element), CELL=sym("cell", "idx"), POINT=sym("point", "real"))
    S.run(NORMS)


def logarithm(S, x):
    return S.run("np.log2(_x)", _x=x)


def table(c):
    """Errors, orders and their table."""
    st = Stage(c)
    S = st.S
    where = "command/error.py:EOCCalculator"
    n = 3
    with c.part("eoc", S, where, raises=True):
        measure(S)
        vs = [S.vec(4 * 2 ** k, "v%d" % k) for k in range(n)]
        S.run("spaces = [DofSpace(10), DofSpace(20), DofSpace(30)]\nsolvers = [Solver(core.DiscreteSolution(v, T1, s), 'name', 'short') for v, s in zip(VS, spaces)]", VS=S.I.list(vs))
        S.run("calculator = command.error.EOCCalculator(Scalar(), norms=[FirstNorm, SecondNorm, ThirdNorm])\ndofs, errors, eocs = calculator(solvers, spaces)")
        dofs, errors, eocs = [S.A(S.run(x)) for x in ("dofs", "errors", "eocs")]
        want = [[None] * n for _ in range(3)]
        for k in range(n):
            c.equal("dofs%d" % k, S.I.E(dofs.fn((k,))), num(4 * 2 ** k), where, "the table counts the degrees of freedom")
            for j in range(3):
                d = S.run("UX(POINT, T1) - ELEMENT(%d, _v, CELL, POINT)" % (10 * (k + 1)), _v=vs[k])
                want[j][k] = S.run("MEASURE(%d, %d, _d)" % (j + 1, 10 * (k + 1)), _d=d)
                c.equal("error%d,%d" % (j, k), S.I.E(errors.fn((j, k))), S.I.E(want[j][k]), where, "an error is the norm of the difference to the exact solution at the end time")
                if k:
                    c.equal("eoc%d,%d" % (j, k), S.I.E(eocs.fn((j, k))), S.I.E(logarithm(S, want[j][k - 1] / want[j][k])), where, "the order is the binary logarithm of the error ratio")
                else:
                    e = eocs.fn((j, 0))
                    c.fact("eoc%d,0" % j, "nan" in str(e) or not isinstance(e, E) or (None if X.tainted(e) else not X.leaves(e)), where, "the first row has no order", str(e))
        c.fact("names", S.run("list(calculator.norm_names) == ['first', 'second', 'third']"), where, "the columns carry the names of their norms")
    c.absorb(S)
    # given errors, growing and shrinking
    with c.part("orders", S, where, raises=True):
        S.run("""
            class Given:
                name = "given"
                table = {10: 4, 20: 1, 30: 2, 40: 1}
                def __init__(self, mesh, quadrature_degree=None): self.mesh = mesh
                def __call__(self, f): return self.table[self.mesh] * 1.0
            class Tiny(Given):
                name = "tiny"
                table = {10: 2.0 ** -40, 20: 2.0 ** -44, 30: 2.0 ** -40, 40: 2.0 ** -43}
            spaces = [DofSpace(10), DofSpace(20), DofSpace(30), DofSpace(40)]
            solvers = [Solver(core.DiscreteSolution(np.zeros(3 * k + 3), T1, s), 'name', 'short') for k, s in enumerate(spaces)]
            dofs, errors, eocs = command.error.EOCCalculator(Scalar(), norms=[Given, Tiny, Given])(solvers, spaces)
            """)
        errors, eocs = S.A(S.run("errors")), S.A(S.run("eocs"))
        for j, (es, os) in enumerate((((4, 1, 2, 1), (2, -1, 1)), (None, (4, -4, 3)), ((4, 1, 2, 1), (2, -1, 1)))):
            for k in range(4):
                if es:
                    c.equal("given%d,%d" % (j, k), S.I.E(errors.fn((j, k))), num(es[k]), where, "an error is the norm of the difference to the exact solution at the end time")
                if k:
                    # logarithms of numbers stay terms
                    e = NP.simp(S.I.E(eocs.fn((j, k))))
                    if X.has_nan(e):
                        c.fact("order%d,%d" % (j, k), None if X.leaves(e) else False, where, "every row but the first has an order", str(e))
                        continue
                    c.equal("order%d,%d" % (j, k), S.I.E(eocs.fn((j, k))), S.I.E(S.run("np.log2(_x)", _x=num(2) ** os[k - 1] if os[k - 1] > 0 else num(1) / num(2) ** -os[k - 1])), where, "the order is the binary logarithm of the error ratio")
    with c.part("own-space", S, where, raises=True):
        # solutions need no space of their own: the calculator has one
        for tag, exact in (("function", "lambda x: UX(x, T1)"), ("solution", "core.DiscreteSolution(EXACT, T1)")):
            S.bind(V=S.vec(3, "v"), EXACT=S.vec(3, "ex"))
            S.run("t, e = command.error.ErrorCalculator(DofSpace(10), FirstNorm(10))(%s, core.DiscreteSolution(V, T1))" % exact)
            d = S.run("%s - ELEMENT(10, V, CELL, POINT)" % ("UX(POINT, T1)" if tag == "function" else "ELEMENT(10, EXACT, CELL, POINT)"))
            c.equal("own-space/" + tag, S.run("e"), S.run("MEASURE(1, 10, _d)", _d=d), "command/error.py:ErrorCalculator", "solutions are compared in the space of the calculator")
            if tag == "solution":
                # a reference that is known at another time
                S.run("t2, e2 = command.error.ErrorCalculator(DofSpace(10), FirstNorm(10))(core.DiscreteSolution(EXACT, T1 + 1), core.DiscreteSolution(V, T1))")
                c.equal("own-space/reference/time", S.run("t2"), S.run("T1"), "command/error.py:ErrorCalculator", "the error belongs to the time of the solution")
            c.equal("own-space/%s/time" % tag, S.run("t"), S.run("T1"), "command/error.py:ErrorCalculator", "the error belongs to the time of the solution")
    c.absorb(S)
    with c.part("defaults", S, where, raises=True):
        for kind, build, degree in (("finite volumes", "finite_volume.build_space" if False else "FV", None), ("finite elements", "FE", 2), ("linear elements", "FE", 1), ("cubic elements", "FE", 3), ("quartic elements", "FE", 4)):
            S.run("import finite_volume, finite_element\nmesh = core.UniformMesh(core.Interval(LA, LA + 2 * DX), 2)")
            sp = S.run("finite_volume.FiniteVolumeSpace(mesh)" if build == "FV" else "finite_element.LagrangeSpace(mesh, %d)" % degree)
            v = S.vec(2 * degree if build == "FE" else 2, "w")
            S.run("s = Solver(core.DiscreteSolution(_v, T1, _sp), 'name', 'short')\ncalculator = command.error.EOCCalculator(Scalar())\ndofs, errors, eocs = calculator([s], [_sp])", _v=v, _sp=sp)
            names = [text(x) for x in S.items(S.run("list(calculator.norm_names)"))]
            S.run("def difference(cell_index, x, e=_sp.element(_v)): return UX(x, T1) - e(cell_index, x)")
            errors = S.A(S.run("errors"))
            for j, m in enumerate(names):
                norm = [q for q in ("L1Norm", "L2Norm", "solver_spaces") if text(S.run("core.%s.name" % q)) == m]
                if len(norm) != 1:
                    c.unknown("%s/norm%d" % (kind, j), where, "the norms have names")
                    continue
                got = S.I.E(errors.fn((j, 0)))
                # any quadrature exact enough for the space
                wants = [S.I.E(S.run("core.%s(mesh%s)(difference)" % (norm[0], ", quadrature_degree=%d" % q if norm[0] != "solver_spaces" and q else ""))) for q in ((0,) if degree is None else (degree + 1, 0, degree + 2, degree + 3))]
                near = [w for w in wants if X.is_zero(got - w)[0] == "proved"]
                c.equal("%s/error%d" % (kind, j), got, (near or wants)[0], where, "the column of a norm shows the error in this norm")
            c.fact(kind + "/norms", len(set(names)) == len(names) == errors.shape[0], where, "every error has a name", str(names))
    c.absorb(S)


def data_frame(c):
    st = Stage(c)
    S = st.S
    where = "command/error.py:EOCDataFrame"
    n = 3
    with c.part("frame", S, where, raises=True):
        S.bind(DOFS=S.vec(n, "dofs", "pos"), ERRORS=NP.new_arr(S.I, (3, n), lambda ix: sym(("error%s" % ix[0], X.canon(num(ix[1]))), "pos")),
               EOCS=NP.new_arr(S.I, (3, n), lambda ix: sym(("eoc%s" % ix[0], X.canon(num(ix[1]))), "real")))
        S.run("frame = command.error.EOCDataFrame()(DOFS, ERRORS, EOCS, ['first', 'second', 'third'])")
        columns = S.items(S.run("list(frame.columns)"))
        c.fact("columns", S.run("len(frame.columns)") == 7, where, "one column for the degrees of freedom and two for each norm", str(S.run("len(frame.columns)")))
        c.fact("rows", S.run("len(frame.index)") == n, where, "one row per refinement")

        def cell(key, col, k, e, rule):
            v = S.run("list(frame[%s])[%d]" % (col, k))
            p = getattr(v, "parts", None)
            ok = None
            if p is not None:
                vals = [x[0] for x in p if isinstance(x, tuple)]
                ok = len(vals) == 1 and isinstance(vals[0], E) and X.is_zero(vals[0] - S.I.E(e))[0] == "proved"
            elif isinstance(v, E):
                ok = X.is_zero(v - S.I.E(e))[0] == "proved"
            c.fact(key, ok, where, rule, str(v)[:80])

        for k in range(n):
            cell("dofs%d" % k, "'DOFs'", k, S.run("DOFS[%d]" % k), "the degrees of freedom of every refinement are listed")
            for j, m in enumerate(("first", "second", "third")):
                cell("error-%s%d" % (m, k), "'%s', 'error'" % m, k, S.run("ERRORS[%d, %d]" % (j, k)), "errors are listed under their norm")
                cell("eoc-%s%d" % (m, k), "'%s', 'eoc'" % m, k, S.run("EOCS[%d, %d]" % (j, k)), "orders are listed under their norm")
    c.absorb(S)
    with c.part("print", S, "command/error.py:CalculateEOC", raises=True):
        S.run("""
            class Calculator:
                norm_names = ["first", "second", "third"]
                def __init__(self, benchmark): pass
                def __call__(self, solvers, spaces): return solvers[0].name + "-dofs", solvers[0].name + "-errors", solvers[0].name + "-eocs"
            class Frame:
                def __call__(self, *args):
                    return "table of " + args[0] + " " + args[1] + " " + args[2]
            command.error.EOCCalculator = Calculator
            command.error.EOCDataFrame = Frame
            one, two = Solver(None, "method-one", "s1"), Solver(None, "method-two", "s2")
            """)
        S.I.echo.clear()
        S.run("command.error.CalculateEOC(Scalar(), [[one, one], [two, two]], [[1, 2], [3, 4]]).execute()")
        said = [text(x) for x in flat_echo(S)]
        at = [next((i for i, x in enumerate(said) if x == y), None) for y in ("method-one", "table of method-one-dofs method-one-errors method-one-eocs", "method-two", "table of method-two-dofs method-two-errors method-two-eocs")]
        c.fact("order", None not in at and at == sorted(at), "command/error.py:CalculateEOC", "every table is printed below the name of its solver", str(said)[:200])
    c.absorb(S)


def flat_echo(S):
    out = []
    for x in S.I.echo:
        for y in x if isinstance(x, (tuple, list)) else [x]:
            out.append(y)
    return out


def evolution(c):
    """The relative error over time of two solutions."""
    st = Stage(c)
    S = st.S
    where = "command/error_evolution.py:ErrorEvolutionCalculator"
    measure(S)
    n = 3
    for name, one, two in (("finer", [0, 1, 2, 4], [0, 4]), ("coarser", [0, 2, 4], [0, 1, 3, 4]), ("equal", [0, 1, 4], [0, 2, 4])):
        with c.part(name, S, where, raises=True):
            a, g, va = calculated(S, 1, "swe", one, n=n)
            b, _, vb = calculated(S, 2, "swe", two, n=n)
            S.run("import command.error_evolution as ee\nspace = DofSpace(10)\nspace.grid = _g\nfor s in (_a, _b):\n    s.solution._solution._space = space\n    s.solve()", _g=g, _a=a, _b=b)
            S.run("times, errors = ee.ErrorEvolutionCalculator()(_a.solution, _b.solution, norm=FirstNorm(10))", _a=a, _b=b)
            compare_evolution(c, S, name, "times", "errors", one, two, va, vb, where, lambda d: S.run("MEASURE(1, 10, _d)", _d=d))
        c.absorb(S)
    with c.part("small", S, where, raises=True):
        # a reference solution close to zero
        S.run("""
            import command.error_evolution as ee
            class Sum:
                def element(self, dofs): return lambda cell_index, x: dofs[0]
                mesh = 10
            first = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([[3.0, 5.0]]) * 2.0 ** -60, 0.0, Sum()))
            second = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.array([[1.0, 4.0]]) * 2.0 ** -60, 0.0, Sum()))
            first.update(1.0, np.array([[3.0, 9.0]]) * 2.0 ** 60)
            second.update(1.0, np.array([[2.0, 3.0]]) * 2.0 ** 60)
            times, errors = ee.ErrorEvolutionCalculator()(first, second, norm=lambda f: np.abs(f(0, 0)))
            """)
        R = S.A(S.run("np.array(errors)"))
        for (k, j), w in {(0, 0): num(2), (0, 1): num(1) / 4, (1, 0): num(1) / 2, (1, 1): num(2)}.items():
            c.equal("small%d,%d" % (k, j), S.I.E(R.fn((k, j))), w, where, "the error at a time is the norm of the difference relative to the reference solution")
    with c.part("default", S, where, raises=True):
        a, g, va = calculated(S, 1, "swe", [0, 4], n=2)
        b, _, vb = calculated(S, 2, "swe", [0, 4], n=2)
        S.run("""
            import finite_volume
            space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(LA, LA + 2 * DX), 2))
            for s in (_a, _b):
                s.solution._solution._space = space
                s.solve()
            times, errors = ee.ErrorEvolutionCalculator()(_a.solution, _b.solution)
            norm = core.L2Norm(space.mesh)
            """, _a=a, _b=b)
        for k, t in enumerate((0, 4)):
            for j in range(2):
                e, d = S.run("norm(lambda cell, x: space.element(_p)(cell, x)[%d] - space.element(_q)(cell, x)[%d])" % (j, j), _p=va[k], _q=vb[k]), S.run("norm(lambda cell, x: space.element(_q)(cell, x)[%d])" % j, _q=vb[k])
                c.equal("default%d,%d" % (k, j), S.I.E(S.run("errors[%d, %d]" % (k, j))), S.I.E(e) / S.I.E(d), where, "the error is measured in the L2 norm")
    c.absorb(S)
    with c.part("refused", S, where):
        a, g, va = calculated(S, 1, "swe", [0, 4], n=2)
        b, _, vb = calculated(S, 2, "swe", [0, 4], n=4)
        S.run("_a.solve()\n_b.solve()", _a=a, _b=b)
        try:
            S.run("ee.ErrorEvolutionCalculator()(_a.solution, _b.solution)", _a=a, _b=b)
            c.fact("refused", False, where, "solutions on different grids are not compared")
        except PyRaise:
            S.reset()
            c.fact("refused", True, where, "solutions on different grids are not compared")
    c.absorb(S)


def compare_evolution(c, S, key, times, errors, one, two, va, vb, where, norm):
    at = one if len(one) > len(two) else two
    T, R = S.A(S.run("np.array(%s)" % times)), S.A(S.run("np.array(%s)" % errors))
    ok = isinstance(T.shape[0], int) and len(R.shape) == 2 and R.shape[0] == T.shape[0] and R.shape[1] == 2
    c.fact(key + "/shape", ok, where, "one error per time and quantity", "%s, %s" % (NP.shp(T.shape), NP.shp(R.shape)))
    if not ok:
        return
    ts = [X.const(S.I.E(T.fn((k,)))) for k in range(T.shape[0])]
    c.fact(key + "/times", None if None in ts else len(ts) >= len(at) and ts[0] == at[0] and ts[-1] == at[-1], where, "the error is known at the times of the finer solution", str(ts))
    for k, t in enumerate(ts):
        if t is None:
            continue
        p, q = snapshot(S, one, va, t), snapshot(S, two, vb, t)
        d = norm(S.run("ELEMENT(10, _p, CELL, POINT) - ELEMENT(10, _q, CELL, POINT)", _p=p, _q=q))
        e = norm(S.run("ELEMENT(10, _q, CELL, POINT)", _q=q))
        for j in range(2):
            c.equal("%s/error%d,%d" % (key, k, j), S.I.E(R.fn((k, j))), S.I.E(S.at(d, j)) / S.I.E(S.at(e, j)), where, "the error at a time is the norm of the difference relative to the reference solution")


def error_plot(c):
    """The plot of two relative errors."""
    st = Stage(c)
    S = st.S
    where = "command/error_evolution.py:PlotShallowWaterErrorEvolution"
    n = sym("T", "len")
    S.bind(TIME=S.vec(n, "time"), ERR=NP.new_arr(S.I, (n, 2), lambda ix: water("err", ix[0], ix[1])), OTHER=NP.new_arr(S.I, (n, 2), lambda ix: water("other", ix[0], ix[1])))
    for name, show, executed in (("calculated", True, False), ("given", False, True)):
        S.run("_opaque.LOG.clear()\nplt._CURRENT.clear()\nplt._FIGURES.clear()")
        with c.part(name, S, where, raises=True):
            S.run("""
                import command.error_evolution as ee
                class Calculator:
                    def __call__(self, approximation, exact, norm=None):
                        if approximation == "approximation" and exact == "exact": return TIME, ERR
                        return TIME, OTHER
                ee.ErrorEvolutionCalculator = Calculator
                first, second = Solver("approximation", "n1", "s1"), Solver("exact", "n2", "s2")
                plot = ee.PlotShallowWaterErrorEvolution([first, second], show=SHOW, save="dir/x.png", solver_executed=EXECUTED)
                plot.execute(%s)
                """ % ("time=TIME, error=ERR" if executed else ""), SHOW=show, EXECUTED=executed)
            for s in ("first", "second"):
                c.fact("%s/%s" % (name, s), S.run("%s.count == %d" % (s, 0 if executed else 1)), where, "solvers are executed once unless they already are")
            saved = st.saved()
            c.fact(name + "/file", [p for p, _, _ in saved or []] == ["dir/x.png"], where, "the plot is saved under the name asked for", str([p for p, _, _ in saved or []]))
            sh = st.shown()
            c.fact(name + "/shown", (len(sh) == 1) if show else len(sh) == 0 and S.run("len(plt._CURRENT)") == 0, where, "the plot is shown unless hidden")
            if not saved or len(saved[0][1]) != 1:
                c.fact(name + "/axes", False if saved else None, where, "one plot of both errors")
                continue
            lines = saved[0][1][0]
            c.fact(name + "/curves", len(lines) == 2, where, "height and discharge errors are drawn", "%d curves" % len(lines))
            for word, j in (("Height", 0), ("Discharge", 1)):
                found = [x for x in lines if word in (text(x.label) or "")]
                c.fact("%s/%s" % (name, word), len(found) == 1, where, "the errors are labelled", "%d curves" % len(found))
                for x in found:
                    st.curve("%s/%s" % (name, word), x, S.run("TIME"), S.run("ERR[:, %d]" % j), where, "a curve shows the error of its quantity over time")
        c.absorb(S)


def average(c):
    """Mean and maximum of the errors of several runs."""
    st = Stage(c)
    S = st.S
    where = "command/error_evolution.py:PlotShallowWaterAverageErrorEvolution"
    runs = [[0, 1, 2, 4], [0, 2, 4], [0, 1, 3, 4], [0, 3, 4], [0, 3, 4]]
    for name, order in (("middle", [0, 1, 2]), ("last", [0, 2, 1]), ("single", [2]), ("tied", [3, 1, 0]), ("same length", [0, 2]), ("same times", [3, 4])):
        S.run("_opaque.LOG.clear()\nplt._CURRENT.clear()\nplt._FIGURES.clear()")
        with c.part(name, S, where, raises=True):
            times = [runs[k] for k in order]
            errors = [[NP.new_arr(S.I, (2,), lambda ix, k=k, t=t: sym(("e%d_%d" % (k, t), X.canon(num(ix[0]))), "pos")) for t in runs[k]] for k in order]
            S.run("""
                import command.error_evolution as ee
                ee.PlotShallowWaterAverageErrorEvolution([np.array(t) for t in _times], [np.array(e) for e in _errors], show=False, save="dir/x.png").execute()
                """, _times=S.I.list([S.I.list([num(q) for q in t]) for t in times]), _errors=S.I.list([S.I.list(e) for e in errors]))
            saved = {p: (a, f) for p, a, f in st.saved() or []}
            c.fact(name + "/files", sorted(map(str, saved)) == ["dir/x_h.png", "dir/x_q.png"], where, "one plot for each quantity", str(sorted(map(str, saved))))
            c.fact(name + "/closed", S.run("len(plt._CURRENT)") == 0, where, "hidden figures are closed")
            at = min(times, key=len)
            for j, p in enumerate(("dir/x_h.png", "dir/x_q.png")):
                if p not in saved:
                    continue
                axes, fig = saved[p]
                c.fact("%s/%d/curves" % (name, j), len(axes) == 1 and len(axes[0]) == 1, where, "the mean error is drawn", str([len(a) for a in axes]))
                if len(axes) != 1 or len(axes[0]) != 1:
                    continue
                vals = [[S.I.E(S.at(snapshot(S, times[r], errors[r], t), j)) for t in at] for r in range(len(times))]
                mean = [sum((v[k] for v in vals), num(0)) / len(vals) for k in range(len(at))]
                top = []
                for k in range(len(at)):
                    top.append(S.run("np.max(np.array(_v))", _v=S.I.list([v[k] for v in vals])))
                arr = lambda xs: NP.new_arr(S.I, (len(xs),), lambda ix: S.I.E(xs[int(X.const(num(ix[0])))]))
                x = axes[0][0]
                st.curve("%s/%d/mean" % (name, j), x, arr([num(t) for t in at]), arr(mean), where, "the curve is the mean over all runs at common times")
                fills = S.items(S.run("_f.axes[0].fills", _f=fig))
                c.fact("%s/%d/band" % (name, j), len(fills) == 1, where, "the band up to the worst run is drawn")
                if len(fills) == 1:
                    lo, hi = fills[0][1], fills[0][2]
                    st.same("%s/%d/band/x" % (name, j), fills[0][0], arr([num(t) for t in at]), where, "the band is drawn at common times")
                    st.same("%s/%d/band/lower" % (name, j), lo, arr(mean), where, "the band starts at the mean")
                    st.same("%s/%d/band/upper" % (name, j), hi, arr(top), where, "the band ends at the maximum over all runs")
        c.absorb(S)


SERIES = """
import command.error_evolution as ee
class Benchmark:
    def __init__(self, seed): self.seed = seed
class Generator:
    made = []
    def __init__(self, seed=None, end_time=None, **kwargs):
        self.kwargs = {"seed": seed, "end_time": end_time, **kwargs}
        self.number = 0
        Generator.made.append(self)
    def __call__(self):
        self.number += 1
        return Benchmark(self.number)
ee.shallow_water.RandomBenchmarkGenerator = Generator
class Calculator:
    def __call__(self, approximation, exact, norm=None):
        return ["time", approximation, exact], ["error", approximation, exact]
ee.ErrorEvolutionCalculator = Calculator
LOGGED = []
def named(names, args, kwargs):
    out = dict(zip(names, args))
    out.update(kwargs)
    return out
def record(kind, names):
    class Recorded:
        def __init__(self, *args, **kwargs):
            self.kwargs = named(names, args, kwargs)
        def execute(self, *args, **kwargs):
            LOGGED.append((kind, None, self.kwargs, None, named(["time", "error"], args, kwargs)))
    return Recorded
def drawer(names):
    class Drawer:
        def __init__(self, *args, **kwargs):
            self.kwargs = named(names, args, kwargs)
            self.benchmark = self.kwargs.get("benchmark")
    return Drawer
ee.PlotShallowWaterErrorEvolution = record("error", ["solver", "suptitle", "show", "save", "solver_executed"])
ee.Plot = record("plot", ["benchmark", "solver", "plotter", "initial", "solver_executed", "write_warnings"])
ee.Animate = record("animation", ["benchmark", "solver", "animator", "initial", "solver_executed", "write_warnings"])
ee.ShallowWaterPlotter = drawer(PLOTTER)
ee.ShallowWaterAnimator = drawer(ANIMATOR)
class Run(Solver):
    def __init__(self, name, failing=()):
        self.name = self.short = name
        self.failing = failing
        self.benchmark = None
        self.solution = None
        self.solved = []
    def reinitialize(self, benchmark):
        self.benchmark = benchmark
        self.solution = (self.name, benchmark.seed, "initial")
    def solve(self, **kwargs):
        self.solved.append(self.benchmark.seed)
        if self.benchmark.seed in self.failing:
            raise ValueError("failed")
        self.solution = (self.name, self.benchmark.seed, "end")
"""


def parameters(S, name):
    """The names of the parameters of a class, in order."""
    f = S.run("%s.__init__" % name)
    node = f.node.args
    return S.I.list([a.arg for a in node.posonlyargs + node.args][1:])


def series(c):
    """Errors for a series of random initial data."""
    where = "command/error_evolution.py:GenerateShallowWaterErrorEvolutionSeries"
    for name, failing, flags in (("all", "()", ("True", "True", "True")), ("failing", "(2,)", ("True", "True", "True")), ("errors", "(1,)", ("False", "False", "True")),
                                 ("plots", "()", ("True", "False", "False")), ("animations", "()", ("False", "True", "False")),
                                 ("nowhere", "()", ("False", "False", "False"))):
        st = Stage(c)
        S = st.S
        with c.part(name, S, where, raises=True):
            S.I.ext_models["os.makedirs"] = lambda I, a, k: None
            S.bind(PLOTTER=parameters(S, "command.plot.Plotter"), ANIMATOR=parameters(S, "command.animate.Animator"))
            S.run(SERIES)
            S.run("""
                approximation, exact = Run("approximation"), Run("exact", %s)
                series = ee.GenerateShallowWaterErrorEvolutionSeries(approximation, exact, seed=7, end_time=3, initial_conditions=3, description="d", %s
                    save_plot=%s, save_animation=%s, save_error=%s, height_average=5)
                series.execute()
                """ % ((failing, "" if name == "nowhere" else 'save_directory="dir",') + flags))
            made = S.items(S.run("[g.kwargs for g in Generator.made]"))
            c.fact(name + "/generator", len(made) == 1, where, "one generator of random benchmarks is used", str(len(made)))
            if len(made) == 1:
                for k, v in (("seed", 7), ("end_time", 3), ("height_average", 5)):
                    c.fact("%s/%s" % (name, k), S.run("_k.get('%s') == %d" % (k, v), _k=made[0]), where, "seed, end time and parameters are those asked for")
            for seed in ("None", "0"):
                S.run("""
                    ee.GenerateShallowWaterErrorEvolutionSeries(Run("approximation"), Run("exact"), seed=%s, end_time=3, initial_conditions=1)
                    _last = Generator.made[-1]
                    """ % seed)
                c.fact("%s/seed=%s" % (name, seed), S.run("len(Generator.made) == 2 and _last.kwargs.get('seed', None) == %s" % seed), where, "seed, end time and parameters are those asked for")
                S.run("Generator.made.pop()")
            bad = [int(x) for x in failing if x.isdigit()]
            good = [k for k in (1, 2, 3) if k not in bad]
            c.fact(name + "/number", S.run("_n == 3", _n=S.run("Generator.made[0].number")), where, "as many initial data are drawn as asked for")
            for q in ("times", "errors"):
                got = S.run("list(series.%s)" % q)
                want = S.run("[['%s', ('approximation', k, 'end'), ('exact', k, 'end')] for k in GOOD]" % q[:-1], GOOD=S.I.list(good))
                c.fact("%s/%s" % (name, q), S.run("_x == _y", _x=got, _y=want), where, "every solved initial data adds its error to the series, others add nothing", "")
            c.fact(name + "/exact", S.run("exact.solved == [1, 2, 3]"), where, "both solvers are executed for every initial data")
            c.fact(name + "/approximation", S.run("all([k in approximation.solved for k in GOOD])"), where, "both solvers are executed for every initial data")
            for kind, flag in (("plot", flags[0]), ("animation", flags[1]), ("error", flags[2])):
                got = S.items(S.run("[e for e in LOGGED if e[0] == '%s']" % kind))
                want = good if flag == "True" else []
                c.fact("%s/%s" % (name, kind), len(got) == len(want), where, "what was asked for is saved for every solved initial data", "%d times %s" % (len(got), kind))
                paths = []
                for seed, e in zip(want, got):
                    S.bind(_e=e)
                    if kind == "error":
                        S.run("_save, _show = _e[2].get('save'), _e[2].get('show')\n_time, _error = _e[4].get('time'), _e[4].get('error')")
                        c.fact("%s/%s%d/data" % (name, kind, seed), S.run("_time == ['time', ('approximation', %d, 'end'), ('exact', %d, 'end')] and _error == ['error', ('approximation', %d, 'end'), ('exact', %d, 'end')]" % ((seed,) * 4)), where, "the errors saved are those of the initial data")
                    else:
                        S.run("_drawer = _e[2].get('%s')\n_bench = _e[2].get('benchmark')\n_show = _drawer.kwargs.get('show')\n_save = _drawer.kwargs.get('%s')" % (
                            "plotter" if kind == "plot" else "animator", "save_plot" if kind == "plot" else "save"))
                        c.fact("%s/%s%d/benchmark" % (name, kind, seed), S.run("_drawer.benchmark.seed == %d and _bench.seed == %d" % (seed, seed)), where, "plots belong to the initial data")
                    c.fact("%s/%s%d/executed" % (name, kind, seed), S.run("_e[2].get('solver_executed') == True"), where, "solvers are not executed again")
                    c.fact("%s/%s%d/show" % (name, kind, seed), S.run("_show == False"), where, "no window opens in a series")
                    p = text(S.run("_save"))
                    paths.append(p)
                    c.fact("%s/%s%d/path" % (name, kind, seed), None if p is None else p.startswith("dir/") if name != "nowhere" else "/" not in p and "None" not in p, where, "files are saved in the directory asked for", str(p))
                c.fact("%s/%s/distinct" % (name, kind), None if None in paths else len(set(paths)) == len(paths), where, "no file is overwritten", str(paths))
        c.absorb(S)


VARIATION = """
import command.parameter_variation_test as pv
MADE = []
class Series:
    def __init__(self, solver_approximation, solver_exact, seed=None, end_time=None, initial_conditions=20, description=None, save_directory=None, save_plot=False, save_animation=False,
                 save_error=False, **kwargs):
        self.approximation, self.exact = solver_approximation, solver_exact
        self.kwargs = {"seed": seed, "end_time": end_time, "initial_conditions": initial_conditions, "save_directory": save_directory, "save_plot": save_plot,
                       "save_animation": save_animation, "save_error": save_error, **kwargs}
        self.times, self.errors = [], []
        MADE.append(self)
    def execute(self):
        self.times.append(("times", len(MADE)))
        self.errors.append(("errors", len(MADE)))
AVERAGES = []
class Average:
    def __init__(self, times, errors, show=True, save=None):
        self.times, self.errors, self.kwargs = times, errors, {"show": show, "save": save}
    def execute(self):
        AVERAGES.append((len(MADE), list(self.times), list(self.errors), self.kwargs))
pv.GenerateShallowWaterErrorEvolutionSeries = Series
pv.PlotShallowWaterAverageErrorEvolution = Average
"""


def variation(c):
    """Series of errors for every value of a parameter."""
    where = "command/parameter_variation_test.py:ParameterVariationTest"
    for name, directory, references, keys in (("all", "out/", "'references'", None), ("plain", "out", "'reference'", ["wave-number"]), ("none", "out/", "None", ["amplitude", "height-average"])):
        st = Stage(c)
        S = st.S
        with c.part(name, S, where, raises=True):
            S.run(VARIATION)
            S.run("VARIATIONS = %s" % ("list(pv.PARAMETER_VARIATIONS.values())" if keys is None else "[pv.PARAMETER_VARIATIONS[k] for k in %r]" % (keys,)))
            S.run("pv.ParameterVariationTest('approximation', 'exact', '%s', initial_data_number=4, seed=9, end_time=3, references=%s, references_prefix='prefix', parameter_variations=VARIATIONS, save_plot=True, save_animation=False).execute()" % (directory, references))
            want = [] if references == "None" else [(None, None, None, None)]
            for v in S.items(S.run("[(v.name, v.short, list(v.values), v.benchmark_defaults) for v in VARIATIONS]")):
                for x in S.items(v[2]):
                    want.append((v[0], v[1], x, v[3]))
            made = S.items(S.run("list(MADE)"))
            averages = S.items(S.run("list(AVERAGES)"))
            c.fact(name + "/series", len(made) == len(want), where, "one series for the reference and for every value of every parameter", "%d instead of %d" % (len(made), len(want)))
            c.fact(name + "/averages", len(averages) == len(want), where, "one average for the reference and for every value of every parameter", "%d instead of %d" % (len(averages), len(want)))
            dirs, files = [], []
            begin = directory.rstrip("/")
            if len(made) == len(averages) == len(want):
                for k, (m, a, w) in enumerate(zip(made, averages, want)):
                    S.bind(_m=m, _a=a, _w=w[2], _d=w[3])
                    key = "%s/%d" % (name, k)
                    c.fact(key + "/solvers", S.run("_m.approximation == 'approximation' and _m.exact == 'exact'"), where, "the second solver is the reference")
                    c.fact(key + "/arguments", S.run("_m.kwargs.get('seed') == 9 and _m.kwargs.get('end_time') == 3 and _m.kwargs.get('initial_conditions') == 4 and _m.kwargs.get('save_plot') == True and _m.kwargs.get('save_animation') == False"), where, "seed, end time, number of initial data and plots are those asked for")
                    if w[0] is None:
                        c.fact(key + "/parameters", S.run("not any([n in _m.kwargs for n in %r])" % (["height_average", "height_wave_number", "height_amplitude"],)), where, "the reference has default parameters")
                    else:
                        c.fact(key + "/value", S.run("_m.kwargs.get('%s') == _w" % w[0]), where, "the parameter has the value tested")
                        c.fact(key + "/parameters", S.run("all([_m.kwargs.get(n) == _d[n] for n in _d if n != '%s'])" % w[0]), where, "other parameters are those of the variation")
                    c.fact(key + "/average", S.run("_a[0] == %d and _a[1] == [('times', %d)] and _a[2] == [('errors', %d)]" % ((k + 1,) * 3)), where, "the average is that of the series")
                    c.fact(key + "/hidden", S.run("_a[3].get('show') == False"), where, "no window opens")
                    d, f = S.run("_m.kwargs.get('save_directory')"), S.run("_a[3].get('save')")
                    c.fact(key + "/written", d is not None and f is not None, where, "errors and averages are saved")
                    d, f = text(d), text(f)
                    dirs.append(d)
                    files.append(f)
                    c.fact(key + "/directory", None if d is None else d.startswith(begin), where, "everything is saved in the directory asked for", str(d))
                    c.fact(key + "/file", None if f is None else f.startswith(begin), where, "everything is saved in the directory asked for", str(f))
                    if d is not None and f is not None:
                        c.fact(key + "/exists", f.rsplit("/", 1)[0] in (d, d.rsplit("/", 1)[0]), where, "averages are saved in a directory that exists", "%s, %s" % (d, f))
                    if w[0] is not None and d is not None:
                        c.fact(key + "/named", w[0] in d, where, "results are found under the name of the parameter", str(d))
            paths = dirs + files
            c.fact(name + "/separated", None if None in paths else all(p.startswith(begin + "/") for p in paths), where, "results are saved inside the directory asked for", str(paths)[:200])
            for q, xs in (("directories", dirs), ("files", files)):
                c.fact("%s/%s" % (name, q), None if None in xs else len(set(xs)) == len(xs), where, "no result is overwritten", str(xs)[:200])
        c.absorb(S)
