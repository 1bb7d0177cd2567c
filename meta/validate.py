"""Development aid (not a check): compare terms of the abstract interpreter with what the real code computes for one concrete instance.
Run: PYTHONPATH=/repo:/verif MPLBACKEND=Agg /opt/venv/bin/python meta/validate.py"""
import numpy as np
import core
import finite_element.scalar.solver as fsol
import finite_volume.scalar.solver as ssol
import finite_volume.shallow_water.solver as wsol
from benchmark.shallow_water import ShallowWaterBenchmark
from sa import expr as X, fe, fv, npmodel as NP
from sa.expr import num, sym
from sa.model import Model

M = Model()
NN, A0, DXV, GV, TS, TA = 20, 0.3, 0.25, 1.7, 0.05, 0.4
rng = np.random.default_rng(3)
bad = 0


def swe():
    for key in wsol.SOLVER_PARSER:
        if key.startswith("reduced"):
            continue
        for bc in ("periodic", ("outflow", "outflow"), ("wall", "outflow")):
            for bath in ("zero", "free"):
                S = fv.swe(M, bc, bath)
                n = NP.simp(S.N * 2) if key == "coarse" else S.N
                extra = ", coarsening_degree=2" if key == "coarse" else ""
                S.bind(TS=sym("ts", "pos"), TA=sym("ta", "pos"), MS=n, U=S.swe(n, "uh", "uq"))
                S.generic_data(["uh", "uq", "bath", "b"])
                S.run('''
s = sol.SOLVER_PARSER[%r].solver(bench, mesh_size=MS%s)
r = s.as_dict()["right_hand_side"]
%s
a = r(TA, U)''' % (key, extra, "r.set_time_step(TS)" if key == "lw" else ""))
                A = S.A(S.run("a"))
                size = NN * (2 if key == "coarse" else 1)
                u = np.array([1 + rng.random(size), rng.normal(size=size)]).T
                v0 = X.Valuation("v")
                b = (lambda x: v0._hash("bath", [float(x)])) if bath == "free" else (lambda x: 0.0)

                class B(ShallowWaterBenchmark):
                    domain = core.Interval(A0, A0 + NN * DXV)
                    gravitational_acceleration = GV
                    end_time = 1.0
                    _boundary_conditions = bc
                    def __init__(self): pass
                    def bathymetry(self, x): return b(x)
                    def initial_data(self, x): return np.array([1.0, 0.0])
                kw = {"coarsening_degree": 2} if key == "coarse" else {}
                s = wsol.SOLVER_PARSER[key].solver(B(), mesh_size=size, **kw)
                f = s.as_dict()["right_hand_side"]
                if key == "lw":
                    f.set_time_step(TS)
                real = f(TA, u)
                g = S.generic(n, "k")
                pos = [0, 1, 2, g, NP.simp(n - 2), NP.simp(n - 1)]
                run("swe/%s/%s/%s" % (key, bc, bath), real, lambda j, q: S.I.E(A.fn((j, q))), {"uh": u[:, 0], "uq": u[:, 1]}, pos, 2)


def run(tag, real, term, arrays, pos, cols):
    base = {}
    for n in list(X.DOMAIN):
        if isinstance(n, str):
            if X.DOMAIN[n] == "len":
                base[n] = NN
            elif X.DOMAIN[n] == "idx":
                base[n] = 7
    base.update({"a0": A0, "dx": DXV, "g": GV, "ts": TS, "ta": TA, "t0": 0.0, "dt_total": 1.0})

    class V(X.Valuation):
        def leaf(self, e):
            n = e.args[0]
            if e.op == "sym" and isinstance(n, tuple) and n[0] in arrays:
                i = n[1]
                i = i if isinstance(i, int) else int(round(float(self.ev(i))))
                return float(arrays[n[0]][i])
            return super().leaf(e)

    global bad
    worst = 0
    for j in pos:
        v = V("v", base)
        jr = j if isinstance(j, int) else int(round(v.ev(num(j))))
        for q in range(cols):
            try:
                t = v.ev(num(term(j, q)))
            except X.Skip:
                t = float("nan")
            r = real[jr] if cols == 1 else real[jr, q]
            d = abs(t - r) / (1 + abs(r))
            if not d < 1e-7:
                bad += 1
                print("  DIFF", tag, j, q, t, r)
            worst = max(worst, d)
    print("%-50s %.1e" % (tag, worst), flush=True)


def bench(problem, bc="periodic"):
    class B(core.Benchmark):
        domain = core.Interval(A0, A0 + NN * DXV)
        end_time = 1.0
        _boundary_conditions = bc
        def __init__(self): pass
        def initial_data(self, x): return 0.0 * x
    B.problem = problem
    return B()


def scalar():
    for key in ssol.SOLVER_PARSER:
        for problem in ("advection", "burgers"):
            for bc in ("periodic", ("outflow", "outflow")):
                S = fv.scalar(M, problem, bc)
                S.bind(TA=sym("ta", "pos"), U=S.vec(S.N, "u"))
                S.generic_data(["u"])
                A = S.A(S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N).as_dict()['right_hand_side'](TA, U)" % key))
                u = rng.normal(size=NN)
                real = ssol.SOLVER_PARSER[key].solver(bench(problem, bc), mesh_size=NN).as_dict()["right_hand_side"](TA, u)
                g = S.generic(S.N, "k")
                run("scalar/%s/%s/%s" % (key, problem, bc), real, lambda j, q: S.I.E(A.fn((j,))), {"u": u}, [0, 1, 2, g, NP.simp(S.N - 2), NP.simp(S.N - 1)], 1)


def finite_elements():
    for key in fsol.SOLVER_PARSER:
        if key == "cg":
            continue
        for problem in ("advection", "burgers"):
            for p in (1, 2):
                S = fe.make(M, problem, p)
                S.bind(TA=sym("ta", "pos"), U=S.vec(S.n, "u"))
                S.generic_data(["u"])
                A = S.A(S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=P).as_dict()['right_hand_side'](TA, U)" % key))
                u = rng.normal(size=NN * p)
                real = fsol.SOLVER_PARSER[key].solver(bench(problem), mesh_size=NN, polynomial_degree=p).as_dict()["right_hand_side"](TA, u)
                g = S.generic(S.N, "k")
                pos = [0, 1, 2, NP.simp(p * g), NP.simp(p * g + p - 1), NP.simp(S.n - 2), NP.simp(S.n - 1)]
                run("fe/%s/%s/%d" % (key, problem, p), real, lambda j, q: S.I.E(A.fn((j,))), {"u": u}, pos, 1)


if __name__ == "__main__":
    scalar()
    finite_elements()
    swe()
    print("differences:", bad)
