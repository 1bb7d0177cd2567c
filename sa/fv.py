"""Fixtures for the finite volume solvers."""
from . import expr as X
from . import npmodel as NP
from .expr import num, sym
from .scen import Sc
from .values import *

SWE = '''
import numpy as np
import core, finite_volume
import finite_volume.shallow_water as swe
import finite_volume.shallow_water.solver as sol
from benchmark.shallow_water import ShallowWaterBenchmark
class SymbolicBenchmark(ShallowWaterBenchmark):
    domain = core.Interval(LA, LA+N*DX)
    gravitational_acceleration = G
    end_time = T1
    start_time = T0
    _boundary_conditions = BC
    def __init__(self): pass
    def bathymetry(self, x): return BATH(x)
    def initial_data(self, x): return np.array([H0(x), Q0(x)])
    def inflow_left(self, t): return np.array([HL(t), QL(t)])
    def inflow_right(self, t): return np.array([HR(t), QR(t)])
bench = SymbolicBenchmark()
'''

SCALAR = '''
import numpy as np
import core, finite_volume
from finite_volume import scalar
import finite_volume.scalar.solver as sol
class SymbolicBenchmark(core.Benchmark):
    domain = core.Interval(LA, LA+N*DX)
    problem = PROBLEM
    end_time = T1
    start_time = T0
    _boundary_conditions = BC
    def __init__(self): pass
    def initial_data(self, x): return U0(x)
    def inflow_left(self, t): return UL(t)
    def inflow_right(self, t): return UR(t)
bench = SymbolicBenchmark()
'''

G = sym("g", "pos")
DX = sym("dx", "pos")


def positive(S, name):
    """Opaque positive function of time."""
    return S.native(name, lambda I, a, k: sym((name, X.canon(I.E(a[0]))), "pos"))


def base(model, bc="periodic"):
    S = Sc(model)
    S.bind(N=S.N, G=G, LA=sym("a0", "pos"), DX=DX, BC=bc, T0=sym("t0", "pos"), T1=sym("t0", "pos") + sym("dt_total", "pos"),
           H0=S.func("h0"), Q0=S.func("q0"), U0=S.func("u0"), HL=positive(S, "hl"), QL=S.func("ql"), HR=positive(S, "hr"), QR=S.func("qr"),
           UL=S.func("ul"), UR=S.func("ur"))
    return S


def swe(model, bc="periodic", bath="zero"):
    S = base(model, bc)
    if bath == "zero":
        f = S.native("bath", lambda I, a, k: 0.0 if False else num(0))
    elif bath == "const":
        f = S.native("bath", lambda I, a, k: sym("b0", "real"))
    elif bath == "bump":
        f = S.native("bath", lambda I, a, k: bump(S, S.I.E(a[0]), bc))
        S.generic_data(["bath", "b"])
    else:
        f = S.func("bath")
        S.generic_data(["bath", "b"])
    S.bind(BATH=f)
    S.run(SWE)
    return S


def bump(S, x, bc):
    """Bathymetry that is flat outside of the free cells."""
    x = X.canon(x)
    t = NP.simp((x - sym("a0", "pos")) / DX)
    free, flat = X.app("bath", x), sym("b_flat", "real")

    def side(d):
        """Sign of a position difference (integer form plus a closed number)."""
        lin, rest = X.ZERO, {}
        for m, c in X.nf(d).items():
            if len(m) == 1 and m[0][1] == 1 and X.DOMAIN.get(X.ATOMS[m[0][0]].args[0]) in ("len", "idx"):
                lin = lin + X.ATOMS[m[0][0]] * num(c)
            else:
                rest[m] = c
        v = X.closed_p(rest)
        if v is None:
            return None
        q = X.isign(lin + num(int(v // 1)))
        if lin is X.ZERO or X.ilin(lin) == (0, {}):
            return (v > 0) - (v < 0)
        return q

    def inside(t, a, b):
        c, d = side(t - a), side(t - b)
        if c is None or d is None:
            return None
        return c >= 0 and d <= 0

    if bc == "periodic":
        g = S.generic(S.N, "k")
        r = inside(t, g, g + 3)
        if r is None:
            return free
        return free if r else flat
    # walls: free near both ends
    lo = inside(t, num(-4), num(3))
    hi = inside(t, S.N - 3, S.N + 4)
    if lo is None or hi is None:
        return free
    return free if lo or hi else flat


def scalar(model, problem, bc="periodic"):
    S = base(model, bc)
    S.bind(PROBLEM=problem)
    S.run(SCALAR)
    return S


def keys(S, src):
    """Keys of a registry."""
    d = S.run(src)
    return [k for k in S.I.rec(d).items if isinstance(k, str)]


def solver(S, key, extra=""):
    return S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N%s)" % (key, extra))


def rhs(S, solver_):
    return S.run("slv.as_dict()['right_hand_side']", slv=solver_)


def piecewise(S, n, k, m, comps, tag="u"):
    """State equal to a constant before position k, free on [k, k+m), and another
    constant from k+m on.  comps: [(name, domain)]; a single component gives a
    vector.  The values are named (name,'w'), (name,j), (name,'v')."""

    def val(name, dom, i):
        i = num(i)
        d = i - k
        if X.isign(d) == -1:
            return sym((name, "w"), dom)
        if X.isign(d - m) in (0, 1):
            return sym((name, "v"), dom)
        for j in range(m):
            if X.isign(d - j) == 0:
                return sym((name, j), dom)
        # undecided position: gated choice
        r = sym((name, "v"), dom)
        for j in reversed(range(m)):
            r = X.ite(X.cmp_("==", d, num(j)), sym((name, j), dom), r)
        return X.ite(X.cmp_("<", d, num(0)), sym((name, "w"), dom), r)

    if len(comps) == 1:
        return NP.new_arr(S.I, (n,), lambda ix: val(comps[0][0], comps[0][1], ix[0]))

    def fn(ix):
        c = NP.simp_int(ix[1])
        if isinstance(c, int):
            return val(comps[c][0], comps[c][1], ix[0])
        r = val(comps[-1][0], comps[-1][1], ix[0])
        for q in reversed(range(len(comps) - 1)):
            r = X.ite(X.cmp_("==", num(c), num(q)), val(comps[q][0], comps[q][1], ix[0]), r)
        return r

    return NP.new_arr(S.I, (n, len(comps)), fn)


def total(S, v, k, m, width, c=None):
    """Sum of the elements at positions k-width .. k+m+width-1."""
    t = X.ZERO
    for d in range(-width, m + width):
        ix = (NP.simp_int(num(k) + d),) + (() if c is None else (c,))
        t = t + S.I.E(S.A(v).fn(ix))
    return t


def swe_flux(h, q):
    return q, q * q / h + G * h * h / 2


def scalar_flux(problem, u):
    return u if problem == "advection" else u * u / 2
