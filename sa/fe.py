"""Fixtures for the finite element solvers."""
from . import expr as X
from . import npmodel as NP
from . import fv
from .expr import num, sym

FE = '''
import numpy as np
import core, finite_element as fe
import finite_element.scalar.solver as sol
from finite_element.scalar.solver import cg, cg_low, mcl
class SymbolicBenchmark(core.Benchmark):
    domain = core.Interval(LA, LA+N*DX)
    problem = PROBLEM
    end_time = T1
    start_time = T0
    _boundary_conditions = "periodic"
    def __init__(self): pass
    def initial_data(self, x): return U0(x)
bench = SymbolicBenchmark()
mesh = core.UniformMesh(core.Interval(LA, LA+N*DX), N)
space = fe.LagrangeSpace(mesh, P)
'''
DX = fv.DX


def make(model, problem="advection", p=1, cells=None):
    S = fv.base(model)
    if cells is not None:
        S.N = num(cells)
        S.bind(N=cells)
    S.bind(PROBLEM=problem, P=p)
    S.run(FE)
    S.p = p
    S.n = NP.simp_int(num(p) * S.N) if p > 1 else NP.simp_int(S.N)
    return S


def positions(S, tag="c"):
    """Degrees of freedom of a generic cell and of the cells at both ends."""
    p, N = S.p, S.N
    g = S.generic(N, tag)
    out = []
    for c in (num(0), num(1), g, NP.simp(N - 2), NP.simp(N - 1)):
        for r in range(p):
            out.append(NP.simp_int(c * p + r))
    return out


def state(S, k, m, name="u", dom="real"):
    """Constant w outside of the free entries p*k .. p*k+m-1."""

    def fn(ix):
        i = num(ix[0])
        d = i - num(S.p) * num(k)
        for j in range(m):
            if X.isign(NP.simp(d - j)) == 0:
                return sym((name, j), dom)
        if X.isign(NP.simp(d)) == -1 or X.isign(NP.simp(d - m)) in (0, 1):
            return sym((name, "w"), dom)
        r = sym((name, "w"), dom)
        for j in range(m):
            r = X.ite(X.cmp_("==", d, num(j)), sym((name, j), dom), r)
        return r

    return NP.new_arr(S.I, (S.n,), fn)


def edge_state(S, name="u", dom="real", width=2):
    """Free entries at both ends, constant in between."""

    def fn(ix):
        i = num(ix[0])
        for q in range(width):
            if X.isign(NP.simp(i - q)) == 0:
                return sym((name, q), dom)
            if X.isign(NP.simp(i - (num(S.n) - 1 - q))) == 0:
                return sym((name, -1 - q), dom)
        return sym((name, "w"), dom)

    return NP.new_arr(S.I, (S.n,), fn)


def keys(S):
    return fv.keys(S, "sol.SOLVER_PARSER")


def solver(S, key, extra=""):
    return S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=P%s)" % (key, extra))


def rhs(S, slv):
    return S.run("slv.as_dict()['right_hand_side']", slv=slv)


def weighted_total(S, v, lumped, k, lo, hi):
    """sum m_i v_i over entries p*k+lo .. p*k+hi-1; a solution of the consistent
    mass system is replaced by the column sums of the system."""
    t = X.ZERO
    for d in range(lo, hi):
        i = NP.simp_int(num(S.p) * num(k) + d)
        t = t + S.I.E(lumped.fn((i,))) * S.I.E(v.fn((i,)))
    return t
