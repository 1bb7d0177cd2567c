"""Finite element operators: exact integrals of the basis, elements, schemes."""
from fractions import Fraction as F

from .. import fe, fv
from .. import expr as X
from .. import npmodel as NP
from ..expr import num, sym

ID = "C13"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: rows of the assembled operators (arbitrary number of cells, generic row, rows next to the periodic seam) are derived from the source, quadrature included, "
    "and compared in exact arithmetic with integrals of products of Lagrange polynomials; finite elements are compared with their polynomials at symbolic points.")
ASSUMPTIONS = ["real arithmetic", "eigenvalues of the Golub-Welsch matrices (up to size 5) in closed form"]


# exact polynomials -----------------------------------------------------
def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def lagrange(p):
    """Basis polynomials (ascending coefficients) for the nodes i/p."""
    out = []
    for i in range(p + 1):
        r = [F(1)]
        for j in range(p + 1):
            if j != i:
                d = F(i - j, p)
                r = pmul(r, [-F(j, p) / d, 1 / d])
        out.append(r)
    return out


def deriv(a):
    return [k * a[k] for k in range(1, len(a))] or [F(0)]


def integral(a):
    return sum((c / (k + 1) for k, c in enumerate(a)), F(0))


def value(a, t):
    r = X.ZERO
    for c in reversed(a):
        r = r * t + num(c)
    return r


class Local:
    def __init__(self, p):
        b = lagrange(p)
        d = [deriv(x) for x in b]
        n = range(p + 1)
        self.p, self.basis, self.deriv = p, b, d
        self.mass = [[integral(pmul(b[i], b[j])) for j in n] for i in n]
        self.grad = [[integral(pmul(b[i], d[j])) for j in n] for i in n]
        self.triple = [[[integral(pmul(pmul(b[i], b[j]), d[k])) for k in n] for j in n] for i in n]


class Space:
    """Positions of a periodic space with N cells (symbolic or concrete)."""

    def __init__(self, S, cells=None):
        self.S, self.p = S, S.p
        self.N = S.N if cells is None else cells
        self.n = NP.simp(num(self.N) * S.p)
        g = S.generic(S.N, "c") if cells is None else None
        cs = [num(0), num(1), g, NP.simp(S.N - 2), NP.simp(S.N - 1)] if cells is None else [num(i) for i in range(cells)]
        self.cells = cs
        self.dofs = [(c, r) for c in cs for r in range(self.p)]

    def wrap(self, i):
        i = NP.simp(i)
        if X.idx_decide("<", i, X.ZERO):
            return NP.simp(i + self.n)
        if X.idx_decide(">=", i, self.n):
            return NP.simp(i - self.n)
        return i

    def index(self, c, r):
        return self.wrap(num(c) * self.p + r)

    def elements(self, c, r):
        """(cell, local index) pairs of a degree of freedom."""
        return [(c, 0), (NP.simp(num(c) - 1), self.p)] if r == 0 else [(c, r)]

    def row(self, c, r, local):
        """column -> sum of local(i, j) over the cells of the degree of freedom."""
        out = {}
        for cell, i in self.elements(c, r):
            for j in range(self.p + 1):
                k = self.index(cell, j)
                out[k] = out.get(k, X.ZERO) + num(local(i, j))
        return out


def line(S, m, i):
    out = {}
    for j, v in m.row(i):
        j = NP.simp(j)
        out[j] = out.get(j, X.ZERO) + S.I.E(NP.val(v))
    return out


def matrix(S, src):
    v = S.run(src)
    return S.I.rec(v)


def compare_row(c, S, key, got, want, where, rule):
    for j in list(got) + [j for j in want if j not in got]:
        c.equal("%s,%s]" % (key, j), got.get(j, X.ZERO), want.get(j, X.ZERO), where, rule)


def operators(p, cells=None):
    def run(c):
        S = fe.make(c.model, "advection", p, cells)
        sp, L = Space(S, cells), Local(p)
        S.generic_data(["u", "w"])
        where = "finite element space of degree %d" % p
        dx = fe.DX
        with c.part("space", S, where, raises=True):
            c.fact("dimension", NP.dim_eq(S.run("space.dimension"), sp.n), where, "one degree of freedom per cell and degree")
            G = S.A(S.run("space.basis_nodes"))
            c.fact("nodes", NP.dim_eq(G.shape[0], sp.n), where, "one node per degree of freedom")
            for cell, r in sp.dofs:
                c.equal("node[%s,%d]" % (cell, r), S.I.E(G.fn((sp.index(cell, r),))), sym("a0", "pos") + dx * (num(cell) + num(F(r, p))), where, "nodes are spread evenly over the cells")
            for cell in sp.cells:
                for r in range(p + 1):
                    c.equal("index[%s,%d]" % (cell, r), S.I.E(S.run("space.global_index(CC, RR)", CC=cell, RR=r)), sp.index(cell, r), where, "cells share their end nodes periodically")
        with c.part("neighbours", S, where, raises=True):
            arr = S.A(S.run("space.dof_neighbours.array"))
            for cell, r in sp.dofs:
                i = sp.index(cell, r)
                want = {NP.simp(sp.index(e, j)) for e, _ in sp.elements(cell, r) for j in range(p + 1)}
                got = {NP.simp(S.I.E(arr.fn((i, q)))) for q in range(arr.shape[1])} if isinstance(arr.shape[1], int) else None
                if got is not None and any(X.tainted(x) for x in got):
                    got = None
                c.fact("neighbours[%s,%d]" % (cell, r), None if got is None else got == want, where, "neighbours are the degrees of freedom of the same cells", "%s instead of %s" % (got, want))
        with c.part("mass", S, where, raises=True):
            S.run("M = fe.MassMatrix(space)\nG = fe.DiscreteGradient(space)\nL = fe.LumpedMassVector(space)(space.grid)")
            S.bind(U=S.vec(sp.n, "u"), W=S.vec(sp.n, "w"))
            M, G, Lm = matrix(S, "M()"), matrix(S, "G()"), S.A(S.run("L"))
            Mu, Gu = S.A(S.run("M.dot(U)")), S.A(S.run("G.dot(U)"))
            R, C = matrix(S, "M.multiply_row(U)"), matrix(S, "G.multiply_column(U)")
            u = lambda j: sym(("u", num(j)), "real")
            for cell, r in sp.dofs:
                i, tag = sp.index(cell, r), "[%s,%d" % (cell, r)
                m = sp.row(cell, r, lambda a, b: L.mass[a][b])
                m = {j: v * dx for j, v in m.items()}
                g = sp.row(cell, r, lambda a, b: L.grad[a][b])
                compare_row(c, S, "mass" + tag, line(S, M, i), m, where, "mass matrix entries are the integrals of products of basis functions")
                compare_row(c, S, "gradient" + tag, line(S, G, i), g, where, "discrete gradient entries are the integrals of basis functions times derivatives")
                c.equal("lumped" + tag + "]", S.I.E(Lm.fn((i,))), sum(m.values(), X.ZERO), where, "lumped masses are the integrals of the basis functions")
                c.equal("mass-dot" + tag + "]", S.I.E(Mu.fn((i,))), sum((v * u(j) for j, v in m.items()), X.ZERO), where, "matrix vector products use the assembled values")
                c.equal("gradient-dot" + tag + "]", S.I.E(Gu.fn((i,))), sum((v * u(j) for j, v in g.items()), X.ZERO), where, "matrix vector products use the assembled values")
                compare_row(c, S, "row-scaling" + tag, line(S, R, i), {j: v * u(j) for j, v in m.items()}, where, "multiply_row scales entry ij by the j-th value")
                compare_row(c, S, "column-scaling" + tag, line(S, C, i), {j: v * u(i) for j, v in g.items()}, where, "multiply_column scales entry ij by the i-th value")
        with c.part("diffusion", S, where, raises=True):
            for problem in ("advection", "burgers"):
                S.run("D = fe.build_artificial_diffusion(%r, space)\nD.assemble(W)\nD.assemble(U)" % problem)
                D, Du = matrix(S, "D()"), S.A(S.run("D.dot(U)"))
                for cell, r in sp.dofs:
                    i, tag = sp.index(cell, r), "[%s,%d" % (cell, r)
                    want = {}
                    for j, v in sp.row(cell, r, lambda a, b: L.grad[a][b]).items():
                        if j is not i:
                            a = X.fn("abs", v)
                            want[j] = a if problem == "advection" else X.fn("max", a * X.fn("abs", u(j)), a * X.fn("abs", u(i)))
                    want[i] = -sum(want.values(), X.ZERO)
                    compare_row(c, S, problem + "-diffusion" + tag, line(S, D, i), want, where, "artificial diffusion: largest wave speed times gradient entry, rows sum to zero")
                    c.equal(problem + "-diffusion-dot" + tag + "]", S.I.E(Du.fn((i,))), sum((v * u(j) for j, v in want.items()), X.ZERO), where, "matrix vector products use the assembled values")
        with c.part("flux-gradient", S, where, raises=True):
            for problem in ("advection", "burgers"):
                f = (lambda v: v) if problem == "advection" else (lambda v: v * v / 2)
                for exact in (True, False):
                    if exact and p > 2 and problem == "burgers":
                        continue
                    S.run("f = fe.build_flux_gradient(%r, space, %r)\nf(W.copy())" % (problem, exact))
                    V = S.A(S.run("f(U.copy())"))
                    for cell, r in sp.dofs:
                        i = sp.index(cell, r)
                        want = X.ZERO
                        for e, k in sp.elements(cell, r):
                            for a in range(p + 1):
                                if problem == "burgers" and exact:
                                    for b in range(p + 1):
                                        want = want + u(sp.index(e, a)) * u(sp.index(e, b)) * num(L.triple[a][b][k]) / 2
                                else:
                                    want = want + f(u(sp.index(e, a))) * num(L.grad[a][k])
                        c.equal("%s-%s[%s,%d]" % (problem, "exact" if exact else "approximated", cell, r), S.I.E(V.fn((i,))), want, where,
                                "flux gradients are the integrals of the flux times derivatives of the basis")
        with c.part("products", S, where, raises=True):
            S.run('''
from finite_element.discrete_l2_product import BasisL2Product, BasisGradientL2Product
from finite_element.space import QuadratureFastElement
q = core.LocalElementQuadrature(P + 1)
e = QuadratureFastElement(space, q)
e.set_values()
e.dof_vector = U
a = BasisL2Product(e, space, P + 1)()
b = BasisGradientL2Product(e, space, P + 1)()
''')
            A, B = S.A(S.run("a")), S.A(S.run("b"))
            for cell, r in sp.dofs:
                i = sp.index(cell, r)
                wa = wb = X.ZERO
                for e, k in sp.elements(cell, r):
                    for a in range(p + 1):
                        wa = wa + u(sp.index(e, a)) * num(L.mass[a][k]) * dx
                        wb = wb + u(sp.index(e, a)) * num(L.grad[a][k])
                c.equal("product[%s,%d]" % (cell, r), S.I.E(A.fn((i,))), wa, where, "L2 products with the basis")
                c.equal("gradient-product[%s,%d]" % (cell, r), S.I.E(B.fn((i,))), wb, where, "L2 products with the derivatives of the basis")
        c.absorb(S)
    return run


def elements(p):
    def run(c):
        S = fe.make(c.model, "advection", p)
        sp, L = Space(S), Local(p)
        where = "finite elements of degree %d" % p
        dx, t = fe.DX, sym("t", "real")
        u = lambda j: sym(("u", num(j)), "real")
        S.bind(U=S.vec(sp.n, "u"), TT=t)
        with c.part("basis", S, where, raises=True):
            S.run("basis = fe.LocalLagrangeBasis(P)")
            c.fact("size", S.run("len(basis)") == p + 1, where, "one basis function per node")
            for i in range(p + 1):
                v = S.run("basis[II](TT)", II=i)
                c.equal("basis[%d]" % i, S.I.E(v), value(L.basis[i], t), where, "basis functions are the Lagrange polynomials")
                v = S.run("basis[II].derivative(TT)")
                c.equal("basis-derivative[%d]" % i, S.I.E(v), value(L.deriv[i], t), where, "derivatives of the Lagrange polynomials")
                c.equal("at-node[%d]" % i, S.I.E(S.run("basis.get_element_at_node(basis.nodes[II])(TT)")), value(L.basis[i], t), where, "a basis function is found by its node")
        with c.part("element", S, where, raises=True):
            S.run("v = space.element(U)")
            for cell in sp.cells:
                S.bind(CC=cell)
                dof = [u(sp.index(cell, r)) for r in range(p + 1)]
                want = sum((d * value(b, t) for d, b in zip(dof, L.basis)), X.ZERO)
                dwant = sum((d * value(b, t) for d, b in zip(dof, L.deriv)), X.ZERO) / dx
                c.equal("value[%s]" % cell, S.I.E(S.run("v(CC, space.mesh[CC].a + TT * DX)")), want, where, "finite elements are the polynomials of their degrees of freedom on every cell")
                c.equal("derivative[%s]" % cell, S.I.E(S.run("v.derivative(CC, space.mesh[CC].a + TT * DX)")), dwant, where, "derivatives of finite elements")
                S.run('''
f = fe.FastFiniteElement(space)
f.set_values(0.25, TT)
f.set_derivatives(0.25, TT)
f.dof_vector = U
h = fe.AnchorNodesFastFiniteElement(space)
h.set_values()
h.set_derivatives()
h.dof_vector = U
''')
                c.equal("fast[%s]" % cell, S.I.E(S.run("f(CC, 1)")), want, where, "fast evaluation agrees with the finite element")
                c.equal("fast-derivative[%s]" % cell, S.I.E(S.run("f.derivative(CC, 1)")), dwant, where, "fast derivatives agree with the finite element")
                for r in range(p + 1):
                    c.equal("anchor[%s,%d]" % (cell, r), S.I.E(S.run("h(CC, RR)", RR=r)), dof[r], where, "values at the nodes are the degrees of freedom")
                    c.equal("anchor-derivative[%s,%d]" % (cell, r), S.I.E(S.run("h.derivative(CC, RR)", RR=r)), X.canon(X.subst(dwant, {t: num(F(r, p))})), where, "derivatives at the nodes")
        c.absorb(S)
    return run


def exact_flux(p):
    """Exact flux gradients for any quadrature rule: the entries are weighted sums of
    the integrand over the nodes, whose number suffices for its degree."""
    def run(c):
        S = fe.make(c.model, "burgers", p)
        sp, L = Space(S), Local(p)
        where = "exact flux gradient of degree %d" % p
        u = lambda j: sym(("u", num(j)), "real")
        sizes = []

        def eig(I, a, k):
            n = NP.simp_int(S.A(a[0]).shape[0])
            if not isinstance(n, int):
                raise ValueError("size of the rule")
            sizes.append(n)
            return (NP.new_arr(I, (n,), lambda i: num(F(2 * i[0] + 1, n) - 1) if isinstance(i[0], int) else X.unk("eig")),
                    NP.new_arr(I, (n, n), lambda i: sym(("v", n, i[0], i[1]), "real") if isinstance(i[0], int) and isinstance(i[1], int) else X.unk("eig")))

        S.I.ext_models["numpy.linalg.eig"] = S.I.ext_models["numpy.linalg.eigh"] = eig
        S.bind(U=S.vec(sp.n, "u"))
        with c.part("exact", S, where, raises=True):
            S.run("f = fe.build_flux_gradient('burgers', space, True)")
            V = S.A(S.run("f(U.copy())"))
            e = NP.simp(S.I.E(V.fn((sp.index(*sp.dofs[0]),))))
            used = [m for m in set(sizes) if any(X.depends(e, sym(("v", m, 0, i), "real")) for i in range(m))]
            n = used[0] if len(used) == 1 else None
            if n is None:
                c.unknown("rule", where, "quadrature rule of the flux gradient", "no single rule: %s of %s" % (used, sizes))
            else:
                c.fact("degree", 2 * n - 1 >= 3 * p - 1, where, "enough nodes for the degree of the integrand", "%d nodes for degree %d" % (n, 3 * p - 1))
                for cell, r in sp.dofs:
                    want = X.ZERO
                    for e, k in sp.elements(cell, r):
                        for i in range(n):
                            t = F(2 * i + 1, 2 * n)
                            v = sum((u(sp.index(e, a)) * num(value(L.basis[a], t)) for a in range(p + 1)), X.ZERO)
                            want = want + sym(("v", n, 0, i), "real") ** 2 * (v * v / 2) * num(value(deriv(L.basis[k]), t))
                    c.equal("flux[%s,%d]" % (cell, r), S.I.E(V.fn((sp.index(cell, r),))), want, where, "flux gradients are weighted sums of the flux times derivatives of the basis")
        c.absorb(S)
    return run


def rules(p):
    """Mass and gradient matrices of higher degrees: the number of nodes of their rules suffices."""
    def run(c):
        S = fe.make(c.model, "advection", p)
        sizes = []

        def eig(I, a, k):
            n = NP.simp_int(S.A(a[0]).shape[0])
            if not isinstance(n, int):
                raise ValueError("size of the rule")
            sizes.append(n)
            return (NP.new_arr(I, (n,), lambda i: num(F(2 * i[0] + 1, n) - 1) if isinstance(i[0], int) else X.unk("eig")),
                    NP.new_arr(I, (n, n), lambda i: sym(("v", n, i[0], i[1]), "real") if isinstance(i[0], int) and isinstance(i[1], int) else X.unk("eig")))

        S.I.ext_models["numpy.linalg.eig"] = S.I.ext_models["numpy.linalg.eigh"] = eig
        for name, src, deg in (("mass", "finite_element.mass.MassEntryCalculator(space)", 2 * p), ("gradient", "finite_element.discrete_gradient.DiscreteGradientEntryCalculator(space)", 2 * p - 1)):
            where = "%s matrix of degree %d" % (name, p)
            with c.part(name, S, where):
                del sizes[:]
                S.run("import finite_element.mass, finite_element.discrete_gradient\ncalc = " + src)
                for ij in ((0, p), (p, 0), (0, 0), (1, p)):
                    e = NP.simp(S.I.E(S.run("calc(0, I0, I1)", I0=ij[0], I1=ij[1])))
                    used = [m for m in set(sizes) if any(X.depends(e, sym(("v", m, 0, i), "real")) for i in range(m))]
                    if len(used) == 1:
                        c.fact("%s/degree%s" % (name, list(ij)), 2 * used[0] - 1 >= deg, where, "enough nodes for the degree of the integrand", "%d nodes for degree %d" % (used[0], deg))
                        L = Local(p)
                        n = used[0]
                        want = X.ZERO
                        for i in range(n):
                            t = F(2 * i + 1, 2 * n)
                            a, b = L.basis[ij[0]], L.basis[ij[1]]
                            want = want + sym(("v", n, 0, i), "real") ** 2 * num(value(a, t) * (value(b, t) if name == "mass" else value(deriv(b), t))) * (fe.DX if name == "mass" else 1)
                        c.equal("%s/entry%s" % (name, list(ij)), e, want, where, "entries are weighted sums of the products of basis functions")
                    else:
                        c.unknown("%s/rule%s" % (name, list(ij)), where, "quadrature rule of the matrix", "no single rule: %s of %s" % (used, sizes))
        c.absorb(S)
    return run


def schemes(problem, p):
    """Semi-discretisations as documented."""
    def run(c):
        S = fe.make(c.model, problem, p)
        sp, L = Space(S), Local(p)
        dx = fe.DX
        u = lambda j: sym(("u", num(j)), "real")
        f = (lambda v: v) if problem == "advection" else (lambda v: v * v / 2)
        S.bind(U=S.vec(sp.n, "u"), TA=sym("ta", "pos"))
        mass = lambda cell, r: {j: v * dx for j, v in sp.row(cell, r, lambda a, b: L.mass[a][b]).items()}

        def flux(cell, r, exact):
            t = X.ZERO
            for e, k in sp.elements(cell, r):
                for a in range(p + 1):
                    if problem == "burgers" and exact:
                        for b in range(p + 1):
                            t = t + u(sp.index(e, a)) * u(sp.index(e, b)) * num(L.triple[a][b][k]) / 2
                    else:
                        t = t + f(u(sp.index(e, a))) * num(L.grad[a][k])
            return t

        def diffusion(cell, r):
            i, t = sp.index(cell, r), X.ZERO
            for j, v in sp.row(cell, r, lambda a, b: L.grad[a][b]).items():
                if j is not i:
                    d = X.fn("abs", v) * (num(1) if problem == "advection" else X.fn("max", X.fn("abs", u(i)), X.fn("abs", u(j))))
                    t = t + d * (u(j) - u(i))
            return t

        for exact in (False, True):
            if exact and p > 2:
                continue
            where = "solver 'cg'"
            with c.part("cg", S, where):
                A = S.A(S.run("sol.SOLVER_PARSER['cg'].solver(bench, mesh_size=N, polynomial_degree=P, exact_flux=%r).as_dict()['right_hand_side'](TA, U.copy())" % exact))
                for cell, r in sp.dofs:
                    i = sp.index(cell, r)
                    e = NP.simp(S.I.E(A.fn((i,))))
                    key = "cg-%s[%s,%d" % ("exact" if exact else "approximated", cell, r)
                    if e.op != "app" or e.args[0] != "solve":
                        c.unknown(key + "]", where, "solution of the mass system", str(e)[:80])
                        continue
                    m, b = NP.solve_of(int(X.const(e.args[1])))
                    c.fact(key + "]/index", NP.simp(e.args[2]) is NP.simp(i), where, "entry of the solution")
                    c.equal(key + "]/load", S.I.E(b.fn((i,))), flux(cell, r, exact), where, "load of the continuous Galerkin method is the flux gradient")
                    compare_row(c, S, key + "]/mass[", line(S, m, i), mass(cell, r), where, "system of the continuous Galerkin method is the mass matrix")
        where = "solver 'cg-low'"
        with c.part("cg-low", S, where):
            A = S.A(S.run("sol.SOLVER_PARSER['cg-low'].solver(bench, mesh_size=N, polynomial_degree=P).as_dict()['right_hand_side'](TA, U.copy())"))
            for cell, r in sp.dofs:
                want = (flux(cell, r, False) + diffusion(cell, r)) / sum(mass(cell, r).values(), X.ZERO)
                c.equal("cg-low[%s,%d]" % (cell, r), S.I.E(A.fn((sp.index(cell, r),))), want, where, "low order scheme: flux gradient and artificial diffusion over lumped mass")
        where = "solver 'mcl-fem'"
        with c.part("mcl", S, where):
            A = S.A(S.run("sol.SOLVER_PARSER['mcl-fem'].solver(bench, mesh_size=N, polynomial_degree=P).as_dict()['right_hand_side'](TA, U.copy())"))
            low = {}

            def dudt(cell, r):
                k = (NP.simp(num(cell)), r)
                if k not in low:
                    low[k] = (flux(cell, r, False) + diffusion(cell, r)) / sum(mass(cell, r).values(), X.ZERO)
                return low[k]

            def bounds(cell, r):
                js = sorted({sp.index(e, j) for e, _ in sp.elements(cell, r) for j in range(p + 1)}, key=lambda x: x.id)
                return X.fn("max", *[u(j) for j in js]), X.fn("min", *[u(j) for j in js])

            def norm(cell, r):
                """The (cell, local index) owning a degree of freedom."""
                if r == p:
                    n = NP.simp(num(cell) + 1)
                    return (num(0) if NP.dim_eq(n, sp.N) else n), 0
                if X.idx_decide("<", num(cell), X.ZERO):
                    return NP.simp(num(cell) + sp.N), r
                return cell, r

            def total(cell, r):
                t = X.ZERO
                for e, k in sp.elements(cell, r):
                    if X.idx_decide("<", num(e), X.ZERO):
                        e = NP.simp(num(e) + sp.N)
                    for k2 in range(p + 1):
                        if k2 == k:
                            continue
                        a, b = norm(e, min(k, k2)), norm(e, max(k, k2))
                        one, two = min(k, k2), max(k, k2)
                        i, j = sp.index(*a), sp.index(*b)
                        mij, cij = num(L.mass[one][two]) * dx, num(L.grad[one][two])
                        d = X.fn("abs", cij) * (num(1) if problem == "advection" else X.fn("max", X.fn("abs", u(i)), X.fn("abs", u(j))))
                        target = mij * (dudt(*a) - dudt(*b)) + d * (u(i) - u(j))
                        w = d * (u(i) + u(j)) + (f(u(i)) - f(u(j))) * cij
                        (xi, ni), (xj, nj) = bounds(*a), bounds(*b)
                        hi = X.fn("min", 2 * d * xi - w, w - 2 * d * nj)
                        lo = X.fn("max", 2 * d * ni - w, w - 2 * d * xj)
                        star = X.fn("max", lo, X.fn("min", hi, target))
                        t = t + (star if k < k2 else -star)
                return t

            for cell, r in sp.dofs:
                want = dudt(cell, r) + total(cell, r) / sum(mass(cell, r).values(), X.ZERO)
                c.equal("mcl[%s,%d]" % (cell, r), S.I.E(A.fn((sp.index(cell, r),))), want, where, "limited antidiffusive fluxes are added to the low order scheme")
        c.absorb(S)
    return run


def scenarios(tier):
    out = []
    for p in (1, 2, 3, 4):
        out.append(("operators/%d" % p, operators(p)))
        out.append(("elements/%d" % p, elements(p)))
    for p in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(("exact-flux/%d" % p, exact_flux(p)))
    for p in range(1, 9):
        out.append(("rules/%d" % p, rules(p)))
    for p in (1, 2, 3):
        for n in (2, 3, 4):
            out.append(("small/%d/%d" % (p, n), operators(p, n)))
    for p in (1, 2):
        for problem in ("advection", "burgers"):
            out.append(("schemes/%s/%d" % (problem, p), schemes(problem, p)))
    return out
