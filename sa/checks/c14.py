"""Meshes: tiling, refinement, coarsening, averages on coarse meshes."""
from fractions import Fraction as F

from .. import fe, fv
from .. import expr as X
from .. import npmodel as NP
from ..expr import num, sym
from ..scen import Sc

ID = "C14"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: cells, nodes and coarse averages of meshes of arbitrary size on arbitrary domains are derived from the source and compared with the prescribed "
    "positions and means as algebraic normal forms; rejected sizes are decided for concrete remainders.")
ASSUMPTIONS = ["real arithmetic"]
A0, DX = sym("a0", "pos"), fv.DX


def base(c, n=None):
    S = fv.base(c.model)
    S.bind(M=S.N if n is None else n)
    S.run("import numpy as np\nimport core, finite_volume, finite_element")
    return S


def tiling(n):
    def run(c):
        S = base(c, n)
        N = S.N if n is None else n
        where = "core/mesh.py:UniformMesh"
        with c.part("mesh", S, where, raises=True):
            S.run("m = core.UniformMesh(core.Interval(LA, LA + M*DX), M)")
            c.fact("size", NP.dim_eq(S.run("len(m)"), N), where, "as many cells as asked for")
            c.equal("step", S.I.E(S.run("m.step_length")), DX, where, "the step length is the domain length over the number of cells")
            steps = S.A(S.run("m.space_steps"))
            c.fact("steps", NP.dim_eq(steps.shape[0], N), where, "one step per cell")
            space = S.A(S.run("finite_volume.FiniteVolumeSpace(m).cell_centers"))
            c.fact("centers", NP.dim_eq(space.shape[0], N), where, "one centre per cell")
            c.fact("dimension", NP.dim_eq(S.run("finite_volume.FiniteVolumeSpace(m).dimension"), N), where, "one degree of freedom per cell")
            pos = [num(0), S.generic(S.N, "k"), NP.simp(S.N - 1)] if n is None else [num(i) for i in range(n)]
            for k in pos:
                S.bind(K=k)
                for key, src, want in (("a", "m[K].a", k * DX), ("b", "m[K].b", (k + 1) * DX), ("center", "m[K].center", (k + num(F(1, 2))) * DX)):
                    c.equal("%s[%s]" % (key, k), S.I.E(S.run(src)), A0 + want, where, "cells tile the domain evenly")
                c.equal("length[%s]" % k, S.I.E(S.run("m[K].length")), DX, where, "cells tile the domain evenly")
                c.equal("space-step[%s]" % k, S.I.E(steps.fn((k,))), DX, where, "cells tile the domain evenly")
                c.equal("cell-center[%s]" % k, S.I.E(space.fn((k,))), A0 + (k + num(F(1, 2))) * DX, where, "cell centres")
                c.equal("affine[%s]" % k, S.I.E(S.run("core.AffineTransformation()(TT, m[K])", TT=sym("t", "real"))), A0 + (k + sym("t", "real")) * DX, where, "the affine map sends [0, 1] to the cell")
                c.equal("affine-inverse[%s]" % k, S.I.E(S.run("core.AffineTransformation().inverse(m[K].a + TT * DX, m[K])")), sym("t", "real"), where, "the inverse affine map")
                c.equal("affine-derivative[%s]" % k, S.I.E(S.run("core.AffineTransformation().derivative(m[K])")), DX, where, "derivative of the affine map")
                c.equal("affine-inverse-derivative[%s]" % k, S.I.E(S.run("core.AffineTransformation().inverse_derivative(m[K])")), 1 / DX, where, "derivative of the inverse affine map")
                e = S.run("finite_volume.FiniteVolumeSpace(m).element(U)(K, LA)", U=S.vec(N, "u"))
                c.equal("element[%s]" % k, S.I.E(e), sym(("u", k), "real"), where, "finite volume elements are constant on every cell")
            for d in (2, 3, 4):
                S.run("r = m.refine(%d)" % d)
                c.fact("refined-%d" % d, NP.dim_eq(S.run("len(r)"), N * d), where, "refinement multiplies the number of cells")
                c.equal("refined-%d/step" % d, S.I.E(S.run("r.step_length")), DX / d, where, "refinement divides the step length")
                for key, src in (("mesh", "r.coarsen(%d) == m"), ("space", "finite_volume.FiniteVolumeSpace(m).refine(%d).mesh == r and finite_volume.FiniteVolumeSpace(r).coarsen(%d).mesh == m"),
                                 ("fe", "finite_element.LagrangeSpace(m, 1).refine(%d).mesh == r and finite_element.LagrangeSpace(r, 1).coarsen(%d).mesh == m")):
                    if key == "fe" and n is None and d > 2:
                        continue
                    v = S.I.truth(S.run(src % ((d,) * src.count("%d"))))
                    c.fact("refined-%d/%s" % (d, key), v if isinstance(v, bool) else None, where, "coarsening undoes refinement", str(v))
                for key, src, want in (("fe-degree", "finite_element.LagrangeSpace(m, 2).refine(2).polynomial_degree", 2), ("fe-degree-4", "finite_element.LagrangeSpace(m, 4).refine(2).polynomial_degree", 4),
                                       ("fe-coarse-degree", "finite_element.LagrangeSpace(r, 2).coarsen(%d).polynomial_degree" % d, 2), ("fe-coarse-degree-4", "finite_element.LagrangeSpace(r, 4).coarsen(%d).polynomial_degree" % d, 4)):
                    if n is None and key != "fe-degree":
                        continue
                    c.fact("refined-%d/%s" % (d, key), S.run(src) == want, where, "refinement and coarsening keep the polynomial degree")
        c.absorb(S)
    return run


def intervals(c):
    S = base(c)
    where = "core/mesh.py:Interval"
    b = A0 + sym("len", "pos")
    S.bind(A=A0, B=b)
    with c.part("interval", S, where, raises=True):
        S.run("i = core.Interval(A, B)")
        c.equal("length", S.I.E(S.run("i.length")), sym("len", "pos"), where, "length of an interval")
        c.equal("center", S.I.E(S.run("i.center")), A0 + sym("len", "pos") / 2, where, "centre of an interval")
        for key, src, want in (("contains-a", "A in i", True), ("contains-b", "B in i", True), ("contains-center", "i.center in i", True), ("contains-right", "B + 1 in i", False), ("contains-left", "A - 1 in i", False),
                               ("inner-a", "i.is_in_inner(A)", False), ("inner-b", "i.is_in_inner(B)", False), ("inner-center", "i.is_in_inner(i.center)", True), ("inner-out", "i.is_in_inner(B + 1)", False),
                               ("boundary-a", "i.is_in_boundary(A)", True), ("boundary-b", "i.is_in_boundary(B)", True), ("boundary-center", "i.is_in_boundary(i.center)", False),
                               ("equal", "i == core.Interval(A, B)", True), ("unequal-a", "i == core.Interval(A - 1, B)", False), ("unequal-b", "i == core.Interval(A, B + 1)", False),
                               ("mesh-equal", "core.UniformMesh(i, 4) == core.UniformMesh(core.Interval(A, B), 4)", True), ("mesh-unequal", "core.UniformMesh(i, 4) == core.UniformMesh(i, 5)", False),
                               ("mesh-domain", "core.UniformMesh(i, 4) == core.UniformMesh(core.Interval(A + 1, B + 1), 4)", False)):
            v = S.I.truth(S.run(src))
            c.fact(key, (v == want) if isinstance(v, bool) else None, where, "%s is %s" % (src, want), str(v))
        for n in (3, 4):
            S.run("m = core.UniformMesh(i, %d)" % n)
            for k in range(n):
                v = S.run("list(m.find_cell_indices(m[%d].center))" % k)
                got = S.items(v)
                c.fact("find-center[%d,%d]" % (n, k), [X.const(S.I.E(x)) for x in got] == [k], where, "a point inside of a cell belongs to this cell only", str(got))
                if k:
                    got = S.items(S.run("list(m.find_cell_indices(m[%d].a))" % k))
                    c.fact("find-node[%d,%d]" % (n, k), [X.const(S.I.E(x)) for x in got] == [k - 1, k], where, "an inner node belongs to both cells", str(got))
                c.fact("index[%d,%d]" % (n, k), S.run("m.index(m[%d])" % k) == k, where, "cells are found")
    for key, src in (("empty", "core.Interval(A, A)"), ("reversed", "core.Interval(B, A)")):
        with c.part(key, S, where):
            c.fact(key, rejected(S, src), where, "empty intervals are rejected")
    c.absorb(S)


def rejected(S, src):
    got = S.run('''
try:
    %s
    r = "none"
except (ValueError, AssertionError):
    r = "rejected"
except Exception:
    r = "other"
r
''' % src)
    return got == "rejected" if isinstance(got, str) else None


DEGREES = (1, 2, 3, 4, 5, 8)


def coarsening(c):
    S = base(c)
    where = "core/vector_coarsener.py"
    g = S.generic(S.N, "k")
    for d in DEGREES:
        n = NP.simp(S.N * d)
        key = "degree-%d" % d
        with c.part(key, S, where, raises=True):
            S.bind(D=d, U=S.vec(n, "u"), V=S.swe(n, "uh", "uq", "real"))
            S.run("c = core.VectorCoarsener(D)\na = c(U)\nb = c(V)")
            A, B = S.A(S.run("a")), S.A(S.run("b"))
            c.fact(key + "/length", NP.dim_eq(A.shape[0], S.N), where, "one value per coarse cell", str(A.shape))
            c.fact(key + "/shape", NP.dim_eq(B.shape[0], S.N) is True and B.shape[1] == 2, where, "one state per coarse cell", str(B.shape))
            for k in (num(0), num(1), g, NP.simp(S.N - 1)):
                mean = lambda nm: sum((sym((nm, NP.simp(k * d + j)), "real") for j in range(d)), X.ZERO) / d
                c.equal("%s/mean[%s]" % (key, k), S.I.E(A.fn((k,))), mean("u"), where, "coarse values are the means of the fine values")
                for q, nm in enumerate(("uh", "uq")):
                    c.equal("%s/mean[%s,%d]" % (key, k, q), S.I.E(B.fn((k, q))), mean(nm), where, "coarse values are the means of the fine values")
                got = S.items(S.run("core.FineGridIndicesMapping(MS, D)(K)", MS=n, K=k))
                c.fact("%s/fine[%s]" % (key, k), len(got) == d and all(NP.dim_eq(S.I.E(x), NP.simp(k * d + j)) for j, x in enumerate(got)), where, "fine cells of a coarse cell", str(got))
            U = S.A(S.run("U"))
            for k in (num(0), NP.simp(g * d), NP.simp(n - 1)):
                c.equal("%s/kept[%s]" % (key, k), S.I.E(U.fn((k,))), sym(("u", k), "real"), where, "the fine values are not modified")
            if d > 1:
                S.run("x = core.VectorCoarsener(2)(core.VectorCoarsener(D)(W))\ny = core.VectorCoarsener(2 * D)(W)", W=S.vec(NP.simp(S.N * 2 * d), "w"))
                c.equal(key + "/composed", S.I.E(S.A(S.run("x")).fn((g,))), S.I.E(S.A(S.run("y")).fn((g,))), where, "coarsening twice is coarsening by the product")
        for r in range(1, d):
            n = NP.simp(S.N * d + r)
            for what, src in (("vector", "core.VectorCoarsener(D)(Q)"), ("indices", "core.FineGridIndicesMapping(MS, D)"), ("mesh", "core.UniformMesh(core.Interval(LA, LA + 1), MS).coarsen(D)")):
                with c.part("%s/%s-%d" % (key, what, r), S, where):
                    S.bind(D=d, MS=n, Q=S.vec(n, "u"))
                    c.fact("%s/%s-%d" % (key, what, r), rejected(S, src), where, "sizes that are not divisible by the degree are rejected")
    c.absorb(S)


def coarse_histories(c):
    """Coarse solutions and their histories hold the means of the fine values."""
    S = base(c)
    where = "core/discrete_solution.py:CoarseSolution"
    g = S.generic(S.N, "k")
    for d in (2, 3):
        n = NP.simp(S.N * d)
        for cls in ("CoarseSolution", "CoarseSolutionWithHistory"):
            key = "%s-%d" % (cls, d)
            with c.part(key, S, where, raises=True):
                S.bind(D=d, MS=n, U=S.swe(n, "uh", "uq", "real"), V=S.swe(n, "vh", "vq", "real"), W=S.swe(n, "wh", "wq", "real"), DT=sym("dt", "pos"))
                S.run('''
space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(LA, LA + MS*DX), MS))
s = core.%s(core.DiscreteSolution(U, 0.0, space=space), D)
v0 = s.value
s.update(DT, V)
v1 = s.value
s.update(DT, W)
v2 = s.value
''' % cls)
                got = [S.A(S.run("v%d" % i)) for i in range(3)]
                if "History" in cls:
                    h = S.A(S.run("s.value_history"))
                    c.fact(key + "/history", NP.dim_eq(h.shape[0], 3) and NP.dim_eq(h.shape[1], S.N), where, "one coarse value per recorded step", str(h.shape))
                dt = sym("dt", "pos")
                c.equal(key + "/time", S.I.E(S.run("s.time")), 2 * dt, where, "a coarse solution's time is that of the fine one")
                if "History" in cls:
                    ht = S.A(S.run("s.time_history"))
                    for i in range(3):
                        c.equal("%s/times-%d" % (key, i), S.I.E(ht.fn((i,))), i * dt, where, "coarse histories record the times of their values")
                else:
                    TM = sym("tset", "real")
                    S.bind(TM=TM, Z=S.swe(n, "zh", "zq", "real"))
                    S.run("s.set_value(Z, time=TM)")
                    c.equal(key + "/set/time", S.I.E(S.run("s.time")), TM, where, "a coarse solution takes the time given along with its value")
                    z = S.A(S.run("s.value"))
                    for k in (num(0), g):
                        for q in range(2):
                            c.equal("%s/set/value[%s,%d]" % (key, k, q), S.I.E(z.fn((k, q))), sum((sym(("z" + "hq"[q], NP.simp(k * d + j)), "real") for j in range(d)), X.ZERO) / d, where, "coarse values are the means of the values set")
                for k in (num(0), g, NP.simp(S.N - 1)):
                    for q in range(2):
                        for i, nm in enumerate("uvw"):
                            mean = sum((sym((nm + "hq"[q], NP.simp(k * d + j)), "real") for j in range(d)), X.ZERO) / d
                            c.equal("%s/value-%d[%s,%d]" % (key, i, k, q), S.I.E(got[i].fn((k, q))), mean, where, "coarse values are the means of the fine values")
                            if "History" in cls:
                                c.equal("%s/entry-%d[%s,%d]" % (key, i, k, q), S.I.E(h.fn((i, k, q))), mean, where, "coarse histories hold the means of the fine values")
    c.absorb(S)


def coarse_solver(bath):
    """The coarse solver averages the fine solution and its benchmark data."""
    def run(c):
        S = fv.swe(c.model, "periodic", bath)
        where = "finite_volume/shallow_water/solver/coarse.py"
        for d in (2, 3):
            n = NP.simp(S.N * d)
            with c.part("degree-%d" % d, S, where):
                S.bind(MS=n, D=d, TA=sym("ta", "pos"), DT=sym("dt", "pos"), U=S.swe(n, "uh", "uq"))
                S.run('''
s = sol.SOLVER_PARSER["coarse"].solver(bench, mesh_size=MS, coarsening_degree=D)
before = s.solution.value
fine = sol.SOLVER_PARSER["llf"].solver(bench, mesh_size=MS)
''')
                B, Fi = S.A(S.run("before")), S.A(S.run("fine.solution.value"))
                size = S.run("s.solution.space.dimension")
                c.fact("degree-%d/size" % d, NP.dim_eq(B.shape[0], S.N), where, "the coarse solution lives on the coarse mesh", str(B.shape))
                c.fact("degree-%d/space" % d, NP.dim_eq(size, S.N), where, "the coarse solution lives on the coarse mesh", str(size))
                g = S.generic(S.N, "k")
                for k in (num(0), g, NP.simp(S.N - 1)):
                    for q in range(2):
                        mean = sum((S.I.E(Fi.fn((NP.simp(k * d + j), q))) for j in range(d)), X.ZERO) / d
                        c.equal("degree-%d/initial[%s,%d]" % (d, k, q), S.I.E(B.fn((k, q))), mean, where, "initial coarse values are averages of the fine initial values")
                S.run("s.solution.update(DT, U.copy())\nafter = s.solution.value")
                Af = S.A(S.run("after"))
                for k in (num(0), g, NP.simp(S.N - 1)):
                    for q, nm in enumerate(("uh", "uq")):
                        mean = sum((sym((nm, NP.simp(k * d + j)), "pos" if q == 0 else "real") for j in range(d)), X.ZERO) / d
                        c.equal("degree-%d/updated[%s,%d]" % (d, k, q), S.I.E(Af.fn((k, q))), mean, where, "coarse values are averages of the updated fine values")
        c.absorb(S)
    return run


def scenarios(tier):
    out = [("tiling/generic", tiling(None))] + [("tiling/%d" % n, tiling(n)) for n in (2, 3, 5)]
    return out + [("intervals", intervals), ("coarsening", coarsening), ("coarse-histories", coarse_histories), ("coarse-solver", coarse_solver("zero"))]
