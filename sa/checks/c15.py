"""Quadrature, interpolation and norms."""
from fractions import Fraction as F

from .. import fv
from .. import expr as X
from .. import npmodel as NP
from ..expr import num, sym
from ..values import NFunc, Unk

ID = "C15"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: nodes and weights of the quadrature rules are derived as closed algebraic terms (the eigenvalue problem is solved symbolically for up to five nodes, "
    "opaque beyond) and the moments up to degree 2n-1 compared with the exact integrals; averages, nodal values, norms and interpolated arrays are compared entry by entry as normal forms.")
ASSUMPTIONS = ["real arithmetic", "numpy.linalg.eig returns eigenvalues and normalized eigenvectors", "numpy.interp interpolates piecewise linearly"]
DX, A0 = fv.DX, sym("a0", "real")
Q = "core/quadrature.py:"


def base(c):
    S = fv.base(c.model)
    S.run("import numpy as np\nimport core, finite_volume")
    S.bind(A=A0, L=sym("len", "pos"), LA=A0, DX=DX, M=S.N)
    return S


def moments(cls, n):
    def run(c):
        S = base(c)
        where = Q + (cls if cls[0].isupper() else "GaussianQuadrature")
        with c.part("rule", S, where, raises=True):
            build = {"SpecificGaussianQuadrature": "core.quadrature.SpecificGaussianQuadrature(%d)" % n, "GaussianQuadrature": "core.GaussianQuadrature(%d, core.Interval(A, A + L))" % n,
                     "shifted": "core.GaussianQuadrature(%d, core.Interval(3, 5))" % n, "left": "core.GaussianQuadrature(%d, core.Interval(-1, 3))" % n,
                     "right": "core.GaussianQuadrature(%d, core.Interval(-3, 1))" % n, "unit": "core.GaussianQuadrature(%d, core.Interval(0, 1))" % n,
                     "reference": "core.GaussianQuadrature(%d, core.Interval(-1, 1))" % n, "LocalElementQuadrature": "core.LocalElementQuadrature(%d)" % n}[cls]
            S.run("quad = " + build)
            a, b = {"GaussianQuadrature": (A0, A0 + sym("len", "pos")), "LocalElementQuadrature": (num(0), num(1)), "shifted": (num(3), num(5)), "left": (num(-1), num(3)),
                    "right": (num(-3), num(1)), "unit": (num(0), num(1))}.get(cls, (num(-1), num(1)))
            nodes = [S.I.E(x) for x in S.items(S.run("list(quad.nodes)"))]
            weights = S.A(S.run("quad.weights"))
            c.fact("nodes", len(nodes) == n, where, "an n-point rule has n nodes")
            c.fact("weights", NP.dim_eq(weights.shape[0], n), where, "an n-point rule has n weights")
            c.fact("degree", NP.dim_eq(S.run("quad.degree"), n), where, "the degree is the number of nodes")
            c.equal("domain/a", S.I.E(S.run("quad.domain.a")), a, where, "the domain of the rule")
            c.equal("domain/b", S.I.E(S.run("quad.domain.b")), b, where, "the domain of the rule")
            ws = [S.I.E(weights.fn((i,))) for i in range(n)]
            for k in range(2 * n):
                want = (b ** (k + 1) - a ** (k + 1)) / (k + 1)
                total = sum((w * x ** k for w, x in zip(ws, nodes)), num(0))
                c.equal("moment-%d" % k, total, want, where, "an n-point Gauss rule integrates polynomials of degree up to 2n-1 exactly")
            S.bind(P=S.native("p", lambda I, a_, k_: poly(I.E(a_[0]), 2 * n)))
            want = sum((coef(k) * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k in range(2 * n)), num(0))
            c.equal("integrate", S.I.E(S.run("quad.integrate(P)")), want, where + ".integrate", "polynomials of degree up to 2n-1 are integrated exactly")
            for i in range(n):
                if i:
                    c.nonneg("sorted-%d" % i, nodes[i] - nodes[i - 1], where, "nodes are sorted") if n < 4 else None
        c.absorb(S)
    return run


def coef(k):
    return sym("c%d" % k, "real")


def poly(x, n):
    return sum((coef(k) * x ** k for k in range(n)), num(0))


def golub_welsch(n):
    """The eigenvalue problem behind the rule, its solution being opaque."""

    def run(c):
        S = base(c)
        where = Q + "SpecificGaussianQuadrature"
        seen = []
        order = [(3 * i + 1) % n if n % 3 else (2 * i + 1) % (n + 1 if n % 2 else n + 1) % n for i in range(n)]
        order = sorted(set(order), key=order.index) + [i for i in range(n) if i not in order]
        values = [num(F(2 * k + 1, n) - 1) for k in order]

        def eig(I, a, k):
            t = S.A(a[0])
            if tuple(t.shape) != (n, n):
                c.fact("shape", False, where, "one eigenvalue per node")
            seen.append([[I.E(t.fn((i, j))) for j in range(n)] for i in range(n)])
            vec = [[sym("v%d_%d" % (i, order[j]), "real") for j in range(n)] for i in range(n)]
            return (NP.new_arr(I, (n,), lambda i: pick(values, i[0])), NP.new_arr(I, (n, n), lambda i: pick2(vec, i)))

        for k in ("numpy.linalg.eig", "numpy.linalg.eigh"):
            S.I.ext_models[k] = eig
        if True:
            with c.part("rule", S, where, raises=True):
                S.run("quad = core.quadrature.SpecificGaussianQuadrature(%d)" % n)
                if len(seen) != 1:
                    c.unknown("matrix", where, "no single eigenvalue problem")
                else:
                    t = seen[0]
                    for i in range(n):
                        for j in range(n):
                            if abs(i - j) == 1:
                                k = max(i, j)
                                c.equal("entry-%d-%d" % (i, j), t[i][j] ** 2, num(F(k * k, 4 * k * k - 1)), where, "squared recurrence coefficients of the Legendre polynomials")
                                c.nonneg("sign-%d-%d" % (i, j), t[i][j], where, "recurrence coefficients are positive")
                            else:
                                c.equal("entry-%d-%d" % (i, j), t[i][j], num(0), where, "the Jacobi matrix is tridiagonal with zero diagonal")
                    nodes = [S.I.E(x) for x in S.items(S.run("list(quad.nodes)"))]
                    weights = S.A(S.run("quad.weights"))
                    c.fact("nodes", len(nodes) == n, where, "an n-point rule has n nodes")
                    for i in range(min(n, len(nodes))):
                        c.equal("node-%d" % i, nodes[i], num(F(2 * i + 1, n) - 1), where, "nodes are the sorted eigenvalues")
                        c.equal("weight-%d" % i, S.I.E(weights.fn((i,))), 2 * sym("v0_%d" % i, "real") ** 2, where, "weights are twice the squared first components of the eigenvectors of their nodes")
        c.absorb(S)
    return run


def pick(xs, i):
    i = NP.simp_int(i)
    return xs[i] if isinstance(i, int) else X.unk("index")


def pick2(xs, i):
    a, b = NP.simp_int(i[0]), NP.simp_int(i[1])
    return xs[a][b] if isinstance(a, int) and isinstance(b, int) else X.unk("index")


def rejected(c):
    from .c14 import rejected as rej
    S = base(c)
    for key, src in (("zero", "core.quadrature.SpecificGaussianQuadrature(0)"), ("negative", "core.quadrature.SpecificGaussianQuadrature(-1)"),
                     ("zero/interval", "core.GaussianQuadrature(0, core.Interval(A, A + L))"), ("zero/local", "core.LocalElementQuadrature(0)"), ("negative/local", "core.LocalElementQuadrature(-2)")):
        r = rej(S, src)
        if r is None:
            c.unknown(key, Q + "SpecificGaussianQuadrature", "undetermined")
        else:
            c.fact(key, r, Q + "SpecificGaussianQuadrature", "rules without nodes are rejected")
    c.absorb(S)


def averages(n, vector):
    def run(c):
        S = base(c)
        where = "core/interpolate.py:CellAverageInterpolator"
        with c.part("cell-average", S, where, raises=True):
            def value(x, j):
                return X.subst(poly(x, 2 * n), {coef(k): sym("c%d%d" % (j, k), "real") for k in range(2 * n)})

            f = S.native("f", lambda I, a, k: NP.new_arr(I, (vector,), lambda i: value(I.E(a[0]), pick(list(range(vector)), i[0]))) if vector else value(I.E(a[0]), 0))
            S.run("m = core.UniformMesh(core.Interval(LA, LA + M * DX), M)\ninter = core.CellAverageInterpolator(m, %d)" % n)
            out = S.A(S.run("inter.interpolate(f)", f=f))
            want_shape = (S.N, vector) if vector else (S.N,)
            c.fact("shape", len(out.shape) == len(want_shape) and all(NP.dim_eq(p, q) for p, q in zip(out.shape, want_shape)), where, "one average per cell and component")
            for i in (num(0), S.generic(S.N, "i"), NP.simp(S.N - 1)):
                a, b = A0 + i * DX, A0 + (i + 1) * DX
                for j in range(vector or 1):
                    want = sum((sym("c%d%d" % (j, k), "real") * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k in range(2 * n)), num(0)) / DX
                    c.equal("[%s,%d]" % (i, j), S.I.E(out.fn((i, j) if vector else (i,))), want, where, "cell averages of polynomials of degree up to 2n-1 are exact")
        c.absorb(S)
    return run


def nodal(vector):
    def run(c):
        S = base(c)
        where = "core/interpolate.py:NodeValuesInterpolator"
        with c.part("node-values", S, where, raises=True):
            xs = [sym("x%d" % i, "real") for i in range(3)]
            f = S.native("f", lambda I, a, k: NP.new_arr(I, (vector,), lambda i: X.app("f", I.E(a[0]), num(i[0]))) if vector else X.app("f", I.E(a[0])))
            S.bind(x0=xs[0], x1=xs[1], x2=xs[2], f=f)
            out = S.A(S.run("core.NodeValuesInterpolator(x0, x1, x2).interpolate(f)"))
            c.fact("shape", tuple(NP.simp_int(d) for d in out.shape) == ((3, vector) if vector else (3,)), where, "one value per node and component")
            for i in range(3):
                for j in range(vector or 1):
                    c.equal("[%d,%d]" % (i, j), S.I.E(out.fn((i, j) if vector else (i,))), X.app("f", xs[i], num(j)) if vector else X.app("f", xs[i]), where, "nodal values")
        with c.part("unordered", S, where, raises=True):
            ys = [A0 + 2, A0, A0 + 5, A0 + 1]
            S.bind(x0=ys[0], x1=ys[1], x2=ys[2], x3=ys[3])
            out = S.A(S.run("core.NodeValuesInterpolator(x0, x1, x2, x3).interpolate(f)"))
            for i, y in enumerate(ys):
                for j in range(vector or 1):
                    c.equal("unordered[%d,%d]" % (i, j), S.I.E(out.fn((i, j) if vector else (i,))), X.app("f", y, num(j)) if vector else X.app("f", y), where, "nodal values in the order of the nodes")
        with c.part("space", S, "core/space.py", raises=True):
            # the nodes of a generic mesh
            S.run("m = core.UniformMesh(core.Interval(LA, LA + M * DX), M)")
            out = S.A(S.run("core.NodeValuesInterpolator(*finite_volume.FiniteVolumeSpace(m).cell_centers).interpolate(f)"))
            for i in (num(0), S.generic(S.N, "i"), NP.simp(S.N - 1)):
                x = A0 + (i + num(F(1, 2))) * DX
                for j in range(vector or 1):
                    c.equal("center[%s,%d]" % (i, j), S.I.E(out.fn((i, j) if vector else (i,))), X.app("f", x, num(j)) if vector else X.app("f", x), where, "nodal values")
        c.absorb(S)
    return run


def grid(S, name, n):
    """Opaque array of the given length."""
    return S.vec(n, name, "real")


def temporal(vector, same=False):
    def run(c):
        S = base(c)
        where = "core/interpolate.py:TemporalInterpolator"
        with c.part("temporal", S, where, raises=True):
            T, U = sym("T", "len"), sym("T" if same else "U", "len")
            n = 3
            shape = (T, n, vector) if vector else (T, n)
            vals = NP.new_arr(S.I, shape, lambda ix: X.app("u", *[num(i) for i in ix]))
            out = S.A(S.run("core.TemporalInterpolator()(told, vals, tnew)", told=grid(S, "to", T), tnew=grid(S, "tn", U), vals=vals))
            want_shape = (U,) + shape[1:]
            c.fact("shape", len(out.shape) == len(want_shape) and all(NP.dim_eq(p, q) for p, q in zip(out.shape, want_shape)), where, "one snapshot per new time")
            for t in (num(0), S.generic(U, "t"), NP.simp(U - 1)):
                for i in range(n):
                    for j in range(vector or 1):
                        ix = (t, i, j) if vector else (t, i)
                        want = S.run("np.interp(tnew, told, col)", col=NP.new_arr(S.I, (T,), lambda k, ix=ix: X.app("u", num(k[0]), *[num(p) for p in ix[1:]])))
                        c.equal("%s" % (ix,), S.I.E(out.fn(ix)), S.I.E(S.A(want).fn((t,))), where, "every degree of freedom and component is interpolated in time on its own")
        c.absorb(S)
    return run


def spatial(vector, same=False):
    def run(c):
        S = base(c)
        where = "core/interpolate.py:SpatialInterpolator"
        with c.part("spatial", S, where, raises=True):
            n, U = sym("K", "len"), sym("K" if same else "U", "len")
            T = 3
            shape = (T, n, vector) if vector else (T, n)
            vals = NP.new_arr(S.I, shape, lambda ix: X.app("u", *[num(i) for i in ix]))
            out = S.A(S.run("core.SpatialInterpolator()(xold, vals, xnew)", xold=grid(S, "xo", n), xnew=grid(S, "xn", U), vals=vals))
            want_shape = (T, U) + shape[2:]
            c.fact("shape", len(out.shape) == len(want_shape) and all(NP.dim_eq(p, q) for p, q in zip(out.shape, want_shape)), where, "one value per new grid point")
            for x in (num(0), S.generic(U, "x"), NP.simp(U - 1)):
                for t in range(T):
                    for j in range(vector or 1):
                        ix = (t, x, j) if vector else (t, x)
                        want = S.run("np.interp(xnew, xold, col)", col=NP.new_arr(S.I, (n,), lambda k, t=t, ix=ix: X.app("u", num(t), num(k[0]), *[num(p) for p in ix[2:]])))
                        c.equal("%s" % (ix,), S.I.E(out.fn(ix)), S.I.E(S.A(want).fn((x,))), where, "every snapshot and component is interpolated in space on its own")
        c.absorb(S)
    return run


def norms(cells, vector, n):
    def run(c):
        S = base(c)
        where = "core/norm.py"
        with c.part("norms", S, where, raises=True):
            S.run("m = core.UniformMesh(core.Interval(LA, LA + %d * DX), %d)" % (cells, cells))
            u = lambda k, x, j: X.app("u", num(k), x, num(j))
            f = S.native("f", lambda I, a, k: NP.new_arr(I, (vector,), lambda i: u(I.E(a[0]), I.E(a[1]), i[0])) if vector else u(I.E(a[0]), I.E(a[1]), 0))
            S.bind(f=f)
            quad = S.run("quad = core.LocalElementQuadrature(%d)\nquad" % n)
            ref = [S.I.E(x) for x in S.items(S.run("list(quad.nodes)"))]
            ws = [S.I.E(S.A(S.run("quad.weights")).fn((i,))) for i in range(n)]
            for key, cls, fold in (("L1", "L1Norm", lambda v: X.fn("abs", v)), ("L2", "L2Norm", lambda v: v * v)):
                for kw in ["quadrature_degree=%d" % n, "%d" % n] + (["", "quadrature_degree=None"] if n == 1 else []):
                    out = S.run("core.%s(m%s)(f)" % (cls, ", " + kw if kw else ""))
                    for j in range(vector or 1):
                        total = num(0)
                        for k in range(cells):
                            for w, x in zip(ws, ref):
                                total = total + DX * w * fold(u(k, A0 + (k + x) * DX, j))
                        want = X.fn("sqrt", total) if key == "L2" else total
                        got = S.A(out).fn((j,)) if vector else out
                        c.equal("%s(%s)/%d" % (key, kw, j), S.I.E(got), want, where + ":" + cls, "the norm is the quadrature of the function over every cell, per component")
            for points in (n + 1, None):
                out = S.run("core.solver_spaces(m%s)(f)" % (", points_per_cell=%d" % points if points else ""))
                p = points or 10
                for j in range(vector or 1):
                    vs = [X.fn("abs", u(k, A0 + (k + num(F(i, p - 1))) * DX, j)) for k in range(cells) for i in range(p)]
                    want = X.fn("max", *vs)
                    got = S.A(out).fn((j,)) if vector else out
                    c.equal("Linf(%s)/%d" % (points, j), S.I.E(got), want, where + ":Linf", "the largest absolute value at equidistant points of every cell, per component")
            for cls, name in (("L1Norm", "L1"), ("L2Norm", "L2"), ("solver_spaces", "Linf")):
                c.fact("name-" + cls, S.run("core.%s.name" % cls) == name, where + ":" + cls, "norms are reported under their names")
        c.absorb(S)
    return run


def functions(c):
    S = base(c)
    where = "core/function.py"
    with c.part("functions", S, where, raises=True):
        vs = [S.vec(S.N, "abcd"[i], "real") for i in range(4)]
        S.bind(va=vs[0], vb=vs[1], vc=vs[2], vd=vs[3])
        i = S.generic(S.N, "i")
        s = [sym(("abcd"[k], i), "real") for k in range(4)]
        for n in range(1, 5):
            args = ", ".join(["va", "vb", "vc", "vd"][:n])
            for f, g in (("maximum", "max"), ("minimum", "min")):
                c.equal("%s-%d" % (f, n), S.I.E(S.A(S.run("core.%s(%s)" % (f, args))).fn((i,))), X.fn(g, *s[:n]) if n > 1 else s[0], where + ":" + f, "entrywise over all arguments")
        for ka, da in (("pos", "pos"), ("neg", "pos"), ("zero", None)):
            for kb, db in (("pos", "pos"), ("neg", "pos"), ("zero", None)):
                a = sym(("ma", i), "pos") if da else num(0)
                b = sym(("mb", i), "pos") if db else num(0)
                a, b = (-a if ka == "neg" else a), (-b if kb == "neg" else b)
                mk = lambda nm, kind: NP.new_arr(S.I, (S.N,), lambda ix: {"pos": sym((nm, ix[0]), "pos"), "neg": -sym((nm, ix[0]), "pos"), "zero": num(0)}[kind])
                got = S.I.E(S.A(S.run("core.function.minmod(ma, mb)", ma=mk("ma", ka), mb=mk("mb", kb))).fn((i,)))
                want = X.fn("min", a, b) if (ka, kb) == ("pos", "pos") else X.fn("max", a, b) if (ka, kb) == ("neg", "neg") else num(0)
                c.equal("minmod-%s-%s" % (ka, kb), got, want, where + ":minmod", "the argument of smallest modulus if the signs agree, zero otherwise")
    c.absorb(S)


def scenarios(tier):
    out = []
    for n in range(1, 6):
        for cls in ("SpecificGaussianQuadrature", "GaussianQuadrature", "reference", "LocalElementQuadrature", "shifted", "left", "right", "unit"):
            out.append(("moments:%s:%d" % (cls, n), moments(cls, n)))
    out += [("golub-welsch:%d" % n, golub_welsch(n)) for n in range(2, 10 if tier != "quick" else 8)]
    out.append(("rejected", rejected))
    for n in (1, 2, 3):
        for v in (0, 2):
            out.append(("averages:%d:%d" % (n, v), averages(n, v)))
    for v in (0, 2):
        out += [("nodal:%d" % v, nodal(v)), ("temporal:%d" % v, temporal(v)), ("spatial:%d" % v, spatial(v)),
                ("temporal-same-length:%d" % v, temporal(v, True)), ("spatial-same-length:%d" % v, spatial(v, True))]
        for cells in (1, 2, 3):
            for n in (1, 2, 3):
                out.append(("norms:%d:%d:%d" % (cells, v, n), norms(cells, v, n)))
    out.append(("functions", functions))
    return out
