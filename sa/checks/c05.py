"""Limited schemes: bounds of the monolithic convex limiting schemes."""
from .. import expr as X, fe, fv, ref as R
from .. import npmodel as NP
from ..expr import num, sym
from ..pos import Below, Lemma, Min, Node, Prod, Sum, certified, node
from .c04 import above, between, cells, clamp, state
from .c13 import Local, Space

ID = "C05"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation: the contributions of the limited fluxes to a cell (finite elements: degree of freedom) are derived as terms of a generic state and, for the shallow water scheme, of an arbitrary "
    "target flux; the distances of the updated value to the local bounds are shown to be non-negative by certificates (sums and products of non-negative factors identical to the derived terms). "
    "The inequality behind the limiter is itself derived for generic values.")
ASSUMPTIONS = ["real arithmetic", "wet states unless stated otherwise"]

ab, mx, mn = R.ab, R.mx, R.mn
RULE = "an admissible step of the limited scheme keeps the value within its local bounds"


class Limited(Node):
    """w*(b - lo) or w*(hi - b) of a limited bar state at one side of a node. F is
    the limited flux to the right cell; facts: certificates that both bar states
    lie between their bounds."""

    def __init__(self, w, bl, br, left, right, t, side, bound, facts, inside=False):
        self.inside = inside  # factor w applied to the arguments
        self.w, self.b, self.bounds, self.t = num(w), (num(bl), num(br)), (left, right), num(t)
        self.side, self.bound, self.facts = side, bound, [node(f) for f in facts]

    def flux(self):
        (ll, lh), (rl, rh) = self.bounds
        bl, br = self.b
        if self.inside:
            return mx(mx(self.w * (rl - br), self.w * (bl - lh)), mn(mn(self.w * (rh - br), self.w * (bl - ll)), self.t))
        return mx(self.w * mx(rl - br, bl - lh), mn(self.w * mn(rh - br, bl - ll), self.t))

    def value(self):
        """w times the limited bar state of the side."""
        return self.w * self.b[self.side] + (self.flux() if self.side else -self.flux())

    def term(self):
        lo, hi = self.bounds[self.side]
        return self.value() - self.w * lo if self.bound == 0 else self.w * hi - self.value()

    def ok(self):
        return all(f.ok() for f in self.facts)


def lemma(c):
    """The inequality behind `Limited`, for generic values."""
    where = "limited flux max(A, min(B, t))"
    w, t = sym("w", "pos"), sym("t", "real")
    bl, br = sym("bl", "real"), sym("br", "real")
    p = [sym("p%d" % i, "nonneg") for i in range(4)]
    for side in (0, 1):
        for bound in (0, 1):
            x = Limited(w, bl, br, (bl - p[0], bl + p[1]), (br - p[2], br + p[3]), t, side, bound, [])
            c.nonneg("%s-%s" % (("left", "right")[side], ("minimum", "maximum")[bound]), x.term(), where, "limited bar states lie between their bounds")


CALL = '''
from finite_volume.scalar.solver import mcl as scalar_mcl
l, r = scalar_mcl.limit(T, W, BL, BR, HI, LO)
'''


def limiter(c):
    """The limiter itself."""
    S = fv.scalar(c.model, "burgers")
    n, g = S.N, S.generic(S.N, "k")
    where = "finite_volume/scalar/solver/mcl.py:limit"
    with c.part("limit", S, where):
        w, t = sym(("w", g), "pos"), sym(("t", g), "real")
        bl, br = sym(("bl", g), "real"), sym(("br", g), "real")
        m = NP.simp_int(n + 1)

        def bounds(name, d):
            # bounds of the cells left and right of the generic node
            def f(ix):
                i = NP.simp(num(ix[0]))
                if X.isign(i - g) == 0:
                    return bl + d * sym("pl" + name, "nonneg")
                if X.isign(i - g - 1) == 0:
                    return br + d * sym("pr" + name, "nonneg")
                return sym((name, i), "real")
            return NP.new_arr(S.I, (m,), f)
        S.bind(T=S.vec(n, "t"), W=S.vec(n, "w", "pos"), BL=S.vec(n, "bl"), BR=S.vec(n, "br"), HI=bounds("hi", 1), LO=bounds("lo", -1))
        S.run(CALL)
        left, right = (S.I.E(S.A(S.run(x)).fn((g,))) for x in ("l", "r"))
        c.zero("pair", left + right, where, "limited fluxes only move")
        for name, v, b in (("left", left, bl), ("right", right, br)):
            q = "pl" if name == "left" else "pr"
            c.nonneg(name + "-minimum", v + w * sym(q + "lo", "nonneg"), where, "limited bar states lie between their bounds")
            c.nonneg(name + "-maximum", w * sym(q + "hi", "nonneg") - v, where, "limited bar states lie between their bounds")
        c.nonneg("reduce-above", mx(t, X.ZERO) - right, where, "the limited flux lies between zero and its target")
        c.nonneg("reduce-below", right - mn(t, X.ZERO), where, "the limited flux lies between zero and its target")
    c.absorb(S)


def wrap(S, i, periodic):
    i = NP.simp(num(i))
    if not periodic:
        return clamp(S, i)
    if X.idx_decide("<", i, X.ZERO):
        return NP.simp(i + S.N)
    if X.idx_decide(">=", i, num(S.N)):
        return NP.simp(i - S.N)
    return i


def scalar(problem, bc):
    periodic = bc == "periodic"

    def run(c):
        S = fv.scalar(c.model, problem, bc)
        where = "scalar solver 'mcl-fv' (%s)" % problem
        u = lambda i: sym(("u", wrap(S, i, periodic)), "real")
        with c.part("bounds", S, where):
            state(S, 1)
            st = lambda a, e: S.I.E(S.A(S.run("rs = sc.get_riemann_solver(PROBLEM)\nrs.solve(np.array([UA]), np.array([UE]))[1]", UA=a, UE=e)).fn((0,)))
            S.run("import numpy as np\nfrom finite_volume import scalar as sc")
            r = S.run("sol.SOLVER_PARSER['mcl-fv'].solver(bench, mesh_size=N).as_dict()['right_hand_side']")
            v = S.A(S.run("r(TA, U)", r=r, TA=sym("ta", "pos")))

            def ghost(j):
                return not periodic and (X.idx_decide("<", NP.simp(num(j)), X.ZERO) or X.idx_decide(">=", NP.simp(num(j)), num(S.N)))

            def bound(f, j):
                return u(j) if ghost(j) else f(u(j - 1), u(j), u(j + 1))
            for i in cells(S):
                low, high, lam = [], [], X.ZERO
                for l, side in ((i - 1, 1), (i, 0)):
                    a, e = u(l), u(l + 1)
                    w, b = R.sspeed(problem, a, e), st(a, e)
                    lam = lam + w
                    t = R.scentral(problem, a, e) - R.sllf(problem, a, e)
                    bd = [(bound(mn, j), bound(mx, j)) for j in (l, l + 1)]
                    facts = [Lemma(2 * w * (b - lo), between(problem, w, a, e, lo)) for lo, _ in bd]
                    facts += [Lemma(2 * w * (hi - b), above(problem, w, a, e, hi)) for _, hi in bd]
                    low.append(Limited(w, b, b, bd[0], bd[1], t, side, 0, facts))
                    high.append(Limited(w, b, b, bd[0], bd[1], t, side, 1, facts))
                x = fv.DX * S.I.E(v.fn((i,))) + lam * u(i)
                certified(c, "minimum[%s]" % i, x - lam * mn(u(i - 1), u(i), u(i + 1)), Sum(*low), where, RULE)
                certified(c, "maximum[%s]" % i, lam * mx(u(i - 1), u(i), u(i + 1)) - x, Sum(*high), where, RULE)
        c.absorb(S)
    return run


TARGET = '''
import finite_volume
SEEN = []
class Free(finite_volume.NumericalFlux):
    input_dimension = WIDTH
    def __call__(self, *values):
        n = len(values[0])
        SEEN.append([v.copy() for v in values])
        return np.array([FH(n), FQ(n)]).T * -1.0, np.array([FH(n), FQ(n)]).T
class Getter(swe.FluxGetter):
    def __call__(self, benchmark, space, bathymetry=None):
        return Free()
import numpy as np
r = sol.SOLVER_PARSER['mcl'].solver(bench, mesh_size=N, flux_getter=Getter()).as_dict()['right_hand_side']
'''


def swe(bc, bath, width=2):
    periodic = bc == "periodic"

    def run(c):
        S = fv.swe(c.model, bc, bath)
        S.generic_data(["bath", "uh", "uq", "fh", "fq"])
        where = "shallow water solver 'mcl'"
        u = lambda i: (sym(("uh", wrap(S, i, periodic)), "pos"), sym(("uq", wrap(S, i, periodic)), "real"))
        d = num(1) / (2 * X.fn("sqrt", num(3)))

        def b(i):
            if bath != "free":
                return X.ZERO
            x = lambda s: X.canon(sym("a0", "pos") + fv.DX * (clamp(S, i) + num(1) / 2 + s * d))
            return (X.app("bath", x(-1)) + X.app("bath", x(1))) / 2

        def bars(l):
            """Speed, modified bar heights with certificates, bar velocity at node l|l+1."""
            a, e = u(l), u(l + 1)
            w = R.speed(a, e)
            h, q = R.bar(a, e, w)
            pos = Prod(1 / (2 * w), Sum(Prod(a[0], w + a[1] / a[0]), Prod(e[0], w - e[1] / e[0])))
            hh = Lemma(h, pos)
            if bath != "free":
                return w, (h, h), (hh, hh), q / h, (a, e)
            db = b(l + 1) - b(l)
            s = X.fn("sign", db)
            m = Min(hh, ab(db) / 2)
            certs = [Sum(Below(hh, ab(db) / 2), Prod(m, k)) for k in (1 + s, 1 - s)]
            f = R.fix(h, db)
            return w, (h + f, h - f), tuple(Lemma(h + k * f, x) for k, x in zip((1, -1), certs)), q / h, (a, e)

        def ghost(j):
            return not periodic and (X.idx_decide("<", NP.simp(num(j)), X.ZERO) or X.idx_decide(">=", NP.simp(num(j)), num(S.N)))

        with c.part("bounds", S, where):
            state(S, 2)
            tgt = lambda name: S.native(name, lambda I, a, k: S.vec(a[0], name))
            S.bind(FH=tgt("fh"), FQ=tgt("fq"))
            S.run(TARGET, WIDTH=width)
            v = S.A(S.run("r(TA, U)", TA=sym("ta", "pos")))
            seen = S.items(S.run("SEEN[-1]"))
            c.fact("target/count", len(seen) == width, where, "the target flux gets the states it needs", str(len(seen)))
            for m, x in enumerate(seen if len(seen) == width else []):
                for j in [0] + cells(S) + [S.N]:
                    for q in (0, 1):
                        c.equal("target/%d[%s,%d]" % (m, j, q), S.I.E(S.A(x).fn((NP.simp(num(j)), q))), u(NP.simp(num(j) + m - width // 2))[q], where, "the target flux gets the states it needs")
            for i in cells(S):
                low, high, vlow, vhigh, positive, lam = [], [], [], [], [], X.ZERO

                def heights(j):
                    """Bar heights at the cell (of a ghost cell: those of its node)."""
                    if ghost(j):
                        k = 0 if X.idx_decide("<", NP.simp(num(j)), X.ZERO) else NP.simp(S.N - 1)
                        n = bars(-1) if k == 0 else bars(k)
                        return list(n[1]), list(n[2]), [n[3]]
                    j = wrap(S, j, periodic)
                    p, q = bars(j - 1), bars(j)
                    return [p[1][1], q[1][0]], [p[2][1], q[2][0]], [p[3], q[3]]
                for l, side in ((NP.simp(num(i) - 1), 1), (i, 0)):
                    w, (bl, br), (cl, cr), V, (a, e) = bars(l)
                    lam = lam + w
                    (hl, ql, vl), (hr, qr, vr) = heights(l), heights(l + 1)
                    bd = [(mn(*x), mx(*x)) for x in (hl, hr)]
                    node_ = NP.simp(num(l) + 1)
                    lo_flux = R.low_order(a, e, b(l + 1) - b(l))[1][0]
                    t = sym(("fh", node_), "real") - lo_flux
                    low.append(Limited(w, bl, br, bd[0], bd[1], t, side, 0, []))
                    high.append(Limited(w, bl, br, bd[0], bd[1], t, side, 1, []))
                    positive += [Sum(low[-1], Prod(w, Min(*(qr if side else ql))))]
                    if bath != "free":
                        # limited heights on both sides of the node, velocity limiting
                        H = [Limited(w, bl, br, bd[0], bd[1], t, s, 0, []) for s in (0, 1)]
                        hs = [Lemma(H[s].value() / w, Prod(1 / w, Sum(H[s], Prod(w, Min(*(ql, qr)[s]))))) for s in (0, 1)]
                        vb = [(mn(*x), mx(*x)) for x in (vl, vr)]
                        vlow.append(Velocity(w, V, hs, vb, sym(("fq", node_), "real") - R.low_order(a, e, X.ZERO)[1][1], side, 0, a, e))
                        vhigh.append(Velocity(w, V, hs, vb, sym(("fq", node_), "real") - R.low_order(a, e, X.ZERO)[1][1], side, 1, a, e))
                total, disc = (fv.DX * S.I.E(v.fn((i, k))) + lam * u(i)[k] for k in (0, 1))
                hs = heights(i)[0]
                certified(c, "minimum[%s]" % i, total - lam * mn(*hs), Sum(*low), where, RULE)
                certified(c, "maximum[%s]" % i, lam * mx(*hs) - total, Sum(*high), where, RULE)
                certified(c, "positive[%s]" % i, total, Sum(*positive), where, "an admissible step of the limited scheme keeps heights non-negative")
                if bath != "free":
                    vs = heights(i)[2]
                    certified(c, "slow[%s]" % i, disc - mn(*vs) * total, Sum(*vlow), where, "an admissible step of the limited scheme keeps velocities within their local bounds")
                    certified(c, "fast[%s]" % i, mx(*vs) * total - disc, Sum(*vhigh), where, "an admissible step of the limited scheme keeps velocities within their local bounds")
        c.absorb(S)
    return run


class Velocity(Node):
    """Distance of the limited discharge to a velocity bound times the limited height."""

    def __init__(self, w, V, heights, bounds, t, side, bound, a, e):
        self.w, self.V, self.h, self.bounds, self.side, self.bound = w, V, heights, bounds, side, bound
        q = R.bar(a, e, w)[1]
        H = self.H = [x.term() for x in heights]
        (ll, lh), (rl, rh) = bounds
        t = t + w * (q - H[1] * V)
        self.F = mx(w * mx(H[1] * (rl - V), H[0] * (V - lh)), mn(w * mn(H[1] * (rh - V), H[0] * (V - ll)), t))

    def term(self):
        s = self.side
        lo, hi = self.bounds[s]
        x = self.w * self.H[s] * self.V + (self.F if s else -self.F)
        return x - self.w * self.H[s] * lo if self.bound == 0 else self.w * self.H[s] * hi - x

    def ok(self):
        return all(h.ok() for h in self.h)


def finite_elements(problem, p):
    def run(c):
        S = fe.make(c.model, problem, p)
        sp, L = Space(S), Local(p)
        where = "finite element solver 'mcl-fem' (%s, degree %d)" % (problem, p)
        u = lambda j: sym(("u", num(j)), "real")
        S.bind(U=S.vec(sp.n, "u"))
        with c.part("bounds", S, where):
            get = lambda key: S.A(S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=P).as_dict()['right_hand_side'](TA, U.copy())" % key, TA=sym("ta", "pos")))
            A, D = get("mcl-fem"), get("cg-low")
            rate = lambda j: S.I.E(D.fn((j,)))

            def nb(cell, r):
                i = sp.index(cell, r)
                return [i] + [j for j in sp.row(cell, r, lambda a, b: L.grad[a][b]) if j is not i]

            def dof(cell, r):
                # normal form of (cell, local index)
                return (cell, r) if r < p else (wrapcell(S, NP.simp(num(cell) + 1)), 0)
            for cell, r in sp.dofs:
                i = sp.index(cell, r)
                m = sum((v * fv.DX for v in sp.row(cell, r, lambda a, b: L.mass[a][b]).values()), X.ZERO)
                low, high, lam = [], [], X.ZERO
                bi = [u(j) for j in nb(cell, r)]
                for el, a in sp.elements(cell, r):
                    el = wrapcell(S, el)
                    for bb in range(p + 1):
                        if bb == a:
                            continue
                        j = sp.index(el, bb)
                        g, mm = num(L.grad[a][bb]), num(L.mass[a][bb]) * fv.DX
                        w = num(1) if problem == "advection" else mx(ab(u(i)), ab(u(j)))
                        dd = ab(g) * w
                        lam = lam + dd
                        x, y = (u(i), u(j)) if X.const(X.canon(g)) > 0 else (u(j), u(i))
                        bj = [u(k) for k in nb(*dof(el, bb))]
                        # bar state 2 d b = d (ui + uj) + (fi - fj) c
                        fi, fj = R.sflux(problem, u(i)), R.sflux(problem, u(j))
                        b = X.div(dd * (u(i) + u(j)) + (fi - fj) * g, 2 * dd)
                        t = mm * (rate(i) - rate(j)) + dd * (u(i) - u(j))
                        oi, oj = (mn(*bi), mx(*bi)), (mn(*bj), mx(*bj))
                        facts = [Lemma(2 * dd * (b - o[0]), Prod(ab(g), between(problem, w, x, y, o[0]))) for o in (oi, oj)]
                        facts += [Lemma(2 * dd * (o[1] - b), Prod(ab(g), above(problem, w, x, y, o[1]))) for o in (oi, oj)]
                        first = a < bb
                        args = (2 * dd, b, b, oj, oi, t) if first else (2 * dd, b, b, oi, oj, -t)
                        low.append(Limited(*args, 1 if first else 0, 0, facts, True))
                        high.append(Limited(*args, 1 if first else 0, 1, facts, True))
                x = m * S.I.E(A.fn((i,))) + 2 * lam * u(i)
                certified(c, "minimum[%s,%d]" % (cell, r), x - 2 * lam * mn(*bi), Sum(*low), where, RULE)
                certified(c, "maximum[%s,%d]" % (cell, r), 2 * lam * mx(*bi) - x, Sum(*high), where, RULE)
        c.absorb(S)
    return run


def wrapcell(S, i):
    return wrap(S, i, True)


def scenarios(tier):
    out = [("lemma", lemma), ("limit", limiter)]
    for bc in ("periodic", ("outflow", "outflow")):
        name = bc if isinstance(bc, str) else "-".join(bc)
        for p in ("advection", "burgers"):
            out.append(("scalar/%s/%s" % (p, name), scalar(p, bc)))
        for bath in ("zero", "free"):
            out.append(("swe/%s/%s" % (bath, name), swe(bc, bath)))
        out.append(("swe/wide/%s" % name, swe(bc, "zero", 4)))
    for p in ("advection", "burgers"):
        for deg in (1, 2):
            out.append(("fe/%s/%d" % (p, deg), finite_elements(p, deg)))
    return out
