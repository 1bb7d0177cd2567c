"""Extraction of Runge-Kutta tableaux from the interpreted steppers."""
from fractions import Fraction

from . import expr as X
from . import npmodel as NP
from .expr import num, sym
from .scen import Sc


class Recorder:
    """Opaque right hand side: the i-th evaluation yields the symbols (k, i, .)."""

    def __init__(self, S):
        self.calls = []

        def rhs(I, a, k):
            t = I.E(a[0])
            n = len(self.calls)
            if NP.is_arr(I, a[1]) if hasattr(NP, "is_arr") else not isinstance(a[1], (int, float, X.E, Fraction)):
                y = NP.asarr(I, a[1])
                self.calls.append((t, y))
                return NP.new_arr(I, y.shape, lambda ix: sym(("k", n) + tuple(num(i) for i in ix), "real"))
            self.calls.append((t, I.E(a[1])))
            return sym(("k", n), "real")

        self.native = S.native("rhs", rhs)


def make(model):
    S = Sc(model)
    S.I.wet = False
    S.rec = Recorder(S)
    S.bind(F=S.rec.native, N=S.N, Y=S.vec(S.N, "y"), Y2=S.vec(S.N, "z"), T0=sym("t", "real"), T2=sym("t2", "real"),
           DT=sym("dt", "pos"), DT2=sym("dt2", "pos"))
    S.run("import numpy as np\nimport core, finite_element\nfrom core import ode_solver as om")
    return S


def classes(S):
    return S.subclasses(S.run("om.ExplicitRungeKuttaMethod"))


def coefficient(e, s):
    """Coefficient of the symbol s in e, which is linear in it."""
    p = X.nf(X.canon(e))
    k = X.atom_id(s) if hasattr(X, "atom_id") else None
    out = X.ZERO
    for m, c in p.items():
        names = [(X.ATOMS[a], d) for a, d in m]
        hit = [(a, d) for a, d in names if a is s]
        if not hit:
            continue
        if hit[0][1] != 1:
            raise ValueError("not linear")
        t = num(c)
        for a, d in names:
            if a is not s:
                t = t * a ** d
        out = out + t
    return X.canon(out)


class Tableau:
    def __init__(self, S, cls):
        S.rec.calls.clear()
        S.run("o = C(F, Y, T0)\no.execute(DT)", C=cls)
        g = S.generic(S.N, "g")
        dt, t0, y0 = sym("dt", "pos"), sym("t", "real"), sym(("y", g), "real")
        self.calls = list(S.rec.calls)
        self.s = len(self.calls)
        y1 = S.at(S.run("o.solution"), g)
        ks = [sym(("k", i, g), "real") for i in range(self.s)]
        self.y1, self.ks, self.dt, self.t0, self.y0, self.g = y1, ks, dt, t0, y0, g
        self.b = [X.canon(coefficient(y1, k) / dt) for k in ks]
        self.a, self.stage, self.c = [], [], []
        for t, y in self.calls:
            e = NP.simp(y.fn((g,)))
            self.stage.append(e)
            self.a.append([X.canon(coefficient(e, k) / dt) for k in ks])
            self.c.append(X.canon((t - t0) / dt))
        self.res_y1 = y1 - y0 - dt * sum((b * k for b, k in zip(self.b, ks)), X.ZERO)
        self.res_stage = [e - y0 - dt * sum((a * k for a, k in zip(row, ks)), X.ZERO) for e, row in zip(self.stage, self.a)]

    def where(self, S, cls):
        return cls.qual if hasattr(cls, "qual") else str(cls)


# ------------------------------------------------------------ rooted trees
def trees(order, _memo={}):
    """Rooted trees with `order` nodes as sorted tuples of subtrees."""
    if order in _memo:
        return _memo[order]
    out = set()

    def rec(rest, maxt, acc):
        if rest == 0:
            out.add(tuple(sorted(acc)))
            return
        for o in range(1, rest + 1):
            for t in trees(o):
                if maxt is None or (o, t) <= maxt:
                    rec(rest - o, (o, t), acc + [t])

    if order == 1:
        out.add(())
    else:
        rec(order - 1, None, [])
    _memo[order] = sorted(out)
    return _memo[order]


def size(t):
    return 1 + sum(map(size, t))


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


class Conditions:
    """Elementary weights in exact arithmetic."""

    def __init__(self, a, b):
        self.P = [[X.nf(x) for x in row] for row in a]
        self.b = [X.nf(x) for x in b]
        self.s = len(b)
        self.memo = {}

    def inner(self, t):
        """Stage vector Psi(t) = prod over subtrees of A Psi(subtree)."""
        if t in self.memo:
            return self.memo[t]
        v = [X.p_const(Fraction(1))] * self.s
        for st in t:
            w = self.inner(st)
            for i in range(self.s):
                acc = {}
                for j in range(self.s):
                    if self.P[i][j] and w[j]:
                        acc = X.p_add(acc, X.p_mul(self.P[i][j], w[j]))
                v[i] = X.p_mul(v[i], acc) if acc else {}
        self.memo[t] = v
        return v

    def residual(self, t):
        acc = {}
        for b, w in zip(self.b, self.inner(t)):
            if b and w:
                acc = X.p_add(acc, X.p_mul(b, w))
        return X.p_add(acc, X.p_const(Fraction(-1, gamma(t))))
