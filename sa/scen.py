"""Fixtures shared by the checks: an analysed program with driver snippets.

A driver is a few lines of Python that is *interpreted abstractly* together with
the modules of the repository (it is never executed)."""
import ast
import textwrap

from . import expr as X
from .expr import num, sym
from .interp import Frame, Interp, Scope
from .values import ArrR, Cls, EnvR, Func, Module, NFunc, PyRaise, Abort, Ref, Unk, Choice
from . import npmodel as NP

POS, REAL = "pos", "real"


class Broken(Exception):
    """The analysed construct raises / cannot be resolved."""


class Sc:
    def __init__(self, model, budget=4_000_000, stubs=()):
        self.model = model
        self.I = Interp(model, budget)
        self.I.stubs = stubs
        self.m = Module("__driver__", "<driver>", None)
        ref = self.I.new(EnvR({"__name__": "__driver__"}), "env")
        self.m.env = Scope(ref, None)
        self.N = sym("N", "len")

    def reset(self):
        I = self.I
        I.st.pc = []
        I.logs, I.try_stack, I.frames, I.scope = [], [], [], None

    # -------------------------------------------------------- drivers
    def bind(self, **kw):
        I = self.I
        env = I.rec(self.m.env.ref)
        d = dict(env.vars)
        d.update(kw)
        I.set(self.m.env.ref, EnvR(d))

    def run(self, src, **kw):
        """Interpret statements; returns the value of `result` if assigned."""
        self.bind(**kw)
        I = self.I
        tree = ast.parse(textwrap.dedent(src))
        saved = (I.scope, I.frames)
        I.scope, I.frames = self.m.env, [Frame(None, self.m, None)]
        try:
            last = tree.body[-1]
            if isinstance(last, ast.Expr):
                I.block(tree.body[:-1])
                return I.eval(last.value)
            I.block(tree.body)
            return None
        finally:
            I.scope, I.frames = saved

    def get(self, name):
        return self.I.rec(self.m.env.ref).vars[name]

    def native(self, name, f):
        return NFunc(name, f)

    def func(self, name, domain=None, n=1):
        """Opaque scalar function name(x, ...)."""

        def f(I, a, k):
            return X.app(name, *[I.E(x) for x in a])

        return NFunc(name, f)

    # -------------------------------------------------------- arrays
    def swe(self, n, h="h", q="q", hdom="pos"):
        """(n, 2) array of heights and discharges."""

        def fn(ix):
            i, c = num(ix[0]), NP.simp_int(ix[1])
            if isinstance(c, int):
                return sym((h, i), hdom) if c == 0 else sym((q, i), "real")
            return X.ite(X.cmp_("==", num(c), X.ZERO), sym((h, i), hdom), sym((q, i), "real"))

        return NP.new_arr(self.I, (n, 2), fn)

    def vec(self, n, name, dom="real", tag=None):
        return NP.new_arr(self.I, (n,), lambda ix: sym((name, num(ix[0])), dom), tag=tag)

    def A(self, v):
        return NP.asarr(self.I, v)

    def shape(self, v):
        return self.A(v).shape

    def at(self, v, *ix):
        return NP.simp(self.A(v).fn(tuple(ix)))

    def subclasses(self, base, proper=True):
        """Classes of the loaded modules derived from `base`."""
        out = []
        for m in list(self.I.modules.values()):
            if m.env is None:
                continue
            for v in self.I.rec(m.env.ref).vars.values():
                if isinstance(v, Cls) and v.is_sub(base) and not (proper and v is base) and v not in out:
                    out.append(v)
        return out

    def items(self, v):
        return self.I.iterate(v)

    def generic(self, n, tag="g"):
        return NP.generic(n, tag)

    def positions(self, n):
        return NP.positions(n)

    def events(self, *kinds):
        return [e for e in self.I.events if not kinds or e.kind in kinds]

    def generic_data(self, names, passive=()):
        """Decide conditions on the named data as for data in general position
        (passive symbols may take part)."""
        names = set(names)
        memo = {}

        def oracle(c):
            if c.id in memo:
                return memo[c.id]
            memo[c.id] = None
            seen = False
            apps = X.contains(c, lambda t: t.op == "app" and t.args[0] in names)
            for l in X.leaves(c):
                n = l.args[0]
                if isinstance(n, str) and n in passive:
                    continue
                if isinstance(n, tuple) and n[0] in names:
                    seen = True
                elif c.op == "cmp" and c.args[0] == "==" and n in names:
                    seen = True
                elif X.DOMAIN.get(n) in ("len", "idx") or apps or n == "\u03c0":
                    pass
                else:
                    return None
            if not (seen or apps):
                return None
            vals = set()
            for i in range(24):
                v = X.Valuation("oracle/%d" % i)
                v.reds = True
                try:
                    vals.add(bool(v.ev(c)))
                except (X.Skip, OverflowError):
                    continue
            if len(vals) == 1:
                memo[c.id] = vals.pop()
            return memo[c.id]

        self.I.oracle = oracle
