"""Value-flow reachability: everything an abstract object can see.

`reach(S, root)` walks the abstract heap from a value through attributes,
containers, bound methods and closures (not through module globals) and returns
the terms, strings, classes and functions found, in a canonical order."""
from . import expr as X
from . import npmodel as NP
from .expr import E
from .values import *


class Reach:
    def __init__(self, S, skip=()):
        self.S, self.I = S, S.I
        self.terms = set()
        self.names = set()          # names of symbols
        self.strings = set()
        self.classes = set()
        self.unknown = False
        self.loose = False          # some terms have no normal form
        self.print_ = []            # canonical serialisation
        self.seen = {}
        self.skip = set(skip)       # attribute names not followed
        self.budget = 20000

    def out(self, x):
        self.print_.append(x)

    def walk(self, v, depth=0):
        self.budget -= 1
        if self.budget < 0 or depth > 60:
            self.unknown = True
            return self.out("...")
        I = self.I
        if isinstance(v, E):
            self.terms.add(v)
            self.symbols(v)
            if X.contains(v, lambda t: t.op == "unk"):
                self.unknown = True
            elif X.tainted(v):
                self.loose = True
            return self.out(X.canon(v))
        if isinstance(v, bool) or v is None:
            return self.out(repr(v))
        if isinstance(v, int):
            self.terms.add(X.num(v))
            return self.out(X.num(v))
        if isinstance(v, str):
            self.strings.add(v)
            return self.out(repr(v))
        if isinstance(v, tuple):
            self.out("(")
            for x in v:
                self.walk(x, depth + 1)
            return self.out(")")
        if isinstance(v, Star):
            self.out("*")
            self.walk(v.length, depth + 1)
            try:
                self.walk(v.fn(NP.generic(v.length, "reach")), depth + 1)
            except PyRaise:
                self.unknown = True
            return
        if isinstance(v, (Func, Bound, NFunc, Cls, Native, Ext, Module, StaticM, ClassM)):
            return self.callable(v, depth)
        if isinstance(v, Choice):
            self.out("?")
            self.symbols(v.c)
            self.walk(v.a, depth + 1)
            return self.walk(v.b, depth + 1)
        if isinstance(v, (Slice, RangeV)):
            self.out("range")
            for x in (v.start, v.stop, v.step):
                self.walk(x, depth + 1)
            return
        if isinstance(v, Ref):
            return self.ref(v, depth)
        if isinstance(v, Str) and v.parts is not None:
            self.out("text")
            for p in v.parts:
                if isinstance(p, str):
                    self.walk(p, depth + 1)
                else:
                    self.out("format " + str(p[1]))
                    self.walk(p[0], depth + 1)
            return self.out(".")
        self.unknown = True
        if isinstance(v, Unk):
            self.unk(v, depth)
        self.out("unknown")

    def unk(self, v, depth):
        pass

    def symbols(self, e):
        for x in X.leaves(e):
            if x.op == "sym":
                n = x.args[0]
                self.names.add(n[0] if isinstance(n, tuple) else n)

    def callable(self, v, depth):
        if isinstance(v, Bound):
            self.out("bound")
            self.callable(v.func, depth)
            return self.walk(v.self_, depth + 1)
        if isinstance(v, (StaticM, ClassM)):
            return self.callable(v.f, depth)
        if isinstance(v, (Cls, Native, Ext, Module)):
            self.classes.add(v.name)
            return self.out("<%s %s>" % (type(v).__name__, v.name))
        if isinstance(v, NFunc):
            return self.out("<%s>" % v.name)
        self.out("<%s %s>" % (v.module.name if v.module else "", v.name))
        self.classes.add(v.name)
        if v in self.seen:
            return
        self.seen[v] = len(self.seen)
        for d in list(v.defaults or []) + list((v.kwdefaults or {}).values() if isinstance(v.kwdefaults, dict) else (v.kwdefaults or [])):
            self.walk(d, depth + 1)
        if isinstance(v.env, Scope_):
            self.scope(v, depth)

    def scope(self, f, depth):
        import ast

        used = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
        s = f.env
        top = f.module.env if f.module else None
        while s is not None and s is not top and s.parent is not None:
            vars = self.I.rec(s.ref).vars
            for k in sorted(vars):
                if k in used:
                    self.out(k)
                    self.walk(vars[k], depth + 1)
            s = s.parent

    def ref(self, v, depth):
        if v in self.seen:
            return self.out("#%d" % self.seen[v])
        self.seen[v] = len(self.seen)
        r = self.I.rec(v)
        if v.kind == "obj":
            self.classes.add(r.cls.name)
            self.out("obj " + r.cls.name)
            for k in sorted(r.attrs, key=str):
                if k in self.skip:
                    continue
                self.out(k)
                self.walk(r.attrs[k], depth + 1)
            self.out(".")
        elif v.kind in ("list", "set"):
            self.out(v.kind)
            for x in r.items:
                self.walk(x, depth + 1)
            self.out(".")
        elif v.kind == "dict":
            self.out("dict")
            if r.open:
                self.unknown = True
            for k, x in r.items.items():
                self.walk(k, depth + 1)
                self.walk(x, depth + 1)
            self.out(".")
        elif v.kind == "arr":
            a = NP.asarr(self.I, v)
            self.out("array")
            for n in a.shape:
                self.walk(n, depth + 1)
            try:
                ix = tuple(NP.generic(n, "reach%d" % i) if not isinstance(n, int) else min(1, n - 1) for i, n in enumerate(a.shape))
                if 0 in a.shape:
                    return
                self.walk(NP.simp(a.fn(ix)), depth + 1)
            except Exception:
                self.unknown = True
        elif v.kind == "sp":
            self.out("sparse")
            for n in r.shape:
                self.walk(n, depth + 1)
            try:
                for j, x in r.row(NP.generic(r.shape[0], "reach")):
                    self.walk(j, depth + 1)
                    self.walk(NP.simp(x), depth + 1)
            except Exception:
                self.unknown = True
        else:
            self.out(v.kind)
            self.unknown = True


from .interp import Scope as Scope_  # noqa: E402


def reach(S, v, skip=()):
    r = Reach(S, skip)
    r.walk(v)
    return r


def same(a, b):
    """Whether two values are indistinguishable (None: cannot tell)."""
    if a.print_ == b.print_ and not a.unknown and not b.unknown:
        return True
    return None if a.unknown or b.unknown or a.loose or b.loose else False
