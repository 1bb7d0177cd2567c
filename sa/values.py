"""Abstract values of the interpreter."""
from fractions import Fraction

from . import expr as X
from .expr import E


class Star:
    """A run of `length` elements inside a sequence; element k is fn(k)."""

    __slots__ = ("length", "fn")

    def __init__(self, length, fn):
        self.length, self.fn = length, fn


class Ref:
    """Reference to a heap record."""

    __slots__ = ("id", "kind")
    _n = 0

    def __init__(self, kind):
        Ref._n += 1
        self.id, self.kind = Ref._n, kind

    def __repr__(self):
        return "<%s#%d>" % (self.kind, self.id)


class ObjR:
    __slots__ = ("cls", "attrs", "tag")

    def __init__(self, cls, attrs, tag=None):
        self.cls, self.attrs, self.tag = cls, attrs, tag


class ListR:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class DictR:
    __slots__ = ("items", "open")

    def __init__(self, items, open=False):
        self.items, self.open = items, open


class SetR:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class EnvR:
    __slots__ = ("vars",)

    def __init__(self, vars):
        self.vars = vars


class ArrR:
    """Array: shape (ints / int-valued terms) and generic element.

    own:   base is None, fn(idx tuple) -> element
    view:  base is a Ref to an own array, spec a tuple of axis selectors of the
           base (see npmodel.View)."""

    __slots__ = ("shape", "fn", "base", "view", "tag", "kind")

    def __init__(self, shape, fn, base=None, view=None, tag=None, kind="f"):
        self.shape, self.fn, self.base, self.view = tuple(shape), fn, base, view
        self.tag, self.kind = tag, kind


class SpR:
    """Sparse matrix: row(i) and col(j) give [(other index, value)]."""

    __slots__ = ("shape", "row", "col", "tag")

    def __init__(self, shape, row, col, tag=None):
        self.shape, self.row, self.col, self.tag = shape, row, col, tag


class Func:
    __slots__ = ("node", "env", "module", "name", "defaults", "kwdefaults", "defcls", "deco")

    def __init__(self, node, env, module, name, defaults, kwdefaults):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults, self.defcls, self.deco = defaults, kwdefaults, None, ()

    def __repr__(self):
        return "<function %s>" % self.qual

    @property
    def qual(self):
        return "%s:%s%s" % (
            self.module.path,
            self.defcls.name + "." if self.defcls else "",
            self.name,
        )


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Prop:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Cls:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = c3(self)

    def lookup(self, name, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Cls):
                if name in c.ns:
                    return c.ns[name], c
            elif isinstance(c, Native):
                if name in c.methods:
                    return c.methods[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro

    @property
    def external(self):
        return [c for c in self.mro if isinstance(c, Ext)]

    def __repr__(self):
        return "<class %s>" % self.name


class Native:
    """A modelled built-in class; methods map name -> python callable."""

    def __init__(self, name, bases=(), methods=None):
        self.name, self.bases, self.methods = name, tuple(bases), methods or {}
        self.mro = c3(self)
        self.ns = self.methods
        self.module = None

    def lookup(self, name, after=None):
        return Cls.lookup(self, name, after)

    def is_sub(self, other):
        return other in self.mro

    external = ()

    def __repr__(self):
        return "<class %s>" % self.name


def c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                head = s[0]
                if not any(head in t[1:] for t in seqs):
                    break
            else:
                head = seqs[0][0]
            out.append(head)
            seqs = [[x for x in s if x is not head] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    bases = list(cls.bases)
    return [cls] + merge([b.mro if hasattr(b, "mro") else [b] for b in bases] + [bases])


class NFunc:
    """Modelled function: python callable f(interp, args, kwargs)."""

    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<builtin %s>" % self.name


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = None
        self.state = "new"

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """A name of an external package (dotted path)."""

    __slots__ = ("name",)
    _pool = {}

    def __new__(cls, name):
        r = cls._pool.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            cls._pool[name] = r
        return r

    def __repr__(self):
        return "<ext %s>" % self.name


class Unk:
    """Unknown value."""

    __slots__ = ("reason", "e", "tag")

    def __init__(self, reason, tag=None):
        self.reason, self.e, self.tag = reason, None, tag

    def __repr__(self):
        return "<unknown %s>" % self.reason


class Str:
    """A string whose content is not known."""

    __slots__ = ("why", "parts")

    def __init__(self, why="", parts=None):
        self.why = why
        self.parts = parts          # strings and (value, format), where known

    def __repr__(self):
        return "<str %s>" % self.why


class Choice:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "<%s if %s else %s>" % (self.a, self.c, self.b)


class Slice:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, s):
        self.start, self.stop, self.step = a, b, s


class RangeV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, s):
        self.start, self.stop, self.step = a, b, s


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class MissingT:
    def __repr__(self):
        return "<missing>"


Missing = MissingT()


class PyRaise(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc


class Abort(Exception):
    """The analysis gives up (budget)."""


def is_num(v):
    return isinstance(v, (int, E)) or v is True or v is False


def concat(*xs):
    """Concatenation of strings that are known only in part."""
    parts = []
    for x in xs:
        if isinstance(x, str):
            p = [x]
        elif isinstance(x, Str) and x.parts is not None:
            p = x.parts
        else:
            return Str("concat")
        for q in p:
            if isinstance(q, str) and parts and isinstance(parts[-1], str):
                parts[-1] += q
            elif q != "":
                parts.append(q)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return Str("text", parts)
