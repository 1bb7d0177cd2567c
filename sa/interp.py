"""Abstract interpreter for the analysed Python sources.

Values are terms (value numbers), control-flow joins build gated choices, loops
over containers of unknown length are summarised by a generic iteration, and
nothing of the analysed program is ever executed.  What is not modelled becomes
an unknown value; nothing is reported about unknown values."""
import ast
import os

from . import expr as X
from .expr import E, num
from .model import Source
from .values import *


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def copy(self):
        return State(dict(self.heap), list(self.pc))


class Leaf:
    __slots__ = ("cond", "kind", "value", "state")

    def __init__(self, cond, kind, value, state):
        self.cond, self.kind, self.value, self.state = cond, kind, value, state


class Scope:
    __slots__ = ("ref", "parent", "globals_", "is_class")

    def __init__(self, ref, parent, is_class=False):
        self.ref, self.parent, self.globals_, self.is_class = ref, parent, None, is_class


class Frame:
    __slots__ = ("func", "module", "self_", "node")

    def __init__(self, func, module, self_):
        self.func, self.module, self.self_, self.node = func, module, self_, None


class Event:
    def __init__(self, kind, loc, detail, pc=()):
        self.kind, self.loc, self.detail, self.pc = kind, loc, detail, tuple(pc)

    def __repr__(self):
        return "%s @%s: %s" % (self.kind, self.loc, self.detail)


def is_generator(node):
    """Whether the function itself (not one defined in it) yields."""
    r = getattr(node, "_generator", None)
    if r is None:
        todo, r = list(node.body), False
        while todo and not r:
            x = todo.pop()
            r = isinstance(x, (ast.Yield, ast.YieldFrom))
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(x))
        node._generator = r
    return r


def eager_generator(node):
    """Body of a generator function that returns the list of its values."""
    if hasattr(node, "_eager"):
        return node._eager
    if any(isinstance(x, ast.While) for x in ast.walk(node)):
        node._eager = None
        return None
    import copy

    class T(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n

        visit_Lambda = visit_FunctionDef

        def visit_Yield(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "append", ast.Load()), [n.value or ast.Constant(None)], [])

        def visit_YieldFrom(self, n):
            self.generic_visit(n)
            return ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "extend", ast.Load()), [n.value], [])

        def visit_Return(self, n):
            return ast.copy_location(ast.Return(ast.Name("__yield__", ast.Load())), n)

    body = [T().visit(copy.deepcopy(x)) for x in node.body]
    body = [ast.Assign([ast.Name("__yield__", ast.Store())], ast.List([], ast.Load()))] + body + [ast.Return(ast.Name("__yield__", ast.Load()))]
    for x in body:
        ast.copy_location(x, node)
        ast.fix_missing_locations(x)
    node._eager = body
    return body


class Interp:
    MAX_DEPTH = 60

    def __init__(self, model, budget=2_000_000):
        from . import builtins_model, npmodel

        self.model = model
        self.stubs = ()
        self.eager = False
        self.record = None          # calls of opaque externals, where wanted
        self.writes = []            # attributes set on classes and modules
        self.func_attrs = set()     # names of attributes set on functions
        self.echo = None            # printed values, where wanted
        self.modules = {}
        self.st = State({}, [])
        self.scope = None
        self.frames = []
        self.events = []
        self.logs = []
        self.try_stack = []
        self.visited = {}
        self.steps = 0
        self.budget = budget
        self.np = npmodel
        self.builtins_model = builtins_model
        self.builtins = builtins_model.make(self)
        self.ext_models = {}
        self.ext_models.update(builtins_model.EXT)
        self.ext_models.update(npmodel.EXT)
        from . import nn_model

        self.ext_models.update(nn_model.EXT)
        self.exc_classes = builtins_model.EXC
        self.opaque = []
        self.oracle = None
        self.wet = True
        self.delayed_ids = set()    # objects created while an element was computed
        self.elem_owner = {}        # object -> (list, position) it was read from
        self.poisoned = set()       # objects changed by a loop in an unknown place

    # ------------------------------------------------------------ basics
    def new(self, rec, kind):
        r = Ref(kind)
        self.st.heap[r.id] = rec
        return r

    def rec(self, ref):
        try:
            return self.st.heap[ref.id]
        except KeyError:
            raise Abort("dangling reference %r" % ref)

    def set(self, ref, rec):
        if self.logs and ref.id in self.delayed_ids:
            own = self.elem_owner.get(ref.id)
            h = self.st.heap
            if own is not None and isinstance(h.get(own[0]), ListR):
                self.log(("store", own[0], (own[1],), None))
                h[own[0]] = ListR(h[own[0]].items)
            else:
                self.poisoned.add(ref.id)
        self.st.heap[ref.id] = rec

    def list(self, items=()):
        return self.new(ListR(items), "list")

    def dict(self, items=None, open=False):
        return self.new(DictR(dict(items or {}), open), "dict")

    def obj(self, cls, attrs=None, tag=None):
        return self.new(ObjR(cls, dict(attrs or {}), tag), "obj")

    def loc(self):
        for f in reversed(self.frames):
            if f.node is not None:
                name = f.func.qual if f.func is not None else f.module.path + ":<module>"
                return "%s:%d" % (name, getattr(f.node, "lineno", 0))
        return "?"

    def where(self):
        for f in reversed(self.frames):
            if f.func is not None:
                return f.func.qual
        return "?"

    def event(self, kind, detail):
        self.events.append(Event(kind, self.loc(), detail, self.st.pc))

    def unk(self, reason, tag=None):
        return Unk(reason, tag)

    def raise_(self, name, message="", args=None):
        cls = self.exc_classes[name]
        exc = self.obj(cls, {"args": tuple(args or ((message,) if message else ()))})
        raise PyRaise(exc, self.loc())

    def E(self, v):
        """Numeric term of a value."""
        if isinstance(v, E):
            if v.op in ("cmp", "not", "and", "or", "true", "false", "isnan"):
                return X.ite(v, X.ONE, X.ZERO)
            return v
        if isinstance(v, (int, bool)):
            return num(int(v))
        if isinstance(v, Choice):
            return X.ite(v.c, self.E(v.a), self.E(v.b))
        if isinstance(v, Unk):
            if v.e is None:
                v.e = X.unk(v.reason)
            return v.e
        if isinstance(v, Ref) and v.kind == "arr":
            r = self.rec(v)
            if all(X.const(num(d)) == 1 for d in r.shape):
                return self.E(self.np.get_fn(self, v)(tuple(0 for _ in r.shape)))
        return X.unk("non-number %r" % (v,))

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        """True / False / None."""
        if c is True or c is False:
            return c
        if not isinstance(c, E):
            return None
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        if self.oracle is not None:
            r = self.oracle(c)
            if r is not None:
                return r
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c.op == "or":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if c.op == "cmp" and X.is_intterm(c.args[1]) and X.is_intterm(c.args[2]):
            r = X.idx_decide(*c.args)
            if r is not None:
                return r
        if c.op == "cmp":
            r = self.tiny(c)
            if r is not None:
                return r
        try:
            k = X.canon_cond(c)
        except X.TooBig:
            k = c
        if k is X.TRUE:
            return True
        if k is X.FALSE:
            return False
        if k is not c and k.op in ("not", "and", "or"):
            return self.decide(k)
        nk = X.not_(k)
        for p in self.st.pc:
            if p is c or p is k:
                return True
            if p is nk:
                return False
            if p.op == "and" and (k in p.args or c in p.args):
                return True
        return None

    def tiny(self, c):
        """Positive quantities exceed the dry tolerance (wet states)."""
        op, a, b = c.args
        ka, kb = X.const(a), X.const(b)
        lim = X.Fraction(1, 10**9)
        if not self.wet:
            return None
        try:
            if X.const(X.canon(a)) is not None and X.const(X.canon(b)) is not None:
                return None
            if kb is not None and 0 < kb <= lim and X.sign_p(X.nf(a)) == 2:
                return False if op in ("<", "<=", "==") else None
            if ka is not None and 0 < ka <= lim and X.sign_p(X.nf(b)) == 2:
                return op in ("<", "<=")
        except X.TooBig:
            pass
        return None

    def assume(self, c):
        if isinstance(c, E):
            try:
                k = X.canon_cond(c)
            except X.TooBig:
                k = c
            self.st.pc.append(k)
            if k.op == "and":
                self.st.pc.extend(k.args)
            if k.op == "not" and k.args[0].op == "or":
                self.st.pc.extend(X.not_(t) for t in k.args[0].args)

    def truth(self, v):
        """bool or condition term."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, str, bytes)):
            return bool(v)
        if isinstance(v, E):
            if v.op in ("cmp", "not", "and", "or", "isnan", "true", "false", "bool"):
                r = self.decide(v)
                return v if r is None else r
            c = X.not_(X.cmp_("==", v, X.ZERO))
            r = self.decide(c)
            return c if r is None else r
        if isinstance(v, tuple):
            return self.seq_truth(v)
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            return self.cond_ite(v.c, a, b)
        if isinstance(v, Ref):
            r = self.rec(v)
            if v.kind == "list":
                return self.seq_truth(r.items)
            if v.kind == "set":
                return bool(r.items)
            if v.kind == "dict":
                if r.items:
                    return True
                return self.fresh_bool("dict") if r.open else False
            if v.kind == "arr":
                n = r.shape
                if len(n) == 0:
                    return self.truth(self.np.get_fn(self, v)(()))
                if all(X.const(num(d)) == 1 for d in n):
                    return self.truth(self.np.get_fn(self, v)(tuple(0 for _ in n)))
                self.event("ambiguous-truth", "truth value of an array with more than one element")
                self.raise_("ValueError", "ambiguous truth value of an array")
            if v.kind == "obj":
                m, _ = r.cls.lookup("__bool__")
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, r.cls), [], {}))
                m, _ = r.cls.lookup("__len__")
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, r.cls), [], {}))
                return True
            return True
        if isinstance(v, Unk):
            return self.fresh_bool(v.reason)
        if isinstance(v, Str):
            return self.fresh_bool("str")
        return True

    def fresh_bool(self, why):
        return X.mk("cmp", "<", X.unk(why), X.ZERO)

    def seq_truth(self, items):
        if any(not isinstance(i, Star) for i in items):
            return True
        if not items:
            return False
        n = self.seq_len(items)
        return self.truth(n)

    def cond_ite(self, c, a, b):
        ca = a if isinstance(a, E) else (X.TRUE if a else X.FALSE)
        cb = b if isinstance(b, E) else (X.TRUE if b else X.FALSE)
        r = X.or_(X.and_(c, ca), X.and_(X.not_(c), cb))
        return True if r is X.TRUE else False if r is X.FALSE else r

    # ------------------------------------------------------------ joins
    def join_value(self, c, a, b):
        if a is b:
            return a
        if a is Missing:
            return b
        if b is Missing:
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else X.not_(c)
        boolish = lambda v: isinstance(v, bool) or (
            isinstance(v, E) and v.op in ("cmp", "not", "and", "or", "isnan", "true", "false")
        )
        if boolish(a) and boolish(b):
            return self.cond_ite(c, a, b)
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if isinstance(a, (int, E)) and isinstance(b, (int, E)):
            return X.ite(c, self.E(a), self.E(b))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if not any(isinstance(t, Star) for t in a + b):
                return tuple(self.join_value(c, s, t) for s, t in zip(a, b))
        if isinstance(a, Unk) and isinstance(b, Unk):
            return a
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.env is b.env:
            return a
        return Choice(c, a, b)

    def join_arrays(self, c, sa, a, sb, b):
        """Join two array references living in two states, in self.st."""
        ra, rb = sa.heap.get(a.id), sb.heap.get(b.id)
        if ra is None or rb is None or len(ra.shape) != len(rb.shape):
            return None
        if not all(self.np.dim_eq(x, y) for x, y in zip(ra.shape, rb.shape)):
            return None
        fa, fb = self.np.get_fn_in(sa, a), self.np.get_fn_in(sb, b)
        return ArrR(ra.shape, self.np.memo(lambda i: self.join_value(c, fa(i), fb(i))), kind=ra.kind)

    def join_deep(self, c, a, b, sa, sb):
        v = self.join_value(c, a, b)
        if isinstance(v, Choice) and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "arr":
            j = self.join_arrays(c, sa, a, sb, b)
            if j is not None:
                return self.new(j, "arr")
        if isinstance(v, tuple) and isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_deep(c, x, y, sa, sb) for x, y in zip(a, b))
        return v

    def join_states(self, c, sa, sb):
        """State that is sa when c holds and sb otherwise."""
        heap = dict(sa.heap)
        out = State(heap, [p for p, q in zip(sa.pc, sb.pc) if p is q])
        save, self.st = self.st, out
        pend = []
        for k, rb in sb.heap.items():
            ra = sa.heap.get(k)
            if ra is rb:
                continue
            if ra is None:
                heap[k] = rb
                continue
            pend.append((k, ra, rb))
        for k, ra, rb in pend:
            heap[k] = self.join_rec(c, ra, rb, sa, sb)
        self.st = save
        return out

    def join_rec(self, c, ra, rb, sa, sb):
        if isinstance(ra, EnvR):
            d = dict(ra.vars)
            for n in set(ra.vars) | set(rb.vars):
                d[n] = self.join_deep(c, ra.vars.get(n, Missing), rb.vars.get(n, Missing), sa, sb)
            return EnvR(d)
        if isinstance(ra, ObjR):
            d = {}
            for n in list(ra.attrs) + [n for n in rb.attrs if n not in ra.attrs]:
                d[n] = self.join_deep(c, ra.attrs.get(n, Missing), rb.attrs.get(n, Missing), sa, sb)
            return ObjR(ra.cls, d, ra.tag)
        if isinstance(ra, ListR):
            if len(ra.items) == len(rb.items) and not any(isinstance(t, Star) for t in ra.items + rb.items):
                return ListR(self.join_deep(c, x, y, sa, sb) for x, y in zip(ra.items, rb.items))
            if len(ra.items) == len(rb.items):
                out = []
                for x, y in zip(ra.items, rb.items):
                    if x is y:
                        out.append(x)
                    elif isinstance(x, Star) and isinstance(y, Star) and self.np.dim_eq(x.length, y.length):
                        out.append(Star(x.length, (lambda fx, fy: lambda k: self.join_value(c, fx(k), fy(k)))(x.fn, y.fn)))
                    elif isinstance(x, Star) or isinstance(y, Star):
                        break
                    else:
                        out.append(self.join_deep(c, x, y, sa, sb))
                else:
                    return ListR(out)
            return ListR([Star(X.unk("list length"), lambda k: Unk("joined list"))])
        if isinstance(ra, DictR):
            d = {}
            for n in list(ra.items) + [n for n in rb.items if n not in ra.items]:
                x, y = ra.items.get(n, Missing), rb.items.get(n, Missing)
                if x is Missing or y is Missing:
                    d[n] = Choice(c, x, y)
                else:
                    d[n] = self.join_deep(c, x, y, sa, sb)
            return DictR(d, ra.open or rb.open)
        if isinstance(ra, SetR):
            if ra.items == rb.items:
                return ra
            return SetR([Unk("joined set")])
        if isinstance(ra, ArrR):
            if ra.base is None and rb.base is None and len(ra.shape) == len(rb.shape):
                fa, fb = ra.fn, rb.fn
                return ArrR(
                    ra.shape,
                    self.np.memo(lambda i: self.join_value(c, fa(i), fb(i))),
                    tag=ra.tag,
                    kind=ra.kind,
                )
            return ra
        if isinstance(ra, SpR):
            fr = lambda pa, pb: lambda i: [(j, X.ite(c, self.E(v), X.ZERO)) for j, v in pa(i)] + [
                (j, X.ite(c, X.ZERO, self.E(v))) for j, v in pb(i)
            ]
            return SpR(ra.shape, fr(ra.row, rb.row), fr(ra.col, rb.col), ra.tag)
        return ra

    def merge_leaves(self, leaves, kind):
        """One leaf for several exclusive ones."""
        acc = leaves[-1]
        value, state, cond = acc.value, acc.state, acc.cond
        for l in reversed(leaves[:-1]):
            st = self.join_states(l.cond, l.state, state)
            self.st, save = st, self.st
            value = self.join_deep(l.cond, l.value, value, l.state, state)
            self.st = save
            state = st
            cond = X.or_(l.cond, cond)
        return Leaf(cond, kind, value, state)

    def fork(self, c, fa, fb):
        """Evaluate both outcomes of an undecided condition and join."""
        r = self.decide(c)
        if r is True:
            return fa()
        if r is False:
            return fb()
        s0 = self.st
        outs = []
        for cond, f in ((c, fa), (X.not_(c), fb)):
            self.st = s0.copy()
            self.assume(cond)
            try:
                v = f()
                outs.append((cond, v, self.st))
            except PyRaise as e:
                self.note_raise(cond, e)
                outs.append(e)
        good = [o for o in outs if not isinstance(o, PyRaise)]
        if not good:
            self.st = s0
            raise outs[0]
        if len(good) == 1:
            self.st = good[0][2]
            return good[0][1]
        (_, va, sa), (_, vb, sb) = good
        self.st = self.join_states(c, sa, sb)
        return self.join_deep(c, va, vb, sa, sb)

    def note_raise(self, cond, e):
        name = self.exc_name(e.exc)
        self.events.append(Event("may-raise", e.loc or self.loc(), name, self.st.pc))
        if self.try_stack:
            self.try_stack[-1].append((cond, self.st, e))

    def exc_name(self, exc):
        if isinstance(exc, Ref) and exc.id in self.st.heap:
            return self.rec(exc).cls.name
        return str(exc)

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        """Module value for an absolute dotted name, or Ext."""
        if name in self.modules:
            return self.modules[name]
        src = self.model.find(name) or self.stub(name)
        if src is None:
            return Ext(name)
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, src.path, src.tree)
        m.is_pkg = src.is_pkg
        self.modules[name] = m
        ref = self.new(EnvR({"__name__": name, "__file__": src.path}), "env")
        m.env = Scope(ref, None)
        saved = (self.scope, self.frames, self.logs, self.try_stack)
        pc, self.st.pc = self.st.pc, []
        self.scope, self.frames, self.logs, self.try_stack = m.env, self.frames + [Frame(None, m, None)], [], []
        try:
            self.block(m.tree.body)
        except PyRaise as e:
            self.event("import-error", "%s raises %s" % (name, self.exc_name(e.exc)))
        finally:
            self.scope, self.frames, self.logs, self.try_stack = saved
            self.st.pc = pc
        m.state = "done"
        if "." in name:
            parent = self.modules.get(name.rsplit(".", 1)[0])
            if parent is not None:
                env = self.rec(parent.env.ref)
                d = dict(env.vars)
                d.setdefault(name.rsplit(".", 1)[1], m)
                self.set(parent.env.ref, EnvR(d))
        return m

    def stub(self, name):
        """Interpreted model (sa/stubs) of a library module, where a check asks for it."""
        if name.split(".")[0] not in self.stubs:
            return None
        base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", *name.split("."))
        for path, is_pkg in ((base + ".py", False), (os.path.join(base, "__init__.py"), True)):
            if os.path.exists(path):
                text = open(path, encoding="utf-8").read()
                return Source(name, "<%s>" % name, ast.parse(text, path), is_pkg, text)
        return None

    def module_attr(self, m, name):
        v = self.rec(m.env.ref).vars.get(name)
        if v is not None or name in self.rec(m.env.ref).vars:
            return v
        sub = m.name + "." + name
        if self.model.find(sub) is not None and sub in self.modules:
            return self.modules[sub]
        return Missing

    def frame_module(self):
        for f in reversed(self.frames):
            if f.module is not None:
                return f.module
        return None

    def s_Import(self, n):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top))

    def s_ImportFrom(self, n):
        if n.level:
            mod = self.frame_module()
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        else:
            base = n.module
        m = self.import_module(base)
        for a in n.names:
            if a.name == "*":
                if isinstance(m, Module):
                    vars = dict(self.rec(m.env.ref).vars)
                    allv = vars.get("__all__")
                    names = [k for k in vars if not k.startswith("_")]
                    if isinstance(allv, Ref) and allv.kind == "list":
                        names = [x for x in self.rec(allv).items if isinstance(x, str)]
                    for k in names:
                        if k in vars:
                            self.store_name(k, vars[k])
                continue
            if isinstance(m, Ext):
                v = self.getattr(m, a.name)
            else:
                v = self.module_attr(m, a.name)
                if v is Missing and m.path.startswith("<") and self.stubs and self.stub(m.name + "." + a.name) is None:
                    v = Ext(m.name + "." + a.name)
                elif v is Missing:
                    sub = self.import_module(m.name + "." + a.name)
                    if isinstance(sub, Module):
                        v = sub
                    else:
                        self.event("import-name", "%s has no name %s" % (m.name, a.name))
                        v = self.unk("import %s.%s" % (m.name, a.name), "missing-import")
            self.store_name(a.asname or a.name, v)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for i, s in enumerate(stmts):
            leaves = self.stmt(s)
            if leaves is None:
                continue
            normals = [l for l in leaves if l.kind == "normal"]
            out = [l for l in leaves if l.kind != "normal"]
            if not normals:
                return out
            n = self.merge_leaves(normals, "normal")
            self.st = n.state
            if not out:
                continue
            try:
                rest = self.block(stmts[i + 1:])
            except PyRaise as e:
                self.note_raise(n.cond, e)
                return out
            for r in rest:
                r.cond = X.and_(n.cond, r.cond)
            return out + rest
        return [Leaf(X.TRUE, "normal", None, self.st)]

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.budget:
            raise Abort("step budget")
        if self.frames:
            self.frames[-1].node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.event("unmodelled", type(s).__name__)
            return None
        return m(s)

    def s_Expr(self, n):
        self.eval(n.value)

    def s_Pass(self, n):
        pass

    def s_Global(self, n):
        self.scope.globals_ = set(self.scope.globals_ or ()) | set(n.names)

    s_Nonlocal = s_Global

    def s_Return(self, n):
        v = self.eval(n.value) if n.value is not None else None
        return [Leaf(X.TRUE, "ret", v, self.st)]

    def s_Break(self, n):
        return [Leaf(X.TRUE, "brk", None, self.st)]

    def s_Continue(self, n):
        return [Leaf(X.TRUE, "cont", None, self.st)]

    def s_Raise(self, n):
        if n.exc is None:
            cur = getattr(self, "current_exc", None)
            raise PyRaise(cur, self.loc())
        v = self.eval(n.exc)
        if isinstance(v, (Cls, Native)):
            v = self.call(v, [], {})
        raise PyRaise(v, self.loc())

    def s_Assert(self, n):
        c = self.truth(self.eval(n.test))
        if c is True:
            return
        if c is False:
            self.raise_("AssertionError")
        s0 = self.st
        self.st = s0.copy()
        try:
            self.raise_("AssertionError")
        except PyRaise as e:
            self.note_raise(X.not_(c), e)
        self.st = s0
        self.assume(c)

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                env = self.rec(self.scope.ref)
                d = dict(env.vars)
                d.pop(t.id, None)
                self.set(self.scope.ref, EnvR(d))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.del_attr(o, t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_index(t.slice)
                self.del_item(o, k)

    def del_attr(self, o, name):
        if isinstance(o, Ref) and o.kind == "obj":
            r = self.rec(o)
            if name not in r.attrs:
                if not r.cls.external and not getattr(r.tag, "open", False):
                    self.event("attribute-error", "del %s.%s" % (r.cls.name, name))
                    self.raise_("AttributeError", name)
                return
            d = dict(r.attrs)
            v = d.pop(name)
            if isinstance(v, Choice) and (v.a is Missing or v.b is Missing):
                self.event("attribute-error", "del %s.%s" % (r.cls.name, name))
            self.set(o, ObjR(r.cls, d, r.tag))

    def del_item(self, o, k):
        if isinstance(o, Ref) and o.kind == "dict":
            r = self.rec(o)
            d = dict(r.items)
            key = self.key(k)
            if key not in d and not r.open:
                self.raise_("KeyError", str(key))
            d.pop(key, None)
            self.set(o, DictR(d, r.open))
        elif isinstance(o, Ref) and o.kind == "list":
            r = self.rec(o)
            items = r.items
            try:
                if isinstance(k, Slice) and not any(isinstance(x, Star) for x in items):
                    py = list(items)
                    del py[slice(*[self.pyint(x) for x in (k.start, k.stop, k.step)])]
                    self.set(o, ListR(py))
                    return
                if isinstance(k, int) and not any(isinstance(x, Star) for x in items):
                    py = list(items)
                    del py[k]
                    self.set(o, ListR(py))
                    return
            except (TypeError, IndexError):
                pass
            self.set(o, ListR([Star(X.unk("list length"), lambda k: Unk("list after del"))]))

    def pyint(self, v):
        if v is None or isinstance(v, int):
            return v
        c = X.const(v) if isinstance(v, E) else None
        if c is not None and c.denominator == 1:
            return int(c)
        raise TypeError

    def s_If(self, n):
        c = self.truth(self.eval(n.test))
        if c is True:
            return self.sub(n.body)
        if c is False:
            return self.sub(n.orelse) if n.orelse else None
        s0 = self.st
        leaves = []
        errs = []
        for cond, body in ((c, n.body), (X.not_(c), n.orelse)):
            self.st = s0.copy()
            self.assume(cond)
            try:
                self.narrow(n.test, cond is c)
                ls = self.block(body)
                for l in ls:
                    l.cond = X.and_(cond, l.cond)
                leaves += ls
            except PyRaise as e:
                self.note_raise(cond, e)
                errs.append(e)
        if not leaves:
            self.st = s0
            raise errs[0]
        return leaves

    def narrow(self, test, outcome):
        """Refine a choice-valued name after a test on it."""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        out = outcome != neg
        target = test
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            target = test.left
        if isinstance(target, ast.Name):
            v = self.lookup(target.id)
            if isinstance(v, Choice):
                d = self.decide(v.c)
                if d is not None:
                    self.store_existing(target.id, v.a if d else v.b)

    def store_existing(self, name, v):
        s = self.scope
        while s is not None:
            env = self.rec(s.ref)
            if name in env.vars:
                d = dict(env.vars)
                d[name] = v
                self.set(s.ref, EnvR(d))
                return
            s = s.parent

    def sub(self, body):
        ls = self.block(body)
        if len(ls) == 1 and ls[0].kind == "normal":
            self.st = ls[0].state
            return None
        return ls

    def s_Assign(self, n):
        v = self.eval(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value))

    def s_AugAssign(self, n):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            delta = self.eval(n.value)
            new = self.inplace(op, old, delta)
            if self.logs and op in ("Add", "Sub"):
                sref = self.scope_of(t.id)
                self.log(("augvar", sref.id, t.id, op, delta))
            self.store_name(t.id, new, aug=True)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            delta = self.eval(n.value)
            new = self.inplace(op, old, delta)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            if self.logs and op in ("Add", "Sub", "BitOr"):
                delta = self.eval(n.value)
                if self.aug_item(o, k, op, delta):
                    return
                old = self.getitem(o, k)
                self.setitem(o, k, self.inplace(op, old, delta))
                return
            old = self.getitem(o, k)
            delta = self.eval(n.value)
            if isinstance(old, Ref) and old.kind == "arr":
                new = self.inplace(op, old, delta)
                if self.rec(new).base is None or new is not old:
                    self.setitem(o, k, new)
            else:
                self.setitem(o, k, self.inplace(op, old, delta))

    def aug_item(self, o, k, op, delta):
        """Accumulation into an element while a loop is being summarised."""
        if isinstance(o, Ref) and o.kind == "obj" :
            r = self.rec(o)
            g, _ = r.cls.lookup("__setitem__")
            if isinstance(g, Func) and len(g.node.body) == 1:
                st = g.node.body[0]
                if (
                    isinstance(st, ast.Assign)
                    and isinstance(st.targets[0], ast.Subscript)
                    and isinstance(st.targets[0].value, ast.Attribute)
                    and isinstance(st.targets[0].value.value, ast.Name)
                    and isinstance(st.targets[0].slice, ast.Name)
                    and isinstance(st.value, ast.Name)
                ):
                    inner = self.getattr(o, st.targets[0].value.attr)
                    return self.aug_item(inner, k, op, delta)
            return False
        if isinstance(o, Ref) and o.kind in ("arr", "sp", "list"):
            return self.np.accumulate(self, o, k, op, delta)
        return False

    def inplace(self, op, old, delta):
        if isinstance(old, Ref) and old.kind == "arr":
            return self.np.inplace(self, op, old, delta)
        if isinstance(old, Ref) and old.kind == "list" and op == "Add":
            items = self.seq_items(delta)
            self.set(old, ListR(self.rec(old).items + tuple(items)))
            return old
        if isinstance(old, Ref) and old.kind == "set":
            r = self.binop(op, old, delta)
            if isinstance(r, Ref):
                self.set(old, self.rec(r))
                return old
            return r
        return self.binop(op, old, delta)

    def s_FunctionDef(self, n):
        f = self.make_func(n)
        for d in reversed(n.decorator_list):
            f = self.decorate(d, f)
        self.store_name(n.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, f):
        if isinstance(d, ast.Name) and d.id in ("abstractmethod",):
            return f
        if isinstance(d, ast.Name) and d.id == "property":
            return Prop(f)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticM(f)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClassM(f)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            old = self.eval(d.value)
            if isinstance(old, Prop):
                return Prop(old.fget, f)
        if isinstance(d, ast.Attribute) and d.attr == "abstractmethod":
            return f
        name = d.id if isinstance(d, ast.Name) else getattr(d, "attr", None)
        if name in ("cached_property",):
            return Prop(f)
        if name in ("wraps", "no_grad", "override"):
            return f
        dv = self.eval(d)
        if isinstance(dv, (Ext, Unk)):
            if isinstance(dv, Ext) and dv.name.startswith(("functools.", "typing.", "abc.")):
                return f if not dv.name.endswith("cached_property") else Prop(f)
            return f
        return self.call(dv, [f], {})

    def make_func(self, n, name=None):
        a = n.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        scope = self.scope
        if scope is not None and scope.is_class:
            scope = scope.parent
        return Func(n, scope, self.frame_module(), name or getattr(n, "name", "<lambda>"), defaults, kwd)

    def s_ClassDef(self, n):
        bases = []
        for b in n.bases:
            v = self.eval(b)
            if isinstance(v, (Cls, Native)):
                bases.append(v)
            elif isinstance(v, Ext):
                nat = self.ext_models.get(v.name)
                if isinstance(nat, Native):
                    bases.append(nat)
                elif v.name.split(".")[0] in ("abc", "typing"):
                    continue
                else:
                    bases.append(v)
            elif isinstance(v, Unk):
                bases.append(Ext("unknown." + (v.reason or "?")))
        ref = self.new(EnvR({}), "env")
        outer = self.scope
        self.scope = Scope(ref, outer, True)
        try:
            self.block(n.body)
        finally:
            self.scope = outer
        ns = dict(self.rec(ref).vars)
        cls = Cls(n.name, bases, ns, self.frame_module(), n)
        ann = [s.target.id for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        cls.annotations = ann
        for v in ns.values():
            for f in (v, getattr(v, "fget", None), getattr(v, "fset", None), getattr(v, "f", None)):
                if isinstance(f, Func) and f.defcls is None:
                    f.defcls = cls
        v = cls
        for d in reversed(n.decorator_list):
            dv = self.eval(d)
            if isinstance(dv, Func):
                v = self.call(dv, [v], {})
        self.store_name(n.name, v)

    # loops ------------------------------------------------------------
    def lazy_items(self, v, n):
        """Items of an iterator object, produced while the loop runs (None: other values)."""
        if not (isinstance(v, Ref) and v.kind == "obj"):
            return None
        m, c = self.rec(v).cls.lookup("__iter__")
        if m is None or self.rec(v).cls.lookup("__next__")[0] is None and not isinstance(m, Func):
            return None
        it = self.call(self.bind(m, v, c), [], {})
        if not (isinstance(it, Ref) and it.kind == "obj"):
            return self.iterate(it)
        nx, c2 = self.rec(it).cls.lookup("__next__")
        if nx is None:
            return None

        def gen():
            for q in range(200):
                n0 = len(self.events)
                saved = self.st.copy()
                try:
                    x = self.call(self.bind(nx, it, c2), [], {})
                except PyRaise as e:
                    if self.exc_name(e.exc) == "StopIteration":
                        return
                    raise
                if any(e.kind == "may-raise" and e.detail == "StopIteration" for e in self.events[n0:]):
                    self.st = saved
                    break
                yield x
            yield Star(X.unk("iterator"), self.delayed(lambda k: self.call(self.bind(nx, it, c2), [], {})))

        return gen()

    def s_For(self, n):
        it = self.eval(n.iter)
        items = self.lazy_items(it, n)
        if items is None:
            items = self.iterate(it)
        done = []
        cond = X.TRUE
        for item in items:
            if isinstance(item, Star):
                res = self.summarise(n.target, item, n.body)
                if res:
                    done += res
                continue
            self.assign(n.target, item)
            leaves = self.block(n.body)
            norm = []
            for l in leaves:
                if l.kind in ("normal", "cont"):
                    norm.append(Leaf(l.cond, "normal", None, l.state))
                else:
                    done.append(Leaf(X.and_(cond, l.cond), l.kind, l.value, l.state))
            if not norm:
                return [Leaf(d.cond, "normal" if d.kind == "brk" else d.kind, d.value, d.state) for d in done]
            m = self.merge_leaves(norm, "normal")
            self.st = m.state
            cond = X.and_(cond, m.cond)
        if n.orelse:
            tail = self.block(n.orelse)
        else:
            tail = [Leaf(X.TRUE, "normal", None, self.st)]
        if not done:
            if len(tail) == 1 and tail[0].kind == "normal":
                self.st = tail[0].state
                return None
            return tail
        for t in tail:
            t.cond = X.and_(cond, t.cond)
        return [Leaf(d.cond, "normal" if d.kind == "brk" else d.kind, d.value, d.state) for d in done] + tail

    def s_While(self, n):
        for _ in range(300):
            c = self.truth(self.eval(n.test))
            if c is False:
                return self.sub(n.orelse) if n.orelse else None
            if c is not True:
                return self.havoc_loop(n, c)
            leaves = self.block(n.body)
            norm = [l for l in leaves if l.kind in ("normal", "cont")]
            oth = [l for l in leaves if l.kind not in ("normal", "cont")]
            if not norm:
                return [Leaf(l.cond, "normal" if l.kind == "brk" else l.kind, l.value, l.state) for l in oth]
            if oth:
                self.st = self.merge_leaves(norm, "normal").state
                return self.havoc_loop(n, None, oth)
            self.st = self.merge_leaves(norm, "normal").state
        return self.havoc_loop(n, None)

    def havoc_loop(self, n, c, extra=()):
        """A loop that is not understood: forget what its body may change."""
        pre = self.st
        self.st = pre.copy()
        try:
            leaves = self.block(n.body)
        except PyRaise as e:
            self.note_raise(X.TRUE, e)
            leaves = []
        for l in leaves:
            self.st = pre
            for k, r in list(l.state.heap.items()):
                old = pre.heap.get(k)
                if old is None:
                    pre.heap[k] = r
                elif old is not r:
                    pre.heap[k] = self.havoc_rec(old, r)
        self.st = pre
        rets = [l for l in leaves if l.kind == "ret"]
        if rets:
            b = self.fresh_bool("loop return")
            return [Leaf(b, "ret", rets[0].value, rets[0].state), Leaf(X.not_(b), "normal", None, self.st)]
        return None

    def havoc_rec(self, old, new):
        U = lambda: Unk("loop")
        if isinstance(old, EnvR):
            return EnvR({k: (v if old.vars.get(k, Missing) is v else U()) for k, v in new.vars.items()})
        if isinstance(old, ObjR):
            return ObjR(old.cls, {k: (v if old.attrs.get(k, Missing) is v else U()) for k, v in new.attrs.items()}, old.tag)
        if isinstance(old, ListR):
            return ListR([Star(X.unk("loop"), lambda k: Unk("loop"))])
        if isinstance(old, DictR):
            return DictR({k: (v if old.items.get(k, Missing) is v else U()) for k, v in new.items.items()}, True)
        if isinstance(old, ArrR):
            u = X.unk("loop")
            return ArrR(old.shape, lambda i: u, tag=old.tag) if old.base is None else old
        if isinstance(old, SpR):
            return SpR(old.shape, lambda i: [(X.unk("loop"), X.unk("loop"))], lambda i: [(X.unk("loop"), X.unk("loop"))], old.tag)
        return old

    def log(self, entry):
        if self.logs:
            self.logs[-1].append(entry)

    def probe(self, base, target, star, k, body):
        """Run one iteration k of a summarised loop on a copy of `base`."""
        saved, slog = self.st, self.logs
        self.st = base.copy()
        self.logs = slog + [[]]
        try:
            self.assign(target, star.fn(k))
            leaves = self.block(body)
            norm = [l for l in leaves if l.kind in ("normal", "cont")]
            other = [l for l in leaves if l.kind not in ("normal", "cont")]
            state = self.merge_leaves(norm, "normal").state if norm else None
            return state, self.logs[-1], other
        finally:
            self.st, self.logs = saved, slog

    def summarise(self, target, star, body):
        pre = self.st
        name = "k%d" % id(star)
        kname = "κ%d" % len(X._BYID)
        k = X.sym(kname, "idx")
        X.IDXLEN[kname] = num(star.length) if not isinstance(star.length, E) else star.length
        try:
            st1, log1, oth1 = self.probe(pre, target, star, k, body)
        except PyRaise as e:
            self.note_raise(self.fresh_bool("loop raise"), e)
            return None
        if st1 is None:
            if oth1:
                b = self.fresh_bool("loop exit")
                self.event("unmodelled", "loop leaves early")
                return [Leaf(b, o.kind, o.value, o.state) for o in oth1[:1]]
            return None
        tnames = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        env_id = self.scope.ref.id
        changed = [i for i, r in pre.heap.items() if st1.heap.get(i) is not r]
        base = pre.copy()
        marks = {}
        lcs = {}
        for i in changed:
            old, new = pre.heap[i], st1.heap[i]
            if isinstance(old, EnvR):
                d = dict(old.vars)
                for v in new.vars:
                    if old.vars.get(v, Missing) is not new.vars[v] and v in old.vars and not (i == env_id and v in tnames):
                        d[v] = Unk("loop-carried")
                        marks[(i, v)] = True
                base.heap[i] = EnvR(d)
            elif isinstance(old, ObjR):
                d = dict(old.attrs)
                for v in new.attrs:
                    if old.attrs.get(v, Missing) is not new.attrs[v] and v in old.attrs:
                        d[v] = Unk("loop-carried")
                base.heap[i] = ObjR(old.cls, d, old.tag)
            elif isinstance(old, ArrR) and old.base is None:
                base.heap[i], lcs[i] = self.np.lc_array(old)
            elif isinstance(old, SpR):
                base.heap[i] = self.np.lc_sparse(old)
        try:
            st2, log2, oth2 = self.probe(base, target, star, k, body)
        except PyRaise:
            st2 = None
        if st2 is None:
            for i in changed:
                self.st.heap[i] = self.havoc_rec(pre.heap[i], st1.heap[i])
            return None
        scope = self.scope
        cache = {}

        def at(kk):
            key = num(kk).id
            if key not in cache:
                ss, fs = self.scope, self.frames
                self.scope = scope
                try:
                    cache[key] = self.probe(base, target, star, kk, body)
                except PyRaise:
                    cache[key] = (None, [], [])
                finally:
                    self.scope, self.frames = ss, fs
            return cache[key]

        def run(i, rec, extra, kk):
            """State after iteration kk started with the record `rec` of object i."""
            b = base.copy()
            b.heap.update(extra)
            b.heap[i] = rec
            ss, fs = self.scope, self.frames
            self.scope = scope
            try:
                return self.probe(b, target, star, kk, body)[0]
            except PyRaise:
                return None
            finally:
                self.scope, self.frames = ss, fs

        n = star.length
        last = n - 1 if isinstance(n, int) else self.np.simp(num(n) - 1)
        for i in changed:
            old, new = pre.heap[i], st2.heap.get(i)
            if isinstance(old, EnvR):
                d = dict(old.vars)
                for v, val in new.vars.items():
                    if old.vars.get(v, Missing) is val:
                        continue
                    augs = [g for g in log2 if g[0] == "augvar" and g[1] == i and g[2] == v]
                    writes = [g for g in log2 if g[0] == "setvar" and g[1] == i and g[2] == v]
                    if v in tnames and i == env_id:
                        d[v] = val
                    elif augs and not writes and v in old.vars and is_num(old.vars[v]):
                        tot = self.E(old.vars[v])
                        ok = True
                        for q in range(len(augs)):
                            def delta(kk, q=q, v=v, i=i):
                                lg = [g for g in at(kk)[1] if g[0] == "augvar" and g[1] == i and g[2] == v]
                                if q >= len(lg):
                                    return X.unk("loop")
                                x = self.E(lg[q][4])
                                return x if lg[q][3] == "Add" else -x
                            tot = tot + self.np.reduce_sum(self, delta, n)
                        d[v] = tot
                    elif augs and not writes and v in old.vars and isinstance(old.vars[v], Ref) and old.vars[v].kind == "arr":
                        d[v] = Unk("accumulated array")
                        ov = old.vars[v]
                        self.st.heap[ov.id] = self.np.acc_array(self, pre, ov, augs, at, i, v, n)
                        d[v] = ov
                    elif v not in old.vars or not self.carried(val, st2):
                        stl, _, _ = at(last)
                        if stl is not None:
                            self.import_new(stl)
                            d[v] = stl.heap[i].vars.get(v, Unk("loop"))
                        else:
                            d[v] = Unk("loop")
                    else:
                        d[v] = Unk("loop-carried")
                self.st.heap[i] = EnvR(d)
            elif isinstance(old, ObjR):
                d = dict(old.attrs)
                for v, val in new.attrs.items():
                    if old.attrs.get(v, Missing) is val:
                        continue
                    if self.carried(val, st2):
                        d[v] = Unk("loop-carried")
                    else:
                        stl, _, _ = at(last)
                        if stl is not None:
                            self.import_new(stl)
                            d[v] = stl.heap[i].attrs.get(v, Unk("loop"))
                        else:
                            d[v] = Unk("loop")
                self.st.heap[i] = ObjR(old.cls, d, old.tag)
            elif isinstance(old, ArrR):
                if old.base is None:
                    self.st.heap[i] = self.np.loop_array(self, old, i, at, k, n, log2, lcs.get(i))
            elif isinstance(old, SpR):
                self.st.heap[i] = self.np.loop_sparse(self, old, i, at, k, n, log2)
            elif isinstance(old, ListR):
                self.st.heap[i] = self.loop_list(old, new, i, at, k, n, log2, run)
            else:
                self.st.heap[i] = self.havoc_rec(old, new)
        for g in log2:
            if g[0] == "store":
                self.log(g)
        # effects of the loop for per-iteration rules
        self.loop_effects = getattr(self, "loop_effects", [])
        self.loop_effects.append((self.loc(), k, n, log2, at))
        if oth1:
            self.event("unmodelled", "loop may leave early")
            return [Leaf(self.fresh_bool("loop exit"), o.kind, o.value, o.state) for o in oth1[:1]]
        return None

    def carried(self, v, st):
        if isinstance(v, E):
            return X.contains(v, lambda t: t.op == "unk" and t.args[1] == "loop-carried" and not isinstance(t.args[0], tuple))
        if isinstance(v, Unk):
            return v.reason == "loop-carried"
        return False

    def loop_list(self, old, new, i, at, k, n, log, run):
        stores = [g for g in log if g[0] in ("store", "accum") and g[1] == i]
        olditems, newitems = old.items, new.items
        m = len(newitems) - len(olditems)
        if not stores and m == 1 and all(a is b for a, b in zip(olditems, newitems)):
            pos = len(olditems)

            def fn(kk):
                st, _, _ = at(kk)
                if st is None:
                    return Unk("loop list")
                self.import_new(st)
                return st.heap[i].items[pos]

            return ListR(olditems + (Star(n, fn),))
        if stores and len(olditems) == 1 and isinstance(olditems[0], Star):
            return self.np.loop_list_store(self, old, i, run, k, n, log)
        if not stores and m == 0 and all(a is b for a, b in zip(olditems, newitems)):
            return old
        return ListR([Star(X.unk("loop list"), lambda k: Unk("loop list"))])

    def import_new(self, st):
        h = self.st.heap
        for k, r in st.heap.items():
            if k not in h:
                h[k] = r

    def delayed(self, f, scope=None):
        """Closure running f(k) on a snapshot of the current state."""
        snap = self.st.copy()
        scope = scope or self.scope
        frames = list(self.frames)
        memo = {}
        raised = {}

        def run(k):
            key = num(k).id
            if key in memo:
                v, st, ids = memo[key]
                if self.poisoned and ids & self.poisoned:
                    return Unk("element changed in a loop")
                self.import_new(st)
                return v
            saved = (self.st, self.scope, self.frames, self.logs, self.try_stack)
            self.st, self.scope, self.frames, self.logs, self.try_stack = snap.copy(), scope, frames, [], []
            self.st.pc = list(snap.pc)
            try:
                v = f(k)
            except PyRaise as e:
                self.event("may-raise", self.exc_name(e.exc))
                v = Unk("raises in element")
                raised[key] = e
            finally:
                st = self.st
                self.st, self.scope, self.frames, self.logs, self.try_stack = saved
            ids = frozenset(q for q in st.heap if q not in snap.heap)
            self.delayed_ids |= ids
            memo[key] = (v, st, ids)
            self.import_new(st)
            return v

        run.raised = raised
        return run

    def first_element(self, star):
        """The first element of a sequence known not to be empty is computed."""
        if not self.eager or not isinstance(star.length, E) or star.length.op == "unk" or X.sign_e(star.length) != 2:
            return
        star.fn(num(0))
        e = star.fn.raised.get(num(0).id)
        if e is not None:
            raise e

    # try / with ---------------------------------------------------------
    def s_Try(self, n):
        frame = []
        self.try_stack.append(frame)
        s_entry = self.st.copy()
        nop = len(self.opaque)
        err = None
        try:
            leaves = self.block(n.body)
        except PyRaise as e:
            err, leaves = e, []
            err_state = self.st
        finally:
            self.try_stack.pop()
        alts = list(frame)
        if err is not None:
            alts.append((X.TRUE, err_state, err))
        out = []
        for h in n.handlers:
            names = self.handler_types(h)
            for alt in list(alts):
                cond, st, e = alt
                m = self.exc_matches(e.exc, names, st)
                if not m:
                    continue
                alts.remove(alt)
                out += self.run_handler(h, cond, st, e.exc)
            if err is None and len(self.opaque) > nop and not frame and not self.own(names):
                # whether an external operation fails depends on the place
                site = "%s:%d" % (self.frames[-1].module.path, n.lineno)
                b = X.cmp_("<", X.sym(("external failure", site), "real"), X.ZERO)
                st = s_entry.copy()
                self.st = st
                exc = Unk("external exception")
                out += self.run_handler(h, b, st, exc)
        for cond, st, e in alts:
            if err is not None and e is err:
                continue
            if self.try_stack:
                self.try_stack[-1].append((cond, st, e))
        if err is not None and any(a[2] is err for a in alts):
            if not out:
                self.st = err_state
                raise err
        if n.orelse and leaves:
            norm = [l for l in leaves if l.kind == "normal"]
            rest = [l for l in leaves if l.kind != "normal"]
            if norm:
                m = self.merge_leaves(norm, "normal")
                self.st = m.state
                els = self.block(n.orelse)
                for l in els:
                    l.cond = X.and_(m.cond, l.cond)
                leaves = rest + els
        res = out + leaves
        if n.finalbody:
            fin = []
            for l in res:
                self.st = l.state
                for q in self.block(n.finalbody):
                    if q.kind == "normal":
                        fin.append(Leaf(l.cond, l.kind, l.value, q.state))
                    else:
                        fin.append(Leaf(X.and_(l.cond, q.cond), q.kind, q.value, q.state))
            res = fin
        if not res:
            self.raise_("Exception")
        return res

    def run_handler(self, h, cond, st, exc):
        self.st = st.copy()
        if h.name:
            self.store_name(h.name, exc)
        save = getattr(self, "current_exc", None)
        self.current_exc = exc
        try:
            ls = self.block(h.body)
        except PyRaise as e:
            self.note_raise(cond, e)
            return []
        finally:
            self.current_exc = save
        for l in ls:
            l.cond = X.and_(cond, l.cond)
        return ls

    def handler_types(self, h):
        if h.type is None:
            return None
        v = self.eval(h.type)
        return list(v) if isinstance(v, tuple) else [v]

    def own(self, types):
        """Exception classes of the program: libraries do not raise them."""
        return types is not None and all(isinstance(t, Cls) and t.module is not None and not t.module.path.startswith("<") for t in types)

    def exc_matches(self, exc, types, st):
        if types is None:
            return True
        if not isinstance(exc, Ref):
            return True
        rec = st.heap.get(exc.id) or self.st.heap.get(exc.id)
        if rec is None or not isinstance(rec, ObjR):
            return True
        for t in types:
            if isinstance(t, (Cls, Native)) and rec.cls.is_sub(t):
                return True
            if isinstance(t, (Unk,)):
                return True
        return False

    def s_With(self, n):
        for item in n.items:
            v = self.eval(item.context_expr)
            if isinstance(v, Ref) and v.kind == "obj" and self.rec(v).cls.lookup("__enter__")[0] is not None:
                m, c = self.rec(v).cls.lookup("__enter__")
                ent = self.call(self.bind(m, v, c), [], {})
            else:
                ent = v if not isinstance(v, Unk) else Unk("with " + v.reason, v.tag)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, ent)
        return self.sub(n.body)

    # ------------------------------------------------------------ names
    def scope_of(self, name):
        s = self.scope
        if s.globals_ and name in s.globals_:
            s = s.parent
            while s is not None:
                if name in self.rec(s.ref).vars:
                    return s.ref
                s = s.parent
        return self.scope.ref

    def store_name(self, name, v, aug=False):
        ref = self.scope_of(name)
        env = self.rec(ref)
        d = dict(env.vars)
        d[name] = v
        self.st.heap[ref.id] = EnvR(d)
        if self.logs and not aug:
            self.log(("setvar", ref.id, name))

    def lookup(self, name):
        s = self.scope
        while s is not None:
            v = self.st.heap[s.ref.id].vars.get(name, Missing)
            if v is not Missing:
                return v
            s = s.parent
        if name in self.builtins:
            return self.builtins[name]
        return Missing

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, elts, v):
        if isinstance(v, Choice):
            # distribute over the choice
            outs = []
            for side in (v.a, v.b):
                items = self.seq_items(side) if not isinstance(side, Unk) else None
                outs.append(items)
            if outs[0] is not None and outs[1] is not None and len(outs[0]) == len(outs[1]) == len(elts):
                if not any(isinstance(x, Star) for x in outs[0] + outs[1]):
                    for t, x, y in zip(elts, *outs):
                        self.assign(t, self.join_deep(v.c, x, y, self.st, self.st))
                    return
            v = Unk("choice")
        if isinstance(v, Unk) or isinstance(v, Str) or isinstance(v, Ext):
            for t in elts:
                self.assign(t, Unk("item of " + getattr(v, "reason", "?"), getattr(v, "tag", None)))
            return
        items = list(self.iterate(v))
        stars = [i for i, t in enumerate(elts) if isinstance(t, ast.Starred)]
        if stars:
            s = stars[0]
            after = len(elts) - s - 1
            if any(isinstance(x, Star) for x in items[:s] + (items[len(items) - after:] if after else [])):
                items = self.expand(items, s, after)
            mid = items[s: len(items) - after]
            for t, x in zip(elts[:s], items[:s]):
                self.assign(t, x)
            self.assign(elts[s], self.list(mid))
            if after:
                for t, x in zip(elts[s + 1:], items[len(items) - after:]):
                    self.assign(t, x)
            return
        if len(items) != len(elts) or any(isinstance(x, Star) for x in items):
            if any(isinstance(x, Star) for x in items):
                out = []
                for q in range(len(elts)):
                    out.append(self.seq_get(tuple(items), q))
                items = out
            else:
                self.event("unpack-mismatch", "%d values for %d targets" % (len(items), len(elts)))
                self.raise_("ValueError", "unpack")
        for t, x in zip(elts, items):
            self.assign(t, x)

    def expand(self, items, first, last):
        out = []
        total = self.seq_len(tuple(items))
        t = tuple(items)
        head = [self.seq_get(t, q) for q in range(first)]
        tail = [self.seq_get(t, self.np.simp(num(total) - (last - q))) for q in range(last)]
        ln = self.np.simp(num(total) - first - last)
        return head + [Star(ln, lambda k: self.seq_get(t, self.np.simp(num(k) + first)))] + tail

    # ------------------------------------------------------------ sequences
    def seq_items(self, v):
        """Items (with Stars) of a sequence value."""
        return list(self.iterate(v))

    def seq_len(self, items):
        n = 0
        sym = X.ZERO
        for i in items:
            if isinstance(i, Star):
                if isinstance(i.length, int):
                    n += i.length
                else:
                    sym = sym + i.length
            else:
                n += 1
        if sym is X.ZERO:
            return n
        return self.np.simp(sym + n)

    def seq_get(self, items, i):
        if not any(isinstance(x, Star) for x in items):
            if isinstance(i, E):
                c = X.const(i)
                if c is None:
                    total = len(items)
                    d = self.np.simp(i)
                    c = X.const(d)
                if c is None:
                    if not items:
                        self.raise_("IndexError")
                    # choose by cases
                    v = items[-1]
                    for q in range(len(items) - 2, -1, -1):
                        v = self.join_deep(X.cmp_("==", i, num(q)), items[q], v, self.st, self.st)
                    return v if len(items) <= 12 else Unk("index")
                i = int(c)
            if not -len(items) <= i < len(items):
                self.raise_("IndexError", "index out of range")
            return items[i]
        total = self.seq_len(items)
        i = num(i)
        if X.isign(i) == -1:
            i = self.np.simp(i + total)
        pos = X.ZERO
        for x in items:
            ln = x.length if isinstance(x, Star) else 1
            end = pos + ln
            r = X.idx_decide("<", i, end)
            if r is None:
                return Unk("undecided index")
            if r:
                if isinstance(x, Star):
                    return x.fn(self.np.simp(i - pos))
                return x
            pos = self.np.simp(end)
        self.raise_("IndexError", "index out of range")

    def iterate(self, v):
        """List of items and Stars of an iterable value."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeV):
            a, b, s = v.start, v.stop, v.step
            if all(isinstance(x, int) for x in (a, b, s)):
                r = range(a, b, s)
                if len(r) > 400:
                    return [Star(len(r), lambda k: self.np.simp_int(num(a) + num(k) * s))]
                return list(r)
            if s == 1:
                n = self.np.simp_int(num(b) - a)
                if isinstance(n, int):
                    return [self.np.simp_int(num(a) + q) for q in range(max(n, 0))]
                return [Star(n, lambda k: self.np.simp_int(num(a) + num(k)))]
            if s == -1:
                n = self.np.simp_int(num(a) - b)
                if isinstance(n, int):
                    return [self.np.simp_int(num(a) - q) for q in range(max(n, 0))]
                return [Star(n, lambda k: self.np.simp_int(num(a) - num(k)))]
            return [Star(X.unk("range"), lambda k: Unk("range"))]
        if isinstance(v, Choice):
            r = self.decide(v.c)
            if r is not None:
                return self.iterate(v.a if r else v.b)
            a, b = self.iterate(v.a), self.iterate(v.b)
            if len(a) == len(b) and not any(isinstance(x, Star) for x in a + b):
                return [self.join_deep(v.c, x, y, self.st, self.st) for x, y in zip(a, b)]
            return [Star(X.unk("choice"), lambda k: Unk("choice element"))]
        if isinstance(v, Ref):
            r = self.rec(v)
            if v.kind == "list":
                return list(r.items)
            if v.kind == "set":
                return list(r.items)
            if v.kind == "dict":
                items = list(r.items)
                if r.open:
                    items.append(Star(X.unk("dict"), lambda k: Unk("key")))
                return items
            if v.kind == "arr":
                return self.np.iter_items(self, v)
            if v.kind == "obj":
                m, c = r.cls.lookup("__iter__")
                if m is not None:
                    it = self.call(self.bind(m, v, c), [], {})
                    if isinstance(it, Ref) and it.kind == "obj":
                        nx, c2 = self.rec(it).cls.lookup("__next__")
                        if nx is not None:
                            return [Star(X.unk("iterator"), self.delayed(lambda k: self.call(self.bind(nx, it, c2), [], {})))]
                        return [Star(X.unk("iterator"), lambda k: Unk("item"))]
                    return self.iterate(it)
                m, c = r.cls.lookup("__getitem__")
                if m is not None:
                    ln = self.len(v)
                    if isinstance(ln, int):
                        return [self.getitem(v, q) for q in range(ln)]
                    return [Star(ln, self.delayed(lambda k: self.getitem(v, k)))]
                if not r.cls.external:
                    self.event("type-error", "%s is not iterable" % r.cls.name)
                    self.raise_("TypeError", "not iterable")
            return [Star(X.unk("iter"), lambda k: Unk("item"))]
        if v is None or isinstance(v, (bool, int, Func, Bound)) or (isinstance(v, E) and not X.tainted(v)):
            self.event("type-error", "%r is not iterable" % (v,))
            self.raise_("TypeError", "not iterable")
        return [Star(X.unk("iter"), lambda k: Unk("item", getattr(v, "tag", None)))]

    def len(self, v):
        if isinstance(v, (tuple,)):
            return self.seq_len(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, RangeV):
            return self.seq_len(tuple(self.iterate(v)))
        if isinstance(v, Choice):
            return self.join_value(v.c, self.len(v.a), self.len(v.b))
        if isinstance(v, Ref):
            r = self.rec(v)
            if v.kind in ("list", "set"):
                return self.seq_len(r.items)
            if v.kind == "dict":
                return len(r.items) if not r.open else X.unk("dict len")
            if v.kind == "arr":
                if not r.shape:
                    self.event("type-error", "len() of unsized object")
                    self.raise_("TypeError", "len() of unsized object")
                return r.shape[0]
            if v.kind == "obj":
                m, c = r.cls.lookup("__len__")
                if m is not None:
                    return self.call(self.bind(m, v, c), [], {})
        if v is None or (is_num(v) and not (isinstance(v, E) and X.tainted(v))):
            self.event("type-error", "object of type %s has no len()" % (v,))
            self.raise_("TypeError", "no len()")
        return X.unk("len")

    # ------------------------------------------------------------ attributes
    def bind(self, f, obj, cls):
        if isinstance(f, Func):
            return Bound(f, obj)
        if isinstance(f, NFunc):
            return Bound(f, obj)
        if isinstance(f, StaticM):
            return f.f
        if isinstance(f, ClassM):
            return Bound(f.f, cls)
        if callable(f) and not isinstance(f, (Cls, Native, Ref)):
            return Bound(NFunc(getattr(f, "__name__", "native"), lambda I, a, k: f(I, a, k)), obj)
        return f

    def getattr(self, o, name, default=Missing):
        if isinstance(o, Choice):
            r = self.decide(o.c)
            if r is not None:
                return self.getattr(o.a if r else o.b, name, default)
            return self.fork(o.c, lambda: self.getattr(o.a, name, default), lambda: self.getattr(o.b, name, default))
        if isinstance(o, Module):
            v = self.module_attr(o, name)
            if v is Missing:
                if default is not Missing:
                    return default
                if o.path.startswith("<") and o.path != "<driver>" and self.stubs:
                    return Ext(o.name + "." + name)      # not part of the library model
                if o.state == "done":
                    self.event("attribute-error", "module %s has no attribute %s" % (o.name, name))
                    self.raise_("AttributeError", "%s.%s" % (o.name, name))
                self.event("attribute-error", "module %s has no attribute %s (circular import)" % (o.name, name))
                self.raise_("AttributeError", "%s.%s" % (o.name, name))
            return v
        if isinstance(o, Ext):
            full = o.name + "." + name
            v = self.np.CONST.get(full)
            if v is not None:
                return v
            return Ext(full)
        if isinstance(o, (Cls, Native)):
            if name == "__name__":
                return o.name
            if name == "__class__":
                return Ext("type")
            v, c = o.lookup(name)
            if v is None and c is None:
                if name == "__init__":
                    return NFunc("object.__init__", lambda I, a, k: None)
                if o.external:
                    return Ext("%s.%s" % (o.external[0].name, name))
                if default is not Missing:
                    return default
                self.event("attribute-error", "class %s has no attribute %s" % (o.name, name))
                self.raise_("AttributeError", name)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            if isinstance(o, Native) or isinstance(c, Native):
                if callable(v):
                    return NFunc(name, (lambda f: lambda I, a, k: f(I, a, k))(v))
            return v
        if isinstance(o, SuperV):
            r = self.rec(o.obj) if isinstance(o.obj, Ref) else None
            cls = r.cls if r is not None else o.obj
            v, c = cls.lookup(name, after=o.cls)
            if v is None and c is None:
                if name == "__init__":
                    return NFunc("object.__init__", lambda I, a, k: None)
                ext = cls.external
                if ext:
                    return self.ext_method(o.obj, ext[0].name + "." + name)
                if default is not Missing:
                    return default
                self.event("attribute-error", "super of %s has no attribute %s" % (o.cls.name, name))
                self.raise_("AttributeError", name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o.obj], {})
            return self.bind(v, o.obj, cls)
        if isinstance(o, Ref):
            if o.kind == "obj":
                return self.obj_attr(o, name, default)
            if o.kind == "arr":
                return self.np.arr_attr(self, o, name)
            if o.kind == "sp":
                return self.np.sp_attr(self, o, name)
            m = self.np.container_method(self, o, name)
            if m is not None:
                return m
            if default is not Missing:
                return default
            self.event("attribute-error", "%s has no attribute %s" % (o.kind, name))
            self.raise_("AttributeError", name)
        if isinstance(o, str) or isinstance(o, Str):
            return self.np.str_attr(self, o, name)
        if isinstance(o, (E, int)) and not isinstance(o, bool):
            v = self.np.scalar_attr(self, o, name)
            if v is not None:
                return v
            if isinstance(o, E) and X.tainted(o):
                return Unk("attribute of unknown")
            if default is not Missing:
                return default
            self.event("attribute-error", "number has no attribute %s" % name)
            self.raise_("AttributeError", name)
        if isinstance(o, (Func, Bound)):
            if name == "__name__":
                return (o.func if isinstance(o, Bound) else o).name
            if name == "__self__" and isinstance(o, Bound):
                return o.self_
            if default is not Missing and not name.startswith("__") and name not in self.func_attrs and not getattr(o, "wrapped", None):
                return default          # nothing in the program gives a function this attribute
            return Unk("function attribute")
        if isinstance(o, tuple):
            m = self.np.container_method(self, o, name)
            if m is not None:
                return m
        if isinstance(o, Prop) and name in ("setter", "getter"):
            return NFunc("setter", lambda I, a, k: Prop(o.fget, a[0]))
        if o is None:
            if default is not Missing:
                return default
            self.event("attribute-error", "None has no attribute %s" % name)
            self.raise_("AttributeError", "None.%s" % name)
        if isinstance(o, Unk):
            return Unk("%s.%s" % (o.reason, name), o.tag)
        if isinstance(o, bool):
            if default is not Missing:
                return default
            self.event("attribute-error", "bool has no attribute %s" % name)
            self.raise_("AttributeError", name)
        return Unk("attribute " + name)

    def ext_method(self, obj, full):
        def f(I, a, k):
            m = I.ext_models.get(full)
            if m is not None:
                return m(I, [obj] + list(a), k)
            I.opaque.append(full)
            if I.record is not None:
                I.record.append((full, [obj] + list(a), dict(k)))
            return Unk(full + "()")
        return NFunc(full, f)

    def obj_attr(self, o, name, default=Missing):
        r = self.rec(o)
        v, c = r.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        if name in r.attrs:
            a = r.attrs[name]
            if isinstance(a, Choice) and (a.a is Missing or a.b is Missing):
                self.event("maybe-unset", "%s.%s" % (r.cls.name, name))
                return a.b if a.a is Missing else a.a
            return a
        if v is not None or c is not None:
            return self.bind(v, o, r.cls)
        if name == "__class__":
            return r.cls
        if name == "__dict__":
            return self.dict(dict(r.attrs))
        m, c = r.cls.lookup("__getattr__")
        if m is not None:
            return self.call(self.bind(m, o, c), [name], {})
        if default is not Missing:
            return default
        if r.cls.external:
            return self.ext_method(o, r.cls.external[0].name + "." + name)
        if r.tag == "open":
            return Unk("%s.%s" % (r.cls.name, name))
        self.event("attribute-error", "%s object has no attribute %s" % (r.cls.name, name))
        self.raise_("AttributeError", "%s.%s" % (r.cls.name, name))

    def setattr(self, o, name, v):
        if isinstance(o, Choice):
            self.fork(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Ref) and o.kind == "obj":
            r = self.rec(o)
            p, c = r.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    self.event("attribute-error", "property %s.%s cannot be set" % (r.cls.name, name))
                    self.raise_("AttributeError", name)
                self.call(p.fset, [o, v], {})
                return
            m, c = r.cls.lookup("__setattr__")
            if isinstance(m, Func):
                self.call(self.bind(m, o, c), [name, v], {})
                return
            d = dict(r.attrs)
            d[name] = v
            self.set(o, ObjR(r.cls, d, r.tag))
            self.log(("setattr", o.id, name, v))
        elif isinstance(o, Cls):
            o.ns[name] = v
            self.writes.append((o.name, name, v))
        elif isinstance(o, Module):
            self.writes.append((o.name, name, v))
            env = self.rec(o.env.ref)
            d = dict(env.vars)
            d[name] = v
            self.set(o.env.ref, EnvR(d))
        elif isinstance(o, Ref) and o.kind == "arr" and name == "shape":
            self.event("unmodelled", "set shape")
        elif isinstance(o, (Func, Bound)):
            self.func_attrs.add(name)

    # ------------------------------------------------------------ items
    def key(self, k):
        if isinstance(k, E):
            c = X.const(k)
            if c is not None and c.denominator == 1:
                return int(c)
            return k
        if isinstance(k, Ref) and k.kind == "obj":
            return k
        return k

    def getitem(self, o, k):
        if isinstance(o, Choice):
            return self.fork(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(o, Ref):
            r = self.rec(o)
            if o.kind == "arr":
                return self.np.index(self, o, k)
            if o.kind == "sp":
                return self.np.sp_index(self, o, k)
            if o.kind == "list":
                v = self.seq_index(r.items, k, True)
                if self.logs and isinstance(v, Ref) and v.id in self.delayed_ids and isinstance(k, (int, E)):
                    idx = num(k)
                    if X.isign(idx) == -1:
                        idx = self.np.simp(idx + self.seq_len(r.items))
                    self.elem_owner[v.id] = (o.id, idx)
                return v
            if o.kind == "dict":
                return self.dict_get(o, k)
            if o.kind == "obj":
                m, c = r.cls.lookup("__getitem__")
                if m is not None:
                    return self.call(self.bind(m, o, c), [k], {})
                if not r.cls.external:
                    self.event("type-error", "%s is not subscriptable" % r.cls.name)
                    self.raise_("TypeError", "not subscriptable")
        if isinstance(o, tuple):
            return self.seq_index(o, k, False)
        if isinstance(o, str):
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.raise_("IndexError")
            if isinstance(k, Slice):
                try:
                    return o[slice(*[self.pyint(x) for x in (k.start, k.stop, k.step)])]
                except TypeError:
                    return Str("slice")
        if isinstance(o, Str):
            return Str("slice")
        if isinstance(o, (Ext, Cls, Native)):
            return o  # typing subscripts
        if isinstance(o, RangeV):
            return self.seq_get(tuple(self.iterate(o)), k)
        if o is None or isinstance(o, (int, Func, Bound)) or (isinstance(o, E) and not X.tainted(o)):
            self.event("type-error", "%s is not subscriptable" % (o,))
            self.raise_("TypeError", "not subscriptable")
        return Unk("item", getattr(o, "tag", None))

    def seq_index(self, items, k, is_list):
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, Slice):
            res = self.seq_slice(items, k)
            return self.list(res) if is_list else tuple(res)
        if isinstance(k, (int, E)):
            return self.seq_get(items, k)
        if isinstance(k, Choice):
            return self.fork(k.c, lambda: self.seq_index(items, k.a, is_list), lambda: self.seq_index(items, k.b, is_list))
        return Unk("item")

    def seq_slice(self, items, k):
        if not any(isinstance(x, Star) for x in items):
            try:
                return list(items)[slice(*[self.pyint(self.norm_int(x)) for x in (k.start, k.stop, k.step)])]
            except TypeError:
                return [Star(X.unk("slice"), lambda k: Unk("slice"))]
        total = self.seq_len(tuple(items))
        start, length, step = self.np.norm_slice(self, k, total)
        if start is None:
            return [Star(X.unk("slice"), lambda k: Unk("slice"))]
        t = tuple(items)
        if isinstance(length, int):
            return [self.seq_get(t, self.np.simp_int(num(start) + num(q) * step)) for q in range(length)]
        if step == 1:
            # keep exact leading/trailing items
            out = []
            pos = X.ZERO
            end = self.np.simp(num(start) + length)
            for x in items:
                ln = x.length if isinstance(x, Star) else 1
                a, b = pos, self.np.simp(pos + ln)
                pos = b
                lo = a if X.idx_decide(">=", a, start) else num(start)
                hi = b if X.idx_decide("<=", b, end) else end
                d = X.isign(self.np.simp(hi - lo))
                if d is None:
                    return [Star(length, lambda q: self.seq_get(t, self.np.simp(num(start) + num(q))))]
                if d <= 0:
                    continue
                if isinstance(x, Star):
                    off = self.np.simp(lo - a)
                    ln2 = self.np.simp_int(hi - lo)
                    if isinstance(ln2, int) and ln2 <= 8:
                        out += [x.fn(self.np.simp_int(off + q)) for q in range(ln2)]
                    else:
                        out.append(Star(ln2, (lambda f, off: lambda q: f(self.np.simp(num(q) + off)))(x.fn, off)))
                else:
                    out.append(x)
            return out
        return [Star(length, lambda q: self.seq_get(t, self.np.simp(num(start) + num(q) * step)))]

    def norm_int(self, x):
        if isinstance(x, E):
            c = X.const(self.np.simp(x))
            if c is not None and c.denominator == 1:
                return int(c)
        return x

    def dict_get(self, o, k, default=Missing):
        r = self.rec(o)
        if isinstance(k, Choice):
            return self.fork(k.c, lambda: self.dict_get(o, k.a, default), lambda: self.dict_get(o, k.b, default))
        if isinstance(k, (Unk, Str)):
            vals = list(r.items.values())
            if not vals:
                if default is not Missing:
                    return default
                return Unk("dict item")
            self.event("unknown-key", "lookup with an unknown key")
            if default is Missing:
                b = self.fresh_bool("key")
                s0 = self.st
                self.st = s0.copy()
                try:
                    self.raise_("KeyError")
                except PyRaise as e:
                    self.note_raise(b, e)
                self.st = s0
            v = vals[-1]
            for x in vals[:-1]:
                v = Choice(self.fresh_bool("key"), x, v)
            return v
        key = self.key(k)
        if isinstance(key, Ref) and key.kind == "list":
            self.raise_("TypeError", "unhashable")
        try:
            v = r.items.get(key, Missing)
        except TypeError:
            v = Missing
        if v is Missing and isinstance(key, Ref):
            for kk, vv in r.items.items():
                if isinstance(kk, Ref) and kk is not key:
                    return Unk("dict item")
        if isinstance(v, Choice) and (v.a is Missing or v.b is Missing):
            present = v.a if v.b is Missing else v.b
            cond = v.c if v.b is Missing else X.not_(v.c)
            d = self.decide(cond)
            if d is None:
                if default is not Missing:
                    return self.join_value(cond, present, default)
                self.event("may-raise", "KeyError %s" % (key,))
                return present
            v = present if d else Missing
        if v is Missing:
            if default is not Missing:
                return default if not r.open else Unk("dict item")
            if r.open:
                return Unk("dict item")
            self.raise_("KeyError", str(key), (k,))
        return v

    def setitem(self, o, k, v):
        if isinstance(o, Choice):
            self.fork(o.c, lambda: self.setitem(o.a, k, v), lambda: self.setitem(o.b, k, v))
            return
        if isinstance(o, Ref):
            r = self.rec(o)
            if o.kind == "arr":
                self.np.store(self, o, k, v)
                return
            if o.kind == "sp":
                self.np.sp_store(self, o, k, v)
                return
            if o.kind == "list":
                items = list(r.items)
                if isinstance(k, (int, E)) and not isinstance(k, bool):
                    ki = self.norm_int(k)
                    if isinstance(ki, int) and not any(isinstance(x, Star) for x in items):
                        if not -len(items) <= ki < len(items):
                            self.raise_("IndexError")
                        items[ki] = v
                        self.set(o, ListR(items))
                        return
                    t = tuple(items)
                    total = self.seq_len(t)
                    idx = num(k)
                    if X.isign(idx) == -1:
                        idx = self.np.simp(idx + total)
                    self.log(("store", o.id, (idx,), lambda q, v=v: v))

                    def fn(q, idx=idx, v=v, t=t):
                        r = X.idx_decide("==", q, idx)
                        if r is None:
                            return Unk("list item")
                        return v if r else self.seq_get(t, q)

                    if isinstance(total, int):
                        self.set(o, ListR([fn(num(q)) for q in range(total)]))
                    else:
                        self.set(o, ListR([Star(total, fn)]))
                    return
                self.set(o, ListR([Star(X.unk("list"), lambda k: Unk("list"))]))
                return
            if o.kind == "dict":
                d = dict(r.items)
                key = self.key(k)
                if isinstance(key, (Unk, Str, Choice)):
                    self.set(o, DictR(d, True))
                    return
                d[key] = v
                self.set(o, DictR(d, r.open))
                return
            if o.kind == "obj":
                m, c = r.cls.lookup("__setitem__")
                if m is not None:
                    self.call(self.bind(m, o, c), [k, v], {})
                    return
                if not r.cls.external:
                    self.event("type-error", "%s does not support item assignment" % r.cls.name)
                    self.raise_("TypeError")
            return
        if isinstance(o, tuple):
            self.raise_("TypeError", "tuple assignment")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self_] + list(args), kwargs)
            if isinstance(f.func, NFunc):
                return f.func.f(self, [f.self_] + list(args), kwargs)
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, NFunc):
            return f.f(self, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            if "__new__" in f.methods:
                return f.methods["__new__"](self, [f] + list(args), kwargs)
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            m = self.ext_models.get(f.name)
            if isinstance(m, Native):
                return self.call(m, args, kwargs)
            if m is not None:
                return m(self, list(args), kwargs)
            self.opaque.append(f.name)
            if self.record is not None:
                self.record.append((f.name, list(args), dict(kwargs)))
            return Unk(f.name + "()")
        if isinstance(f, Ref) and f.kind == "obj":
            r = self.rec(f)
            m, c = r.cls.lookup("__call__")
            if m is not None:
                return self.call(self.bind(m, f, c), args, kwargs)
            if not r.cls.external:
                self.event("type-error", "%s object is not callable" % r.cls.name)
                self.raise_("TypeError", "not callable")
            return Unk("call")
        if isinstance(f, Choice):
            return self.fork(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if f is None or isinstance(f, (bool, int, str, tuple)) or (isinstance(f, Ref) and f.kind != "obj"):
            self.event("type-error", "%s object is not callable" % (f if not isinstance(f, Ref) else f.kind,))
            self.raise_("TypeError", "not callable")
        if isinstance(f, Unk):
            self.opaque.append(f.reason)
            if callable(f.tag):
                return f.tag(self, args, kwargs)
            return Unk(f.reason + "()", f.tag)
        return Unk("call")

    def instantiate(self, cls, args, kwargs):
        o = self.obj(cls)
        init, c = cls.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, o, c), args, kwargs)
        elif args or kwargs:
            if not cls.external:
                self.event("call-mismatch", "%s() takes no arguments" % cls.name)
                self.raise_("TypeError", "%s() takes no arguments" % cls.name)
        self.check_abstract(cls)
        return o

    def check_abstract(self, cls):
        if not isinstance(cls, Cls):
            return
        seen = set()
        for c in cls.mro:
            if not isinstance(c, Cls):
                continue
            for n, v in c.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                f = v.fget if isinstance(v, Prop) else v
                if isinstance(f, Func) and any(
                    (isinstance(d, ast.Name) and d.id == "abstractmethod") for d in getattr(f.node, "decorator_list", [])
                ):
                    if any(isinstance(b, Ext) or getattr(b, "name", "") == "ABC" for b in c.bases) or self.is_abc(c):
                        self.event("abstract", "%s does not implement %s" % (cls.name, n))

    def is_abc(self, c):
        return any(
            isinstance(b, ast.Name) and b.id == "ABC"
            for k in c.mro
            if isinstance(k, Cls) and k.node is not None
            for b in k.node.bases
        )

    def bind_args(self, f, args, kwargs):
        """Parameter dict, or None with an event when the call does not fit."""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(isinstance(x, Star) for x in args):
            # symbolic positional arguments
            head = []
            while args and not isinstance(args[0], Star):
                head.append(args.pop(0))
            rest = args
        else:
            head, rest = args, []
        n = min(len(head), len(pos))
        for p, v in zip(pos, head):
            out[p] = v
        extra = head[n:] + rest
        if rest and len(head) < len(pos):
            for p in pos[len(head):]:
                if p not in kwargs:
                    out[p] = Unk("star argument")
            extra = rest if a.vararg else []
        if extra:
            if a.vararg:
                out[a.vararg.arg] = tuple(extra)
            elif not rest:
                return None, "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(head))
        elif a.vararg:
            out[a.vararg.arg] = ()
        extra_kw = {}
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in names:
                if k in out:
                    return None, "%s() got multiple values for argument '%s'" % (f.name, k)
                out[k] = v
            elif a.kwarg:
                extra_kw[k] = v
            else:
                return None, "%s() got an unexpected keyword argument '%s'" % (f.name, k)
        opened = "**" in kwargs
        nd = len(f.defaults)
        for p, d in zip(pos[len(pos) - nd:] if nd else [], f.defaults):
            out.setdefault(p, d)
        for p, d in f.kwdefaults.items():
            out.setdefault(p, d)
        for p in pos + [q.arg for q in a.kwonlyargs]:
            if p not in out:
                if opened or rest:
                    out[p] = Unk("argument " + p)
                else:
                    return None, "%s() missing required argument '%s'" % (f.name, p)
        if a.kwarg:
            out[a.kwarg.arg] = self.dict(extra_kw, opened)
        return out, None

    def call_func(self, f, args, kwargs):
        if len(self.frames) > self.MAX_DEPTH:
            return Unk("depth")
        params, err = self.bind_args(f, args, kwargs)
        if params is None:
            self.event("call-mismatch", "%s: %s" % (f.qual, err))
            self.raise_("TypeError", err)
        self.visited[f.qual] = self.visited.get(f.qual, 0) + 1
        if any(isinstance(x, Unk) for x in args) and sum(1 for q in self.frames if q.func is f) >= 3:
            return Unk("recursion on unknown values")
        ref = self.new(EnvR(params), "env")
        saved_scope, saved_frames = self.scope, self.frames
        self.scope = Scope(ref, f.env)
        self.frames = self.frames + [Frame(f, f.module, args[0] if args else None)]
        try:
            if isinstance(f.node, ast.Lambda):
                self.frames[-1].node = f.node
                return self.eval(f.node.body)
            body = f.node.body
            if is_generator(f.node):
                body = eager_generator(f.node)
                if body is None:
                    return Unk("generator")
            leaves = self.block(body)
            res = []
            for l in leaves:
                res.append(Leaf(l.cond, "ret", l.value if l.kind == "ret" else None, l.state))
            m = self.merge_leaves(res, "ret")
            self.st = m.state
            return m.value
        finally:
            self.scope, self.frames = saved_scope, saved_frames

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        self.steps += 1
        if self.steps > self.budget:
            raise Abort("step budget")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.event("unmodelled", type(n).__name__)
            return Unk(type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, float):
            return num(v)
        if isinstance(v, complex):
            return Unk("complex")
        return v

    def e_Name(self, n):
        v = self.lookup(n.id)
        if v is Missing:
            self.event("name-error", n.id)
            self.raise_("NameError", n.id)
        if isinstance(v, Choice) and (v.a is Missing or v.b is Missing):
            return v.b if v.a is Missing else v.a
        return v

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def e_Subscript(self, n):
        return self.getitem(self.eval(n.value), self.eval_index(n.slice))

    def eval_index(self, n):
        if isinstance(n, ast.Tuple):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.seq_items(self.eval(e.value))
                else:
                    out.append(self.eval_index(e))
            return tuple(out)
        if isinstance(n, ast.Slice):
            ev = lambda x: self.eval(x) if x is not None else None
            return Slice(ev(n.lower), ev(n.upper), ev(n.step))
        return self.eval(n)

    def e_Slice(self, n):
        return self.eval_index(n)

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.seq_items(self.eval(e.value))
            else:
                out.append(self.eval(e))
        return out

    def e_List(self, n):
        return self.list(self.elts(n.elts))

    def e_Set(self, n):
        return self.new(SetR(self.dedupe(self.elts(n.elts))), "set")

    def dedupe(self, items):
        out = []
        for x in items:
            if not any(self.same(x, y) for y in out):
                out.append(x)
        return out

    def same(self, x, y):
        if x is y:
            return True
        if isinstance(x, Star) or isinstance(y, Star):
            return False
        if is_num(x) and is_num(y):
            r = X.idx_decide("==", num(x), num(y)) if X.is_intterm(num(x)) and X.is_intterm(num(y)) else None
            if r is None:
                return num(x) is num(y)
            return r
        if isinstance(x, (str, tuple)) and isinstance(y, (str, tuple)):
            return x == y
        return False

    def e_Dict(self, n):
        d = {}
        open_ = False
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v)
                if isinstance(o, Ref) and o.kind == "dict":
                    d.update(self.rec(o).items)
                    open_ = open_ or self.rec(o).open
                else:
                    open_ = True
                continue
            kk, vv = self.key(self.eval(k)), self.eval(v)
            if isinstance(kk, (Unk, Str, Choice)):
                open_ = True
            else:
                d[kk] = vv
        return self.dict(d, open_)

    def comp(self, gens, leaf, depth=0):
        if not gens:
            return [leaf()]
        g = gens[0]
        out = []
        for item in self.iterate(self.eval(g.iter)):
            if isinstance(item, Star):
                scope = self.scope
                if g.ifs or len(gens) > 1:
                    def inner(k, item=item):
                        self.assign(g.target, item.fn(k))
                        for c in g.ifs:
                            self.assume_test(c)
                        r = self.comp(gens[1:], leaf)
                        return r[0] if len(r) == 1 and not isinstance(r[0], Star) else Unk("nested comprehension")
                    ln = X.unk("comprehension length")
                    out.append(Star(ln, self.delayed(inner, scope)))
                else:
                    def inner(k, item=item):
                        self.assign(g.target, item.fn(k))
                        return leaf()
                    out.append(Star(item.length, self.delayed(inner, scope)))
                    self.first_element(out[-1])
                continue
            self.assign(g.target, item)
            conds = [self.truth(self.eval(c)) for c in g.ifs]
            if any(c is False for c in conds):
                continue
            if all(c is True for c in conds):
                out += self.comp(gens[1:], leaf)
            else:
                v = self.comp(gens[1:], leaf)
                out.append(Star(X.unk("filter"), (lambda v: lambda k: v[0] if v and not isinstance(v[0], Star) else Unk("filter"))(v)))
        return out

    def assume_test(self, c):
        t = self.truth(self.eval(c))
        if isinstance(t, E):
            self.assume(t)

    def with_scope(self, f):
        ref = self.new(EnvR({}), "env")
        saved = self.scope
        self.scope = Scope(ref, saved)
        try:
            return f()
        finally:
            self.scope = saved

    def e_ListComp(self, n):
        return self.with_scope(lambda: self.list(self.comp(n.generators, lambda: self.eval(n.elt))))

    def e_GeneratorExp(self, n):
        return self.with_scope(lambda: tuple(self.comp(n.generators, lambda: self.eval(n.elt))))

    def e_SetComp(self, n):
        return self.with_scope(
            lambda: self.new(SetR(self.dedupe(self.comp(n.generators, lambda: self.eval(n.elt)))), "set")
        )

    def e_DictComp(self, n):
        def go():
            items = self.comp(n.generators, lambda: (self.eval(n.key), self.eval(n.value)))
            d, open_ = {}, False
            for it in items:
                if isinstance(it, Star):
                    open_ = True
                else:
                    k = self.key(it[0])
                    if isinstance(k, (Unk, Str, Choice)):
                        open_ = True
                    else:
                        d[k] = it[1]
            return self.dict(d, open_)
        return self.with_scope(go)

    def e_Lambda(self, n):
        return self.make_func(n, "<lambda>")

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        if c is True:
            return self.eval(n.body)
        if c is False:
            return self.eval(n.orelse)
        return self.fork(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_BoolOp(self, n):
        v = self.eval(n.values[0])
        for x in n.values[1:]:
            c = self.truth(v)
            is_or = isinstance(n.op, ast.Or)
            if c is True or c is False:
                if c is is_or:
                    return v
                v = self.eval(x)
                continue
            cur = v
            if isinstance(cur, E) and cur.op in ("cmp", "not", "and", "or", "isnan"):
                pass
            if is_or:
                v = self.fork(c, lambda: self.pick(cur, c, True), lambda x=x: self.eval(x))
            else:
                v = self.fork(c, lambda x=x: self.eval(x), lambda: self.pick(cur, c, False))
        return v

    def pick(self, v, c, outcome):
        if isinstance(v, Choice):
            d = self.decide(v.c)
            if d is not None:
                return v.a if d else v.b
            ta, tb = self.truth(v.a), self.truth(v.b)
            if ta is (not outcome):
                return v.b
            if tb is (not outcome):
                return v.a
        return v

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            if isinstance(c, bool):
                return not c
            return X.not_(c)
        return self.unary(type(n.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, bool):
            v = int(v) if op != "Invert" else v
        if op == "USub":
            if isinstance(v, int):
                return -v
            if isinstance(v, E):
                return X.neg(self.E(v))
            if isinstance(v, Ref) and v.kind == "arr":
                return self.np.map1(self, v, lambda x: self.unary("USub", x))
            if isinstance(v, Ref) and v.kind == "sp":
                return self.np.sp_map(self, v, lambda x: -x)
            if isinstance(v, Choice):
                return self.fork(v.c, lambda: self.unary(op, v.a), lambda: self.unary(op, v.b))
            if isinstance(v, Ref) and v.kind == "obj":
                m, c = self.rec(v).cls.lookup("__neg__")
                if m is not None:
                    return self.call(self.bind(m, v, c), [], {})
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, bool):
                return ~v
            if isinstance(v, E):
                return X.not_(v)
            if isinstance(v, Ref) and v.kind == "arr":
                return self.np.map1(self, v, lambda x: (not x) if isinstance(x, bool) else X.not_(x))
        if v is None or isinstance(v, str):
            self.event("type-error", "bad operand for unary %s: %r" % (op, v))
            self.raise_("TypeError")
        return Unk("unary")

    def e_BinOp(self, n):
        return self.binop(type(n.op).__name__, self.eval(n.left), self.eval(n.right))

    DUNDER = {
        "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
        "Pow": "pow", "MatMult": "matmul", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
    }

    def binop(self, op, a, b):
        if isinstance(a, Choice) and not is_num(a.a if not isinstance(a.a, Choice) else None):
            return self.fork(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if isinstance(a, Choice):
            return self.fork(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        ra = isinstance(a, Ref)
        rb = isinstance(b, Ref)
        if (ra and a.kind == "sp") or (rb and b.kind == "sp"):
            return self.np.sp_binop(self, op, a, b)
        if (ra and a.kind == "arr") or (rb and b.kind == "arr"):
            if (ra and a.kind in ("obj",)) or (rb and b.kind == "obj"):
                pass
            elif (ra and a.kind in ("dict", "set")) or (rb and b.kind in ("dict", "set")) or a is None or b is None:
                self.event("type-error", "array %s %r" % (op, b if ra else a))
                self.raise_("TypeError", "operand")
            else:
                return self.np.binop(self, op, a, b)
        if ra and a.kind == "obj":
            cls = self.rec(a).cls
            m, c = cls.lookup("__%s__" % self.DUNDER.get(op, "?"))
            if m is not None:
                return self.call(self.bind(m, a, c), [b], {})
        if rb and b.kind == "obj":
            cls = self.rec(b).cls
            m, c = cls.lookup("__r%s__" % self.DUNDER.get(op, "?"))
            if m is not None:
                return self.call(self.bind(m, b, c), [a], {})
        if (ra and a.kind == "obj") or (rb and b.kind == "obj"):
            if not any(isinstance(x, (Unk,)) for x in (a, b)):
                o = a if ra and a.kind == "obj" else b
                if not self.rec(o).cls.external:
                    self.event("type-error", "unsupported operand %s for %s" % (op, self.rec(o).cls.name))
                    self.raise_("TypeError")
            return Unk("operand")
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if op == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            other = b if isinstance(a, (str, Str)) else a
            if op in ("Sub", "Div", "FloorDiv", "Pow") and (is_num(other) or isinstance(other, (str, Str)) or other is None) or op == "Mult" and (isinstance(other, (str, Str)) or other is None):
                self.event("type-error", "%s of text" % op)
                self.raise_("TypeError", "unsupported operand")
            if op == "Add" and (a is None or b is None or is_num(a) or is_num(b)):
                self.event("type-error", "str + %r" % (b if isinstance(a, (str, Str)) else a,))
                self.raise_("TypeError")
            return concat(a, b) if op == "Add" else Str(op)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return a * b
        if (ra and a.kind == "list") or (rb and b.kind == "list"):
            if op == "Add" and ra and rb and a.kind == b.kind:
                return self.list(self.rec(a).items + self.rec(b).items)
            if op == "Mult":
                l, k = (a, b) if ra and a.kind == "list" else (b, a)
                items = self.rec(l).items
                if isinstance(k, int):
                    return self.list(items * max(k, 0))
                if isinstance(k, E) and len(items) == 1 and not isinstance(items[0], Star):
                    return self.list([Star(k, lambda q, v=items[0]: v)])
            if isinstance(a, Unk) or isinstance(b, Unk):
                return Unk("list op")
            self.event("type-error", "list %s %r" % (op, b))
            self.raise_("TypeError")
        if ra and a.kind == "set" and rb and b.kind == "set":
            x, y = list(self.rec(a).items), list(self.rec(b).items)
            if op == "BitOr":
                return self.new(SetR(self.dedupe(x + y)), "set")
            if op == "Sub":
                return self.new(SetR([t for t in x if not any(self.same(t, s) for s in y)]), "set")
            if op == "BitAnd":
                return self.new(SetR([t for t in x if any(self.same(t, s) for s in y)]), "set")
            if op == "BitXor":
                return self.new(SetR([t for t in x if not any(self.same(t, s) for s in y)] + [t for t in y if not any(self.same(t, s) for s in x)]), "set")
        if ra and a.kind == "dict" and rb and b.kind == "dict" and op == "BitOr":
            return self.dict({**self.rec(a).items, **self.rec(b).items}, self.rec(a).open or self.rec(b).open)
        if isinstance(a, (Unk,)) or isinstance(b, (Unk,)):
            for x in (a, b):
                if x is None:
                    return Unk("op")
            if isinstance(a, (Unk, int, E)) and isinstance(b, (Unk, int, E)):
                return self.np.scalar_op(self, op, self.E(a), self.E(b))
            return Unk("op")
        if a is None or b is None or isinstance(a, (Func, Bound, tuple)) or isinstance(b, (Func, Bound, tuple)):
            if isinstance(a, (Ext, Cls, Native)) or isinstance(b, (Ext, Cls, Native)):
                return Unk("type union")
            self.event("type-error", "unsupported operands for %s: %r, %r" % (op, a, b))
            self.raise_("TypeError", "unsupported operand")
        if isinstance(a, (Ext, Cls, Native)) or isinstance(b, (Ext, Cls, Native)):
            return Unk("type expression")
        if isinstance(a, (int, E)) and isinstance(b, (int, E)):
            return self.np.scalar_op(self, op, a, b)
        return Unk("op")

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                ca, cb = self.truth(res), self.truth(r)
                if ca is False or cb is False:
                    res = False
                elif ca is True:
                    res = r
                elif cb is True:
                    res = res
                else:
                    res = X.and_(ca, cb)
            left = right
        return res

    OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            if r is None:
                return self.fresh_bool("is")
            if isinstance(r, E):
                return r if op == "Is" else X.not_(r)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if r is None:
                return self.fresh_bool("in")
            if isinstance(r, E):
                return r if op == "In" else X.not_(r)
            return r if op == "In" else not r
        if isinstance(a, Choice):
            return self.fork(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        for x in (a, b):
            if isinstance(x, Ref) and x.kind == "arr":
                if a is None or b is None:
                    if op == "Eq":
                        return False
                    if op == "NotEq":
                        return True
                return self.np.compare(self, self.OPS[op], a, b)
        if is_num(a) and is_num(b):
            c = X.cmp_(self.OPS[op], self.E(a), self.E(b))
            r = self.decide(c)
            return c if r is None else r
        if isinstance(a, Unk) or isinstance(b, Unk):
            if (isinstance(a, (Unk, int, E))) and isinstance(b, (Unk, int, E)):
                return X.cmp_(self.OPS[op], self.E(a), self.E(b))
            return self.fresh_bool("compare")
        if isinstance(a, Str) or isinstance(b, Str):
            if op in ("Eq", "NotEq") and not (isinstance(a, (str, Str)) and isinstance(b, (str, Str))):
                return op == "NotEq"
            return self.fresh_bool("str compare")
        if op in ("Eq", "NotEq"):
            if isinstance(a, Ref) and a.kind == "obj":
                m, c = self.rec(a).cls.lookup("__eq__")
                if m is not None:
                    ne, c2 = self.rec(a).cls.lookup("__ne__")
                    if op == "NotEq" and ne is not None:
                        return self.call(self.bind(ne, a, c2), [b], {})
                    r = self.truth(self.call(self.bind(m, a, c), [b], {}))
                    if op == "Eq":
                        return r
                    return (not r) if isinstance(r, bool) else X.not_(r)
            r = self.equal(a, b)
            if r is None:
                return self.fresh_bool("==")
            if isinstance(r, E):
                return r if op == "Eq" else X.not_(r)
            return r if op == "Eq" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "set":
            x, y = (a, b) if op in ("Lt", "LtE") else (b, a)
            r, q = self.subset(x, y), self.subset(y, x)
            if op in ("LtE", "GtE"):
                return self.fresh_bool("compare") if r is None else r
            return False if r is False or q is True else True if r is True and q is False else self.fresh_bool("compare")
        if a is None or b is None:
            self.event("type-error", "%r %s %r" % (a, op, b))
            self.raise_("TypeError", "unorderable")
        return self.fresh_bool("compare")

    def equal(self, a, b):
        if a is b:
            return True
        if is_num(a) and is_num(b):
            c = X.cmp_("==", self.E(a), self.E(b))
            r = self.decide(c)
            return c if r is None else r
        if a is None or b is None:
            return False if not isinstance(a, Unk) and not isinstance(b, Unk) else None
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if any(isinstance(x, Star) for x in a + b):
                return None
            if len(a) != len(b):
                return False
            res = True
            for x, y in zip(a, b):
                r = self.equal(x, y)
                if r is False:
                    return False
                if r is not True:
                    res = None if r is None or res is None else (r if res is True else X.and_(res, r))
            return res
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
            return self.equal(self.rec(a).items, self.rec(b).items)
        if isinstance(a, (Unk, Str)) or isinstance(b, (Unk, Str)):
            return None
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind:
            if a.kind == "obj":
                return False
            if a.kind == "set":
                x, y = self.subset(a, b), self.subset(b, a)
                return False if x is False or y is False else True if x is True and y is True else None
            if a.kind == "dict":
                x, y = self.rec(a), self.rec(b)
                if x.open or y.open or not all(isinstance(k, (str, int)) for k in list(x.items) + list(y.items)):
                    return None
                if set(x.items) != set(y.items):
                    return False
                return self.equal(tuple(x.items.values()), tuple(y.items[k] for k in x.items))
            return None
        return False

    def subset(self, a, b):
        """Is the set a contained in b (None: undecided)?"""
        out = True
        for x in self.rec(a).items:
            if isinstance(x, Star):
                return None
            rs = [None if isinstance(y, Star) else self.equal(x, y) for y in self.rec(b).items]
            if any(r is True for r in rs):
                continue
            if all(r is False for r in rs):
                return False
            out = None
        return out

    def is_(self, a, b):
        if isinstance(a, Choice):
            x, y = self.is_(a.a, b), self.is_(a.b, b)
            if x is None or y is None:
                return None
            return self.cond_ite(a.c, x, y)
        if isinstance(b, Choice):
            return self.is_(b, a)
        if a is b:
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            return None
        if a is None or b is None:
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (Ref, Cls, Func, Module, Native)) or isinstance(b, (Ref, Cls, Func, Module, Native)):
            return False
        return None

    def contains(self, c, v):
        if isinstance(c, Choice):
            return None
        if isinstance(c, str):
            return v in c if isinstance(v, str) else None
        items = None
        if isinstance(c, tuple):
            items = c
        elif isinstance(c, Ref):
            r = self.rec(c)
            if c.kind in ("list", "set"):
                items = r.items
            elif c.kind == "dict":
                if isinstance(v, (Unk, Str, Choice)):
                    return None
                x = r.items.get(self.key(v), Missing)
                if isinstance(x, Choice) and (x.a is Missing or x.b is Missing):
                    return x.c if x.b is Missing else X.not_(x.c)
                if x is not Missing:
                    return True
                return None if r.open else False
            elif c.kind == "obj":
                m, k = r.cls.lookup("__contains__")
                if m is not None:
                    return self.truth(self.call(self.bind(m, c, k), [v], {}))
        elif isinstance(c, RangeV):
            items = tuple(self.iterate(c))
        if items is None:
            return None
        res = False
        for x in items:
            if isinstance(x, Star):
                return None
            r = self.equal(x, v)
            if r is True:
                return True
            if r is None:
                res = None
            elif isinstance(r, E) and res is not None:
                res = r if res is False else X.or_(res, r)
        return res

    def e_Call(self, n):
        if self.frames:
            self.frames[-1].node = n
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.lookup("super") is self.builtins.get("super"):
            if not n.args:
                fr = None
                for f in reversed(self.frames):
                    if f.func is not None and f.func.defcls is not None:
                        fr = f
                        break
                if fr is None:
                    return Unk("super")
                return SuperV(fr.func.defcls, fr.self_)
            cls, obj = self.eval(n.args[0]), self.eval(n.args[1])
            return SuperV(cls, obj)
        f = self.eval(n.func)
        args = self.elts(n.args)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                o = self.eval(k.value)
                if isinstance(o, Ref) and o.kind == "dict":
                    r = self.rec(o)
                    for kk, vv in r.items.items():
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                    if r.open:
                        kwargs["**"] = True
                elif isinstance(o, Choice):
                    return self.fork(
                        o.c,
                        lambda: self.call_kw(f, args, kwargs, o.a),
                        lambda: self.call_kw(f, args, kwargs, o.b),
                    )
                else:
                    kwargs["**"] = True
            else:
                kwargs[k.arg] = self.eval(k.value)
        if self.frames:
            self.frames[-1].node = n
        return self.call(f, args, kwargs, n)

    def call_kw(self, f, args, kwargs, extra):
        kw = dict(kwargs)
        if isinstance(extra, Ref) and extra.kind == "dict":
            kw.update({k: v for k, v in self.rec(extra).items.items() if isinstance(k, str)})
        else:
            kw["**"] = True
        return self.call(f, args, kw)

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value)
            spec = None
            if v.format_spec is not None:
                if x is None:
                    self.event("type-error", "format of None")
                spec = self.eval(v.format_spec)
            parts.append(self.formatted(x, spec, v.conversion))
        return concat(*parts)

    def formatted(self, x, spec=None, conversion=-1):
        if spec is None and conversion == 114:
            return repr(x) if isinstance(x, (str, int)) else Str("text", [(x, "r")])
        if spec is None and isinstance(x, str):
            return x
        if spec is None and isinstance(x, int) and not isinstance(x, bool):
            return str(x)
        if spec is None and isinstance(x, E) and X.const(x) is not None:
            return str(x) if X.const(x).denominator == 1 else repr(float(X.const(x)))
        if spec is None and isinstance(x, Ref) and x.kind == "obj" and any(self.rec(x).cls.lookup(m)[0] is not None for m in ("__str__", "__repr__")):
            r = self.builtins_model.b_str(self, [x], {})
            if isinstance(r, (str, Str)):
                return r if isinstance(r, str) or r.parts is not None else Str("text", [(x, None)])
        if spec is None and isinstance(x, Str) and x.parts is not None:
            return x
        if isinstance(spec, str) and not isinstance(x, bool):
            c = X.const(x) if isinstance(x, E) else x if isinstance(x, int) else None
            try:
                if c is not None:
                    return format(int(c) if c.denominator == 1 and spec[-1:] in "dxobc" else float(c), spec)
                if isinstance(x, str):
                    return format(x, spec)
            except (ValueError, OverflowError):
                pass
        return Str("text", [(x, spec if isinstance(spec, str) else None)])

    def e_Starred(self, n):
        return self.eval(n.value)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Await(self, n):
        return self.eval(n.value)
