"""Built-in functions, exceptions and a few library classes."""
import itertools

from . import expr as X
from . import npmodel as NP
from .expr import E, num
from .values import *

EXC = {}


def _exc(name, base=None):
    bases = (EXC[base],) if base else ()
    EXC[name] = Native(name, bases, {} if base else {
        "__init__": lambda I, a, k: I.setattr(a[0], "args", tuple(a[1:])),
        "__str__": lambda I, a, k: exc_str(I, a[0]),
    })


def exc_str(I, o):
    args = I.rec(o).attrs.get("args", ())
    return args[0] if len(args) == 1 and isinstance(args[0], str) else Str("exception")


_exc("BaseException")
for _n in ("Exception", "KeyboardInterrupt", "SystemExit", "GeneratorExit"):
    _exc(_n, "BaseException")
for _n in ("ValueError", "TypeError", "AttributeError", "LookupError", "NameError", "AssertionError", "StopIteration",
           "RuntimeError", "ArithmeticError", "OSError", "ImportError", "Warning", "EOFError", "MemoryError"):
    _exc(_n, "Exception")
_exc("KeyError", "LookupError")
_exc("IndexError", "LookupError")
_exc("NotImplementedError", "RuntimeError")
_exc("RecursionError", "RuntimeError")
_exc("ZeroDivisionError", "ArithmeticError")
_exc("OverflowError", "ArithmeticError")
_exc("FloatingPointError", "ArithmeticError")
_exc("FileNotFoundError", "OSError")
_exc("FileExistsError", "OSError")
_exc("PermissionError", "OSError")
_exc("ModuleNotFoundError", "ImportError")
_exc("UnboundLocalError", "NameError")
_exc("UnicodeDecodeError", "ValueError")
for _n in ("UserWarning", "RuntimeWarning", "DeprecationWarning", "FutureWarning"):
    _exc(_n, "Warning")
EXC["IOError"] = EXC["OSError"]

T = {n: Native(n) for n in ("object", "int", "float", "str", "bool", "list", "tuple", "dict", "set", "type", "bytes",
                            "frozenset", "complex", "NoneType", "function", "ndarray", "range", "slice")}
NDARRAY = T["ndarray"]


def type_of(I, v):
    """Native type of a value, a class, or None when unknown."""
    if v is None:
        return T["NoneType"]
    if isinstance(v, bool):
        return T["bool"]
    if isinstance(v, int):
        return T["int"]
    if isinstance(v, E):
        if v.op in ("cmp", "not", "and", "or", "isnan", "true", "false"):
            return T["bool"]
        if v.op == "unk" or X.tainted(v):
            return None
        return T["int"] if X.is_intterm(v) and v.op != "num" else T["float"]
    if isinstance(v, (str, Str)):
        return T["str"]
    if isinstance(v, tuple):
        return T["tuple"]
    if isinstance(v, RangeV):
        return T["range"]
    if isinstance(v, Ref):
        if v.kind == "obj":
            return I.rec(v).cls
        return {"list": T["list"], "dict": T["dict"], "set": T["set"], "arr": NDARRAY}.get(v.kind)
    if isinstance(v, (Func, Bound, NFunc)):
        return T["function"]
    if isinstance(v, (Cls, Native)):
        return T["type"]
    return None


EXT_TYPES = {"numpy.ndarray": NDARRAY}
NUMBERS = {
    "numpy.floating": ("float",), "numpy.integer": ("int",), "numpy.number": ("int", "float"),
    "numbers.Number": ("int", "float", "bool"), "numbers.Real": ("int", "float", "bool"),
    "numbers.Integral": ("int", "bool"), "numpy.float64": ("float",), "numpy.int64": (),
    "collections.abc.Sequence": ("list", "tuple", "str", "range"), "typing.Sequence": ("list", "tuple", "str", "range"),
    "collections.abc.Iterable": ("list", "tuple", "str", "range", "dict", "set", "ndarray"),
    "typing.Iterable": ("list", "tuple", "str", "range", "dict", "set", "ndarray"),
    "typing.List": ("list",), "typing.Tuple": ("tuple",), "typing.Dict": ("dict",),
}


def is_inst(I, v, t):
    if isinstance(v, Choice):
        a, b = is_inst(I, v.a, t), is_inst(I, v.b, t)
        if a is None or b is None:
            return None
        return I.cond_ite(v.c, a, b) if isinstance(a, E) or isinstance(b, E) or a != b else a
    if isinstance(t, tuple):
        res = False
        for x in t:
            r = is_inst(I, v, x)
            if r is True:
                return True
            if r is not False:
                res = r
        return res
    ty = type_of(I, v)
    if ty is None:
        return None
    if isinstance(t, Ext):
        if t.name in EXT_TYPES:
            t = EXT_TYPES[t.name]
        elif t.name in NUMBERS:
            return ty.name in NUMBERS[t.name] if isinstance(ty, Native) else False
        elif t.name in ("typing.Callable", "collections.abc.Callable"):
            return callable_(I, v)
        elif isinstance(ty, Cls):
            return t in ty.mro
        else:
            return False if isinstance(ty, Native) and ty.name in T else None
    if isinstance(t, (Cls, Native)):
        if t is T["object"]:
            return True
        if ty is T["bool"] and t is T["int"]:
            return True
        return ty.is_sub(t)
    return None


def callable_(I, v):
    if isinstance(v, (Func, Bound, NFunc, Cls, Native)):
        return True
    if isinstance(v, Ref) and v.kind == "obj":
        return I.rec(v).cls.lookup("__call__")[0] is not None
    if isinstance(v, (Unk, Ext, Choice)):
        return None
    return False


def b_isinstance(I, a, k):
    r = is_inst(I, a[0], a[1])
    return I.fresh_bool("isinstance") if r is None else r


def b_issubclass(I, a, k):
    c, t = a[0], a[1]
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, (Cls, Native)):
        return any(x in c.mro for x in ts)
    return I.fresh_bool("issubclass")


def b_len(I, a, k):
    return I.len(a[0])


def b_range(I, a, k):
    a = [int(x) if isinstance(x, bool) else x for x in a]
    for x in a:
        if isinstance(x, E) and not X.is_intterm(x) and not X.tainted(x):
            c = X.const(NP.simp(x))
            if x.op == "num" or c is None or c.denominator != 1:
                I.event("type-error", "range() of the float %s" % X.show(x))
                I.raise_("TypeError", "'float' object cannot be interpreted as an integer")
        if x is None or isinstance(x, (str, tuple)):
            I.event("type-error", "range() of %r" % (x,))
            I.raise_("TypeError")
    if any(not is_num(x) for x in a):
        return Unk("range")
    a = [NP.simp_int(I.E(x)) for x in a]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    if isinstance(a[2], int) and a[2] == 0:
        I.raise_("ValueError", "range() arg 3 must not be zero")
    return RangeV(*a)


def b_minmax(name):
    def f(I, a, k):
        key = k.get("key")
        if len(a) == 1:
            v = a[0]
            if isinstance(v, (Unk, Choice)):
                return Unk(name)
            items = I.iterate(v)
            if not items:
                if "default" in k:
                    return k["default"]
                I.raise_("ValueError", "%s() arg is an empty sequence" % name)
        else:
            items = a
        if key is not None:
            return items[0] if len(items) == 1 and not isinstance(items[0], Star) else Unk(name)
        out = None
        for x in items:
            if isinstance(x, Star):
                if is_num(x.fn(NP.generic(x.length))) if not isinstance(x.length, int) else False:
                    x = NP.reduce_term(I, name, x.fn, x.length)
                else:
                    return Unk(name)
            if isinstance(x, Choice):
                x = I.E(x) if is_num(x.a) and is_num(x.b) else x
            if isinstance(x, Ref) and x.kind == "arr" and len(items) > 1:
                r = I.rec(x)
                if not all(NP.one(d) for d in r.shape):
                    I.event("ambiguous-truth", "%s() of arrays" % name)
                    I.raise_("ValueError", "ambiguous truth value of an array")
                x = I.E(x)
            if isinstance(x, str):
                if out is None or isinstance(out, str):
                    out = x if out is None else (max if name == "max" else min)(out, x)
                    continue
                return Unk(name)
            if x is None or isinstance(x, tuple):
                if x is None:
                    I.event("type-error", "%s() of None" % name)
                    I.raise_("TypeError", "unorderable")
                return Unk(name)
            if not is_num(x):
                return Unk(name)
            out = x if out is None else NP.maxmin(I, name, out, x)
        return out
    return f


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.kind == "arr":
        return NP.map1(I, v, lambda x: NP.abs_(I, x))
    if isinstance(v, Ref) and v.kind == "sp":
        return NP.sp_abs(I, v)
    if is_num(v):
        return NP.abs_(I, v)
    if isinstance(v, Choice):
        return I.fork(v.c, lambda: b_abs(I, [v.a], k), lambda: b_abs(I, [v.b], k))
    return Unk("abs")


def b_sum(I, a, k):
    v = a[0]
    s = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(v, (Unk, Choice)):
        return Unk("sum")
    for x in I.iterate(v):
        if isinstance(x, Star):
            e = x.fn(NP.generic(x.length)) if not isinstance(x.length, int) else x.fn(0)
            if is_num(e) and is_num(s):
                s = I.E(s) + NP.reduce_sum(I, x.fn, x.length)
                continue
            return Unk("sum")
        s = I.binop("Add", s, x)
    return s


def zip_items(I, seqs):
    """Zipped items of several item lists (Stars aligned)."""
    if all(not any(isinstance(x, Star) for x in s) for s in seqs):
        return [tuple(t) for t in zip(*seqs)]
    lens = [I.seq_len(tuple(s)) for s in seqs]
    fin = [n for n in lens if isinstance(n, int)]
    if fin and all(isinstance(n, int) for n in lens):
        m = min(fin)
        return [tuple(I.seq_get(tuple(s), q) for s in seqs) for q in range(m)]
    if fin:
        m = min(fin)
        if m <= 400:
            return [tuple(I.seq_get(tuple(s), q) for s in seqs) for q in range(m)]
    m = lens[0]
    for n in lens[1:]:
        r = X.idx_decide("<", num(n), num(m))
        if r is None:
            if NP.simp(n) is not NP.simp(m):
                return [Star(X.unk("zip"), lambda k: tuple(Unk("zip") for _ in seqs))]
            continue
        if r:
            m = n
    # keep concrete items at the front
    ts = [tuple(s) for s in seqs]
    lead = 0
    while all(len(s) > lead and not isinstance(s[lead], Star) for s in ts):
        lead += 1
    out = [tuple(s[q] for s in ts) for q in range(lead)]
    rest = NP.simp_int(num(m) - lead)
    out.append(Star(rest, lambda k: tuple(I.seq_get(s, NP.simp_int(num(k) + lead)) for s in ts)))
    return out


def b_zip(I, a, k):
    if any(isinstance(x, (Unk,)) for x in a):
        return (Star(X.unk("zip"), lambda q: tuple(Unk("zip") for _ in a)),)
    return tuple(zip_items(I, [I.iterate(x) for x in a]))


def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = I.iterate(a[0])
    out, pos = [], num(start)
    for x in items:
        if isinstance(x, Star):
            out.append(Star(x.length, (lambda x, p: lambda q: (NP.simp_int(num(q) + p), x.fn(q)))(x, pos)))
            pos = pos + x.length
        else:
            out.append((NP.simp_int(pos), x))
            pos = pos + 1
    return tuple(out)


def b_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        out = []
        for x in I.iterate(a[1]):
            if isinstance(x, Star):
                out.append(Star(x.length, I.delayed((lambda x: lambda q: I.call(f, [x.fn(q)], {}))(x))))
            else:
                out.append(I.call(f, [x], {}))
        return tuple(out)
    items = zip_items(I, [I.iterate(x) for x in a[1:]])
    out = []
    for x in items:
        if isinstance(x, Star):
            out.append(Star(x.length, I.delayed((lambda x: lambda q: I.call(f, list(x.fn(q)), {}))(x))))
        else:
            out.append(I.call(f, list(x), {}))
    return tuple(out)


def b_filter(I, a, k):
    out = []
    for x in I.iterate(a[1]):
        if isinstance(x, Star):
            out.append(Star(X.unk("filter"), x.fn))
            continue
        t = I.truth(x if a[0] is None else I.call(a[0], [x], {}))
        if t is True:
            out.append(x)
        elif t is not False:
            out.append(Star(X.unk("filter"), lambda q, x=x: x))
    return tuple(out)


def b_anyall(is_any):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, Ref) and v.kind == "arr":
            return NP.quant(I, NP.asarr(I, v), is_any)
        if isinstance(v, (Unk, Choice)):
            return I.fresh_bool("any")
        c = X.FALSE if is_any else X.TRUE
        for x in I.iterate(v):
            if isinstance(x, Star):
                return I.fresh_bool("any")
            t = I.truth(x)
            t = X.TRUE if t is True else X.FALSE if t is False else t
            c = X.or_(c, t) if is_any else X.and_(c, t)
        return True if c is X.TRUE else False if c is X.FALSE else c
    return f


def seq_new(kind):
    def f(I, a, k):
        a = [x for x in a if not isinstance(x, Native)] if a and isinstance(a[0], Native) else a
        if not a:
            return I.list() if kind == "list" else () if kind == "tuple" else I.new(SetR(()), "set")
        v = a[0]
        if isinstance(v, Choice):
            return I.fork(v.c, lambda: f(I, [v.a], k), lambda: f(I, [v.b], k))
        if isinstance(v, Unk):
            return Unk(kind + " of " + v.reason, v.tag)
        items = I.iterate(v)
        if kind == "list":
            return I.list(items)
        if kind == "tuple":
            return tuple(items)
        return I.new(SetR(I.dedupe(items)), "set")
    return f


def b_dict(I, a, k):
    o = I.dict()
    NP.d_update(I, o, a, {x: v for x, v in k.items() if x != "**"})
    if "**" in k:
        I.set(o, DictR(I.rec(o).items, True))
    return o


def b_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if is_num(v):
        return NP.to_int(v if not isinstance(v, E) or v.op not in ("cmp", "not", "and", "or") else I.E(v))
    if isinstance(v, str):
        try:
            return int(v, *[x for x in a[1:]])
        except ValueError:
            I.raise_("ValueError", "invalid literal for int()")
    if isinstance(v, Ref) and v.kind == "arr":
        return NP.to_int(I.E(v))
    if v is None:
        I.event("type-error", "int(None)")
        I.raise_("TypeError", "int() argument must be a string or a number, not 'NoneType'")
    return X.app("int:cast", X.unk("int"))


def b_float(I, a, k):
    if not a:
        return X.ZERO
    v = a[0]
    if is_num(v):
        e = I.E(v)
        return e
    if isinstance(v, str):
        try:
            return num(float(v))
        except ValueError:
            I.raise_("ValueError", "could not convert string to float")
    if isinstance(v, Ref) and v.kind == "arr":
        return I.E(v)
    if v is None:
        I.event("type-error", "float(None)")
        I.raise_("TypeError", "float() argument must be a string or a number, not 'NoneType'")
    return X.unk("float")


def b_bool(I, a, k):
    return I.truth(a[0]) if a else False


def b_str(I, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Ref) and v.kind == "obj":
        for n in ("__str__", "__repr__"):
            m, c = I.rec(v).cls.lookup(n)
            if m is not None:
                return I.call(I.bind(m, v, c), [], {})
    if isinstance(v, Str):
        return v
    return Str("text", [(v, None)])


def b_repr(I, a, k):
    v = a[0]
    if isinstance(v, (str, int)):
        return repr(v)
    if isinstance(v, Ref) and v.kind == "obj":
        m, c = I.rec(v).cls.lookup("__repr__")
        if m is not None:
            return I.call(I.bind(m, v, c), [], {})
    return Str("repr")


def b_sorted(I, a, k):
    items = I.seq_items(a[0]) if not isinstance(a[0], Unk) else [Star(X.unk("n"), lambda q: Unk("sorted"))]
    reverse = k.get("reverse", False)
    out = NP.sort_items(I, items, k.get("key"), reverse) if isinstance(reverse, bool) else None
    if out is not None:
        return I.list(out)
    if not any(isinstance(x, Star) for x in items):
        return I.list([Star(len(items), lambda q: Unk("sorted"))])
    return I.list([Star(X.unk("sorted"), lambda q: Unk("sorted"))])


def b_reversed(I, a, k):
    return tuple(NP.rev(I, I.iterate(a[0])))


def b_hasattr(I, a, k):
    o, n = a
    if isinstance(o, Unk) or not isinstance(n, str):
        return I.fresh_bool("hasattr")
    ev = len(I.events)
    if isinstance(o, Ref) and o.kind == "obj":
        r = I.rec(o)
        if n in r.attrs:
            v = r.attrs[n]
            if isinstance(v, Choice) and (v.a is Missing or v.b is Missing):
                return v.c if v.b is Missing else X.not_(v.c)
            return True
        if r.cls.lookup(n)[1] is not None:
            return True
        return False if not r.cls.external and not r.tag else I.fresh_bool("hasattr")
    try:
        I.getattr(o, n)
        return True
    except PyRaise:
        del I.events[ev:]
        return False


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        return Unk("getattr")
    if len(a) > 2:
        return I.getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


def b_setattr(I, a, k):
    if isinstance(a[1], str):
        I.setattr(a[0], a[1], a[2])


def b_type(I, a, k):
    a = a[1:] if a and a[0] is T["type"] else a
    t = type_of(I, a[0])
    return t if t is not None else Unk("type")


def b_iter(I, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.kind == "obj":
        m, c = I.rec(v).cls.lookup("__iter__")
        if m is not None:
            return I.call(I.bind(m, v, c), [], {})
    if isinstance(v, (Unk, Choice)):
        return Unk("iterator")
    return I.list(I.iterate(v))


def b_next(I, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.kind == "obj":
        m, c = I.rec(v).cls.lookup("__next__")
        if m is not None:
            return I.call(I.bind(m, v, c), [], {})
    if isinstance(v, Ref) and v.kind == "list":
        items = list(I.rec(v).items)
        if not items:
            if len(a) > 1:
                return a[1]
            I.raise_("StopIteration")
        if not isinstance(items[0], Star):
            I.set(v, ListR(items[1:]))
            return items[0]
    if isinstance(v, tuple) and v and not isinstance(v[0], Star):
        return v[0]
    return Unk("next")


def b_print(I, a, k):
    if I.echo is not None:
        I.echo.append(tuple(a))
    return None


def b_round(I, a, k):
    v = a[0]
    if isinstance(v, int):
        return v
    if is_num(v):
        if len(a) == 1 and X.is_intterm(v):
            return v
        c = X.const(v)
        if c is not None:
            return round(float(c)) if len(a) == 1 else num(round(float(c), I.pyint(a[1])))
        return X.app("int:round", v) if len(a) == 1 else X.fn("round", v)
    return Unk("round")


def b_pow(I, a, k):
    return I.binop("Pow", a[0], a[1])


def b_divmod(I, a, k):
    return (I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1]))


def b_exit(I, a, k):
    I.raise_("SystemExit")


def b_callable(I, a, k):
    r = callable_(I, a[0])
    return I.fresh_bool("callable") if r is None else r


def b_open(I, a, k):
    I.opaque.append("open")
    return Unk("file", a[0] if a and isinstance(a[0], str) else None)


def b_slice(I, a, k):
    a = list(a)
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


def b_id(I, a, k):
    return X.app("int:id", X.unk("id"))


def make(interp):
    out = {}

    def reg(name, f):
        out[name] = NFunc(name, f)

    for n, f in (
        ("isinstance", b_isinstance), ("issubclass", b_issubclass), ("len", b_len), ("range", b_range),
        ("max", b_minmax("max")), ("min", b_minmax("min")), ("abs", b_abs), ("sum", b_sum), ("zip", b_zip),
        ("enumerate", b_enumerate), ("map", b_map), ("filter", b_filter), ("any", b_anyall(True)),
        ("all", b_anyall(False)), ("sorted", b_sorted), ("reversed", b_reversed), ("hasattr", b_hasattr),
        ("getattr", b_getattr), ("setattr", b_setattr), ("iter", b_iter), ("next", b_next), ("print", b_print),
        ("round", b_round), ("repr", b_repr), ("quit", b_exit), ("exit", b_exit), ("pow", b_pow), ("divmod", b_divmod),
        ("callable", b_callable), ("open", b_open), ("id", b_id), ("hash", b_id), ("slice", b_slice),
        ("input", lambda I, a, k: Str("input")), ("vars", lambda I, a, k: I.getattr(a[0], "__dict__") if a else Unk("vars")),
        ("format", lambda I, a, k: Str("format")), ("ord", b_id), ("chr", lambda I, a, k: Str("chr")),
        ("super", lambda I, a, k: SuperV(a[0], a[1]) if len(a) == 2 else Unk("super")),
        ("locals", lambda I, a, k: Unk("locals")), ("globals", lambda I, a, k: Unk("globals")),
        ("delattr", lambda I, a, k: I.del_attr(a[0], a[1])),
        ("eval", lambda I, a, k: Unk("eval")), ("exec", lambda I, a, k: None),
        ("staticmethod", lambda I, a, k: StaticM(a[0])), ("classmethod", lambda I, a, k: ClassM(a[0])),
        ("property", lambda I, a, k: Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))),
    ):
        reg(n, f)
    news = {"list": seq_new("list"), "tuple": seq_new("tuple"), "set": seq_new("set"), "frozenset": seq_new("set"),
            "dict": b_dict, "int": b_int, "float": b_float, "bool": b_bool, "str": b_str, "type": b_type,
            "bytes": lambda I, a, k: Unk("bytes"), "complex": lambda I, a, k: Unk("complex")}
    for n, t in T.items():
        if n in news:
            t.methods["__new__"] = (lambda f: lambda I, a, k: f(I, [x for q, x in enumerate(a) if q or not isinstance(x, (Native, Cls))], k))(news[n])
        if n in ("ndarray", "NoneType", "function", "slice", "range"):
            continue
        out[n] = t
    T["object"].methods["__new__"] = lambda I, a, k: I.obj(T["object"])
    out.update(EXC)
    out.update({"NotImplemented": Ext("NotImplemented"), "Ellipsis": Ellipsis, "__name__": "module", "__debug__": True,
                "__file__": Str("file")})
    return out


# ------------------------------------------------------------------ libraries
EXT = {}
EXT["abc.ABC"] = Native("ABC")


def it_product(I, a, k):
    rep = k.get("repeat", 1)
    seqs = [I.iterate(x) for x in a]
    if isinstance(rep, int):
        seqs = seqs * rep
    if any(isinstance(x, Star) for s in seqs for x in s):
        if len(seqs) == 1:
            return tuple(x if not isinstance(x, Star) else Star(x.length, lambda q, x=x: (x.fn(q),)) for x in seqs[0])
        return (Star(X.unk("product"), lambda q: tuple(Unk("product") for _ in seqs)),)
    return tuple(itertools.product(*seqs))


def it_chain(I, a, k):
    return tuple(x for s in a for x in I.iterate(s))


EXT["itertools.product"] = it_product
EXT["itertools.chain"] = it_chain
EXT["itertools.chain.from_iterable"] = lambda I, a, k: it_chain(I, I.iterate(a[0]), k) if not any(isinstance(x, Star) for x in I.iterate(a[0])) else Unk("chain")
EXT["itertools.islice"] = lambda I, a, k: tuple(I.seq_slice(tuple(I.iterate(a[0])), Slice(None, a[1], None) if len(a) == 2 else Slice(*(list(a[1:]) + [None])[:3])))


def it_pairwise(I, a, k):
    items = tuple(I.iterate(a[0]))
    return tuple(zip_items(I, [list(items), I.seq_slice(items, Slice(1, None, None))]))


EXT["itertools.pairwise"] = it_pairwise
EXT["itertools.accumulate"] = lambda I, a, k: Unk("accumulate")


def it_comb(I, a, k):
    items = I.iterate(a[0])
    if any(isinstance(x, Star) for x in items):
        return Unk("combinations")
    return tuple(itertools.combinations(items, a[1]))


EXT["itertools.combinations"] = it_comb


def f_reduce(I, a, k):
    items = I.iterate(a[1])
    if any(isinstance(x, Star) for x in items):
        return Unk("reduce")
    items = list(items)
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


EXT["functools.reduce"] = f_reduce


def f_partial(I, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return NFunc("partial", lambda I, b, kk: I.call(f, pre + list(b), {**kw, **kk}))


EXT["functools.partial"] = f_partial


def f_lru(I, a, k):
    if a and isinstance(a[0], Func):
        return a[0]
    return NFunc("lru_cache", lambda I, b, kk: b[0])


EXT["functools.lru_cache"] = EXT["functools.cache"] = f_lru
EXT["functools.wraps"] = lambda I, a, k: NFunc("wraps", lambda I, b, kk: b[0])
EXT["math.sqrt"] = lambda I, a, k: X.fn("sqrt", I.E(a[0]))
EXT["math.ceil"] = lambda I, a, k: ceil_(I, a[0])
EXT["math.floor"] = lambda I, a, k: floor_(I, a[0])
for _n in ("sin", "cos", "tan", "exp", "log", "log2", "log10"):
    EXT["math." + _n] = (lambda n: lambda I, a, k: X.fn(n, I.E(a[0])))(_n)
EXT["math.fabs"] = lambda I, a, k: X.fn("abs", I.E(a[0]))
EXT["math.isnan"] = lambda I, a, k: NP.b2(I, X.isnan_(I.E(a[0])))
EXT["math.isclose"] = lambda I, a, k: I.fresh_bool("isclose")
EXT["math.pow"] = lambda I, a, k: X.power(I.E(a[0]), I.E(a[1]))


def floor_(I, v):
    if isinstance(v, int):
        return v
    e = I.E(v)
    if X.is_intterm(e):
        return e
    c = X.const(NP.simp(e))
    return c.__floor__() if c is not None else X.fn("floor", e)


def ceil_(I, v):
    if isinstance(v, int):
        return v
    e = I.E(v)
    if X.is_intterm(e):
        return e
    c = X.const(NP.simp(e))
    return c.__ceil__() if c is not None else X.neg(X.fn("floor", X.neg(e)))


# tqdm: iterates its argument unchanged
def t_tqdm(I, a, k):
    v = a[0] if a else k.get("iterable")
    if v is None:
        return Unk("progress bar")
    return v


EXT["tqdm.auto.tqdm"] = EXT["tqdm.tqdm"] = t_tqdm
EXT["tqdm.auto.trange"] = EXT["tqdm.trange"] = lambda I, a, k: b_range(I, a, {})
EXT["tqdm.auto.tqdm.write"] = EXT["tqdm.tqdm.write"] = lambda I, a, k: None
EXT["typing.cast"] = lambda I, a, k: a[1]
EXT["typing.TypeVar"] = lambda I, a, k: Ext("typing.TypeVar()")
EXT["copy.copy"] = lambda I, a, k: shallow(I, a[0])
EXT["copy.deepcopy"] = lambda I, a, k: deep(I, a[0], {})
EXT["operator.add"] = lambda I, a, k: I.binop("Add", a[0], a[1])
EXT["operator.sub"] = lambda I, a, k: I.binop("Sub", a[0], a[1])
EXT["operator.mul"] = lambda I, a, k: I.binop("Mult", a[0], a[1])
EXT["operator.truediv"] = lambda I, a, k: I.binop("Div", a[0], a[1])


def shallow(I, v):
    if isinstance(v, Ref):
        if v.kind == "arr":
            return NP.mk_arr(I, NP.asarr(I, v))
        return I.new(I.rec(v), v.kind)
    return v


def deep(I, v, memo):
    if isinstance(v, tuple):
        return tuple(deep(I, x, memo) if not isinstance(x, Star) else x for x in v)
    if not isinstance(v, Ref):
        return v
    if v.id in memo:
        return memo[v.id]
    r = I.rec(v)
    if v.kind == "arr":
        memo[v.id] = NP.mk_arr(I, NP.asarr(I, v))
    elif v.kind == "list":
        memo[v.id] = n = I.list()
        I.set(n, ListR([deep(I, x, memo) if not isinstance(x, Star) else x for x in r.items]))
    elif v.kind == "dict":
        memo[v.id] = n = I.dict()
        I.set(n, DictR({k: deep(I, x, memo) for k, x in r.items.items()}, r.open))
    elif v.kind == "obj":
        memo[v.id] = n = I.obj(r.cls, {}, r.tag)
        I.set(n, ObjR(r.cls, {k: deep(I, x, memo) for k, x in r.attrs.items()}, r.tag))
    else:
        memo[v.id] = I.new(r, v.kind)
    return memo[v.id]


# polynomials ---------------------------------------------------------
def poly_new(I, coeffs):
    """coeffs: lowest degree first."""
    return I.obj(POLY, {"_c": tuple(coeffs)})


def poly_call(I, a, k):
    cs = I.rec(a[0]).attrs["_c"]

    def ev(x):
        t = X.ZERO
        for c in reversed(cs):
            t = t * I.E(x) + I.E(c)
        return t

    v = a[1]
    if isinstance(v, Ref) and v.kind in ("arr", "list"):
        return NP.map1(I, v, ev, "f")
    if is_num(v):
        return ev(v)
    return Unk("polynomial value")


def poly_deriv(I, a, k):
    cs = I.rec(a[0]).attrs["_c"]
    m = a[1] if len(a) > 1 else k.get("m", 1)
    for _ in range(m if isinstance(m, int) else 1):
        cs = tuple(I.E(c) * q for q, c in enumerate(cs))[1:] or (X.ZERO,)
    return poly_new(I, cs)


def poly_roots(I, a, k):
    return Unk("roots")


POLY = Native("poly1d", (), {
    "__call__": poly_call, "deriv": poly_deriv,
    "integ": lambda I, a, k: poly_new(I, (X.ZERO,) + tuple(I.E(c) / (q + 1) for q, c in enumerate(I.rec(a[0]).attrs["_c"]))),
    "__add__": lambda I, a, k: Unk("poly"), "__mul__": lambda I, a, k: Unk("poly"), "__sub__": lambda I, a, k: Unk("poly"),
})


def lagrange(I, a, k):
    xs, ys = I.seq_items(a[0]), I.seq_items(a[1])
    if any(isinstance(x, Star) or not is_num(x) for x in xs + ys) or len(xs) != len(ys):
        return Unk("lagrange")
    n = len(xs)
    tot = [X.ZERO] * n
    for i in range(n):
        c = [X.ONE]
        den = X.ONE
        for j in range(n):
            if j == i:
                continue
            xj = I.E(xs[j])
            c = [(c[q - 1] if q else X.ZERO) - (xj * c[q] if q < len(c) else X.ZERO) for q in range(len(c) + 1)]
            den = den * (I.E(xs[i]) - xj)
        for q in range(n):
            tot[q] = tot[q] + I.E(ys[i]) * c[q] / den
    return poly_new(I, [NP.simp(t) for t in tot])


EXT["scipy.interpolate.lagrange"] = lagrange
EXT["numpy.poly1d"] = lambda I, a, k: poly_new(I, list(reversed(I.seq_items(a[0])))) if not any(isinstance(x, Star) for x in I.seq_items(a[0])) else Unk("poly1d")


# Gauss quadrature: symmetric nodes and weights, exact for n <= 3
def leggauss(I, a, k):
    n = a[0]
    if not isinstance(n, int):
        return (Unk("nodes"), Unk("weights"))
    F = X.Fraction
    tab = {
        1: ([X.ZERO], [num(2)]),
        2: ([-X.fn("sqrt", num(F(1, 3))), X.fn("sqrt", num(F(1, 3)))], [X.ONE, X.ONE]),
        3: ([-X.fn("sqrt", num(F(3, 5))), X.ZERO, X.fn("sqrt", num(F(3, 5)))], [num(F(5, 9)), num(F(8, 9)), num(F(5, 9))]),
    }
    if n in tab:
        xs, ws = tab[n]
    else:
        h = n // 2
        xp = [X.sym("ξ%d_%d" % (n, q), "unit") for q in range(h)]
        wp = [X.sym("ω%d_%d" % (n, q), "pos") for q in range(h)]
        xs = [-x for x in xp] + ([X.ZERO] if n % 2 else []) + xp[::-1]
        rest = num(2) - sum((w * 2 for w in wp), X.ZERO)
        if n % 2:
            ws = wp + [rest] + wp[::-1]
        else:
            wl = num(1) - sum(wp[:-1], X.ZERO)
            ws = wp[:-1] + [wl, wl] + wp[:-1][::-1]
    return (NP.new_arr(I, (n,), lambda i: xs[i[0]] if isinstance(i[0], int) else X.unk("node")),
            NP.new_arr(I, (n,), lambda i: ws[i[0]] if isinstance(i[0], int) else X.unk("weight")))


EXT["numpy.polynomial.legendre.leggauss"] = leggauss


# seeded random generators ---------------------------------------------
RNG = Native("Generator", (), {})


def rng_call(name):
    def f(I, a, k):
        r = I.rec(a[0])
        n = r.attrs.get("_n", 0)
        I.setattr(a[0], "_n", n + 1 if isinstance(n, int) else n)
        I.event("rng", "%s of generator %s" % (name, X.show(r.attrs["_seed"]) if isinstance(r.attrs["_seed"], E) else r.attrs["_seed"]))
        seed = r.attrs["_seed"]
        se = I.E(seed) if is_num(seed) else X.mk("sym", ("rng", a[0].id))
        base = X.app(("int:" if name == "integers" else "") + "rng", num(n) if isinstance(n, int) else X.unk("n"), se, *[I.E(x) for x in a[1:] if is_num(x)])
        size = k.get("size")
        if size is None:
            pos = {"integers": 3, "uniform": 3, "normal": 3, "random": 1, "choice": 2}.get(name, 9)
            size = a[pos] if len(a) > pos else None
        if size is not None:
            s = NP.shape_arg(I, size)
            if s is None:
                return Unk("random")
            return NP.new_arr(I, s, lambda i: X.app("rng", base, *[num(t) for t in i]), "i" if name == "integers" else "f")
        if name == "choice":
            return Unk("choice")
        return base
    return f


for _n in ("integers", "uniform", "normal", "random", "choice", "standard_normal", "shuffle", "permutation"):
    RNG.methods[_n] = rng_call(_n)


def default_rng(I, a, k):
    seed = a[0] if a else k.get("seed")
    I.event("rng-new", "seed %s" % ("none" if seed is None else "given"))
    return I.obj(RNG, {"_seed": seed, "_n": 0})


EXT["numpy.random.default_rng"] = default_rng
EXT["numpy.random.Generator"] = RNG


def global_rng(name):
    def f(I, a, k):
        I.event("rng-global", name)
        return Unk("global random")
    return f


for _n in ("numpy.random.rand", "numpy.random.random", "numpy.random.uniform", "numpy.random.randint", "numpy.random.normal",
           "numpy.random.choice", "numpy.random.shuffle", "numpy.random.permutation", "numpy.random.randn",
           "random.random", "random.uniform", "random.randint", "random.choice", "random.shuffle", "random.gauss",
           "random.sample", "random.normalvariate"):
    EXT[_n] = global_rng(_n)
EXT["numpy.random.seed"] = EXT["random.seed"] = EXT["torch.manual_seed"] = lambda I, a, k: I.event("rng-seed", "seed")


def newton(I, a, k):
    I.opaque.append("newton")
    f, x0 = a[0], a[1]
    es = [I.E(x0)] if is_num(x0) else []
    return X.app("newton", *es) if is_num(x0) else Unk("newton")


EXT["scipy.optimize.newton"] = newton


def _os_path(name):
    import posixpath

    def f(I, a, k):
        if a and all(isinstance(x, str) for x in a) and not k:
            return getattr(posixpath, name)(*a)
        if name == "join" and all(isinstance(x, (str, Str)) for x in a):
            out = a[0]
            for x in a[1:]:
                if isinstance(x, Str) and not (x.parts and isinstance(x.parts[0], str) and not x.parts[0].startswith("/")):
                    return Str("join")
                if isinstance(x, str) and x.startswith("/"):
                    out = x
                    continue
                last = out if isinstance(out, str) else out.parts[-1] if out.parts and isinstance(out.parts[-1], str) else None
                if last is None:
                    return Str("join")
                out = concat(out, x) if last == "" or last.endswith("/") else concat(out, "/", x)
            return out
        for x in a:
            if x is None or (not isinstance(x, (str, Str, Unk)) and name != "join"):
                I.raise_("TypeError", "expected str, bytes or os.PathLike object")
        return (Str("path"), Str("path")) if name in ("splitext", "split") else Str("path")
    return f


for _n in ("splitext", "join", "basename", "dirname", "split", "normpath"):
    EXT["os.path." + _n] = _os_path(_n)
