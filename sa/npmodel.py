from fractions import Fraction
"""Array model: shapes and generic elements, views, masks, sparse matrices."""
import itertools
import math

from . import expr as X
from .expr import E, num
from .values import *
from .values import concat as join_text

EXT, CONST = {}, {}
CONST.update({
    "numpy.nan": X.NAN, "numpy.NaN": X.NAN, "numpy.NAN": X.NAN, "math.nan": X.NAN,
    "numpy.inf": X.INF, "numpy.infty": X.INF, "math.inf": X.INF,
    "numpy.pi": X.sym("π", "pos"), "math.pi": X.sym("π", "pos"),
    "numpy.newaxis": None,
})


# ---------------------------------------------------------------- scalars
_SIMP = {}


def simp(e):
    e = num(e)
    r = _SIMP.get(e.id)
    if r is None:
        try:
            r = X.canon(e)
        except X.TooBig:
            r = e
        _SIMP[e.id] = r
    return r


def simp_int(e):
    """Python int when constant, canonical term otherwise."""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    r = simp(e)
    c = X.const(r)
    if c is not None and c.denominator == 1:
        return int(c)
    return r


def ikey(i):
    return i if isinstance(i, int) else ("E", i.id)


def memo(fn):
    cache = {}

    def g(idx):
        idx = tuple(simp_int(i) for i in idx)
        key = tuple(ikey(i) for i in idx)
        if key not in cache:
            cache[key] = fn(idx)
        return cache[key]

    return g


def dim_eq(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = num(a), num(b)
    if a is b:
        return True
    r = X.idx_decide("==", a, b)
    if r is None:
        return simp(a) is simp(b)
    return r


def dim_ne(a, b):
    """Certainly different."""
    if isinstance(a, int) and isinstance(b, int):
        return a != b
    if X.tainted(num(a)) or X.tainted(num(b)):
        return False
    return X.idx_decide("==", num(a), num(b)) is False


def one(d):
    return isinstance(d, int) and d == 1


def divmod_lin(e, d):
    """(quotient, remainder) of an integer linear form by a positive int."""
    if isinstance(e, int):
        return e // d, e % d
    l = X.ilin(e)
    if l is None:
        return None
    c, co = l
    if any(k.denominator != 1 or k % d for k in co.values()) or c.denominator != 1:
        return None
    q = num(int(c) // d)
    for s, k in co.items():
        q = q + s * num(k / d)
    return simp_int(q), int(c) % d


def to_int(v):
    """int() / np.integer conversion."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    c = X.const(v)
    if c is not None:
        return int(c)
    if X.is_intterm(v):
        return v
    try:
        w = X.canon(v)
    except X.TooBig:
        w = v
    if X.const(w) is not None:
        return int(X.const(w))
    if X.is_intterm(w):
        return w
    return X.fn("trunc", v)


def scalar_op(I, op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        try:
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op == "FloorDiv":
                return a // b
            if op == "Mod":
                return a % b
            if op == "Pow" and b >= 0 and abs(a) < 10**4 and b < 200:
                return a ** b
            if op == "BitOr":
                return a | b
            if op == "BitAnd":
                return a & b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
            if op == "Div":
                if b == 0:
                    raise ZeroDivisionError
                return num(X.Fraction(a, b))
        except ZeroDivisionError:
            I.raise_("ZeroDivisionError")
    bool_ = lambda v: isinstance(v, E) and v.op in ("cmp", "not", "and", "or", "isnan", "true", "false")
    if op in ("BitAnd", "BitOr") and (bool_(a) or bool_(b)):
        ca, cb = [v if isinstance(v, E) else (X.TRUE if v else X.FALSE) for v in (a, b)]
        return X.and_(ca, cb) if op == "BitAnd" else X.or_(ca, cb)
    ea, eb = I.E(a), I.E(b)
    if op == "Add":
        return X.add(ea, eb)
    if op == "Sub":
        return X.add(ea, X.neg(eb))
    if op == "Mult":
        return X.mul(ea, eb)
    if op == "Div":
        if eb is X.ZERO:
            if ea is X.ZERO:
                return X.NAN
        return X.div(ea, eb)
    if op == "Pow":
        return X.power(ea, eb)
    if op in ("FloorDiv", "Mod"):
        k = simp_int(eb)
        if isinstance(k, int) and k > 0 and X.is_intterm(ea):
            r = divmod_lin(simp_int(ea), k)
            if r is not None:
                return r[0] if op == "FloorDiv" else r[1]
        if X.is_intterm(ea) and X.is_intterm(eb):
            lo, hi = X.isign(ea), X.isign(simp(ea - eb))
            if lo is not None and hi is not None and X.isign(eb) == 1:
                q, r = 0, ea
                if lo < 0 and (X.isign(simp(ea + eb)) or 0) >= 0 and X.isign(simp(ea + eb)) is not None:
                    q, r = -1, ea + eb
                elif lo < 0:
                    q = None
                elif hi >= 0:
                    if X.isign(simp(ea - eb - eb)) == -1:
                        q, r = 1, ea - eb
                    else:
                        q = None
                if q is not None:
                    return q if op == "FloorDiv" else simp_int(r)
            return X.app("int:" + op, ea, eb)
        if op == "FloorDiv":
            c = X.const(simp(ea / eb)) if not (X.const(eb) == 0) else None
            if c is not None:
                return num(c.__floor__())
            return X.fn("floor", X.div(ea, eb))
        ca, cb = X.const(simp(ea)), X.const(simp(eb))
        if ca is not None and cb:
            return num(ca - cb * (ca / cb).__floor__())
        return X.fn("mod", ea, eb)
    return X.unk("op " + op)


# ---------------------------------------------------------------- arrays
class View:
    """Per base axis: ("fix", i) or ("sl", start, step, view axis)."""

    __slots__ = ("axes", "ndim")

    def __init__(self, axes, ndim):
        self.axes, self.ndim = tuple(axes), ndim


def view_idx(view, idx):
    out = []
    for a in view.axes:
        if a[0] == "fix":
            out.append(a[1])
        else:
            out.append(simp_int(num(a[1]) + num(idx[a[3]]) * a[2]) if not (a[1] == 0 and a[2] == 1) else idx[a[3]])
    return tuple(out)


def get_fn_in(st, ref):
    r = st.heap[ref.id]
    if r.base is None:
        return r.fn
    b = st.heap[r.base.id]
    bf, v = b.fn, r.view
    return lambda idx: bf(view_idx(v, idx))


def get_fn(I, ref):
    return get_fn_in(I.st, ref)


def new_arr(I, shape, fn, kind="f", tag=None):
    return I.new(ArrR([simp_int(d) for d in shape], memo(fn), kind=kind, tag=tag), "arr")


class A:
    """Detached array: shape, element function, kind."""

    __slots__ = ("shape", "fn", "kind")

    def __init__(self, shape, fn, kind="f"):
        self.shape, self.fn, self.kind = tuple(shape), fn, kind


def kind_of(v):
    if isinstance(v, bool) or (isinstance(v, E) and v.op in ("cmp", "not", "and", "or", "isnan", "true", "false")):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, E):
        if v.op != "num" and X.is_intterm(v):
            return "i"
        return "f"
    if isinstance(v, Unk):
        return "f"
    return "o"


class NotArray(Exception):
    pass


def asarr(I, v, deep=True):
    """Detached array of any array-like value."""
    if isinstance(v, Ref) and v.kind == "arr":
        r = I.rec(v)
        return A(r.shape, get_fn(I, v), r.kind)
    if isinstance(v, Choice):
        a, b = asarr(I, v.a), asarr(I, v.b)
        if len(a.shape) == len(b.shape) and all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
            return A(a.shape, lambda i: I.join_value(v.c, a.fn(i), b.fn(i)), a.kind)
        raise NotArray()
    if is_num(v) or isinstance(v, (str, Str)) or v is None:
        return A((), lambda i: v, kind_of(v))
    if isinstance(v, RangeV):
        v = tuple(I.iterate(v))
    if isinstance(v, Ref) and v.kind in ("list",):
        v = I.rec(v).items
    if isinstance(v, Ref) and v.kind == "sp":
        r = I.rec(v)
        return A(r.shape, lambda i: sp_elem(I, r, *i))
    if isinstance(v, tuple):
        return stack_seq(I, v)
    if isinstance(v, Ref) and v.kind == "obj":
        r = I.rec(v)
        if r.cls.lookup("__len__")[0] is not None and r.cls.lookup("__getitem__")[0] is not None:
            return stack_seq(I, tuple(I.iterate(v)))
        if r.cls.lookup("__array__")[0] is not None:
            m, c = r.cls.lookup("__array__")
            return asarr(I, I.call(I.bind(m, v, c), [], {}))
        return A((), lambda i: v, "o")
    if isinstance(v, Unk):
        raise NotArray()
    if isinstance(v, (Func, Bound, Cls, Native, Ext, NFunc)):
        return A((), lambda i: v, "o")
    raise NotArray()


def stack_seq(I, items):
    if not items:
        return A((0,), lambda i: X.unk("empty"), "f")
    n = I.seq_len(items)
    parts = []
    kind = None
    sub = None
    for x in items:
        if isinstance(x, Star):
            probe = x.fn(generic(x.length)) if not isinstance(x.length, int) else x.fn(0)
            a = asarr(I, probe)
            fncache = {}

            def f(i, x=x, fncache=fncache):
                k = ikey(i[0])
                if k not in fncache:
                    try:
                        fncache[k] = asarr(I, x.fn(i[0]))
                    except NotArray:
                        fncache[k] = A((), lambda j: X.unk("element"))
                return fncache[k].fn(i[1:])

            parts.append((x.length, f))
        else:
            a = asarr(I, x)
            parts.append((1, lambda i, a=a: a.fn(i[1:])))
        if sub is None:
            sub = a.shape
        elif len(sub) != len(a.shape) or any(dim_ne(p, q) for p, q in zip(sub, a.shape)):
            I.event("shape-mismatch", "rows of different shapes %s and %s" % (shp(sub), shp(a.shape)))
            I.raise_("ValueError", "inhomogeneous shape")
        kind = a.kind if kind is None else join_kind(kind, a.kind)

    if len(parts) == 1:
        return A((n,) + tuple(sub), parts[0][1], kind)
    return A((n,) + tuple(sub), concat_fn(I, parts), kind)


def concat_fn(I, parts):
    def fn(i):
        p = i[0]
        pos = 0
        for ln, f in parts:
            end = simp_int(num(pos) + ln)
            r = X.idx_decide("<", num(p), num(end))
            if r is None:
                break
            if r:
                return f((simp_int(num(p) - pos),) + tuple(i[1:]))
            pos = end
        else:
            return X.unk("out of range")
        # undecided position: choose by comparisons
        pos, out = 0, []
        for ln, f in parts:
            out.append((pos, simp_int(num(pos) + ln), f))
            pos = out[-1][1]
        v = I.E(out[-1][2]((simp_int(num(p) - out[-1][0]),) + tuple(i[1:])))
        for a, b, f in reversed(out[:-1]):
            v = X.ite(X.cmp_("<", num(p), num(b)), I.E(f((simp_int(num(p) - a),) + tuple(i[1:]))), v)
        return v

    return fn


def join_kind(a, b):
    if a == b:
        return a
    if "o" in (a, b):
        return "o"
    if "f" in (a, b):
        return "f"
    return "i"


def shp(s):
    return "(%s)" % ",".join(str(d) if isinstance(d, int) else X.show(d) for d in s)


_GEN = {}


def generic(n, tag="g"):
    """A generic interior position of an axis of symbolic length."""
    n = simp(n)
    key = (n.id, tag)
    if key not in _GEN:
        name = "%s%d" % (tag, len(_GEN))
        X.IDXLEN[name] = n
        _GEN[key] = X.sym(name, "idx")
    return _GEN[key]


def positions(n, tag="g", edge=2):
    """Representative positions covering an axis."""
    if isinstance(n, int):
        return list(range(n))
    ends = [simp(num(n) - q) for q in range(edge, 0, -1)]
    l = X.ilin(n)
    if l is not None and l[1]:
        c = math.gcd(*[int(k) for k in l[1].values()]) if all(k.denominator == 1 for k in l[1].values()) else 1
        if c > 1 and l[0].denominator == 1 and int(l[0]) % c == 0 and c <= 8:
            g = generic(simp(num(n) / c), tag)
            return list(range(edge)) + [simp_int(g * c + r) for r in range(c)] + ends
    return list(range(edge)) + [generic(n, tag)] + ends


def mk_arr(I, a):
    return new_arr(I, a.shape, a.fn, a.kind)


def out_value(I, a):
    """Scalar for shape (), array otherwise."""
    if not a.shape:
        v = a.fn(())
        return v
    return mk_arr(I, a)


def broadcast_shape(I, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for ax in range(n):
        d = 1
        for s in shapes:
            k = ax - (n - len(s))
            if k < 0:
                continue
            e = s[k]
            if one(e):
                continue
            if one(d):
                d = e
            elif dim_ne(d, e):
                I.event("shape-mismatch", "operands with shapes %s" % " ".join(shp(t) for t in shapes))
                I.raise_("ValueError", "operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def bidx(shape, n, idx):
    """Index into an operand of `shape` for result index idx (rank n)."""
    off = n - len(shape)
    return tuple(0 if one(d) else idx[off + k] for k, d in enumerate(shape))


def ufunc(I, arrs, f, kind="f"):
    shape = broadcast_shape(I, [a.shape for a in arrs])
    n = len(shape)
    return A(shape, lambda i: f(*[a.fn(bidx(a.shape, n, i)) for a in arrs]), kind)


class Keywords(dict):
    """Keyword arguments that remember which of them the model looked at."""

    def __init__(self, d):
        super().__init__(d)
        self.seen = set()

    def get(self, k, default=None):
        self.seen.add(k)
        return super().get(k, default)

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self.seen.add(k)
        return super().__contains__(k)

    def copy(self):
        self.seen.update(self)
        return dict(self)


# layout and precision do not matter for exact values
HARMLESS = {"dtype", "copy", "order", "casting", "subok", "ndmin", "like", "kind", "assume_unique", "optimize", "out"}


def guard(f):
    """Array functions on unknown operands give unknown results, and so do
    keyword arguments the model of the function does not know."""

    def g(I, args, kwargs):
        kw = Keywords(kwargs) if kwargs else kwargs
        try:
            r = f(I, args, kw)
        except NotArray:
            return Unk("array of unknown", tag_of(args))
        if kwargs:
            left = [k for k, v in kwargs.items() if k not in kw.seen and k not in HARMLESS and v is not None and not (k == "keepdims" and v is False)
                    and not (k == "where" and v is True) and not (k == "endpoint" and v is True)]
            if left:
                return Unk("keyword %s of %s" % (", ".join(left), f.__name__), tag_of(args))
        return r

    g.__name__ = f.__name__
    return g


def tag_of(args):
    for a in args:
        if isinstance(a, Unk) and a.tag:
            return a.tag
    return None


def reg(*names):
    def d(f):
        g = guard(f)
        for n in names:
            EXT["numpy." + n] = g
        return f

    return d


def arg(args, kwargs, k, name, default=None):
    if k is not None and k < len(args):
        return args[k]
    return kwargs.get(name, default)


def finish(I, a, kwargs):
    out = kwargs.get("out")
    if isinstance(out, tuple) and out:
        out = out[0]
    w = kwargs.get("where", True)
    if isinstance(out, Ref) and out.kind == "arr":
        if w is not True:
            old, m = asarr(I, out), asarr(I, w)
            a = ufunc(I, [m, a, old], lambda c, x, y: choose(I, c, x, y), a.kind)
        r = I.rec(out)
        write(I, out, a)
        return out
    if w is not True and isinstance(w, Ref):
        m = asarr(I, w)
        a = ufunc(I, [m, a], lambda c, x: choose(I, c, x, X.unk("uninitialised")), a.kind)
    return out_value(I, a)


def choose(I, c, x, y):
    if isinstance(c, E) and c.op not in ("cmp", "not", "and", "or", "isnan", "true", "false", "bool"):
        c = X.not_(X.cmp_("==", c, X.ZERO))
    if isinstance(c, E):
        d = I.decide(c)
        if d is not None:
            c = d
    if c is True or c is X.TRUE or (isinstance(c, int) and c):
        return x
    if c is False or c is X.FALSE or (isinstance(c, int) and not c):
        return y
    if isinstance(c, E):
        return I.join_value(c, x, y)
    return X.unk("choose")


# elementwise functions -------------------------------------------------
def el1(name, f, kind=None):
    @reg(*name.split())
    def g(I, args, kwargs):
        v = args[0] if args else kwargs.get("x")
        if isinstance(v, Ref) and v.kind == "sp":
            return sp_map(I, v, lambda x: f(I, x))
        a = asarr(I, v)
        return finish(I, ufunc(I, [a], lambda x: f(I, x), kind or ("f" if a.kind != "i" else "f")), kwargs)

    return g


def lift(n):
    def f(I, x):
        return X.fn(n, I.E(x))
    return f


def abs_(I, x):
    if isinstance(x, int) and not isinstance(x, bool):
        return abs(x)
    e = I.E(x)
    if X.is_intterm(e):
        s = X.isign(e)
        if s is not None:
            return e if s >= 0 else X.neg(e)
    return X.fn("abs", e)


for _n in ("sqrt", "sin", "cos", "tan", "exp", "log", "log2", "log10", "sinh", "cosh", "tanh", "arctan", "floor", "ceil"):
    el1(_n, lift(_n))
el1("abs absolute fabs", abs_)
el1("sign", lift("sign"))
el1("negative", lambda I, x: I.unary("USub", x))
el1("square", lambda I, x: X.mul(I.E(x), I.E(x)))
el1("reciprocal", lambda I, x: X.div(1, I.E(x)))
el1("positive", lambda I, x: x)
el1("isnan", lambda I, x: b2(I, X.isnan_(I.E(x))), "b")
el1("isfinite", lambda I, x: b2(I, X.not_(X.or_(X.isnan_(I.E(x)), isinf(I.E(x))))), "b")
el1("isinf", lambda I, x: b2(I, isinf(I.E(x))), "b")
el1("logical_not invert", lambda I, x: not_(I, x), "b")
el1("nan_to_num", lambda I, x: X.ite(X.isnan_(I.E(x)), X.ZERO, I.E(x)))
el1("rint round around", lambda I, x: x if isinstance(x, int) else X.fn("round", I.E(x)))


def isinf(e):
    e = num(e)
    if e.op == "inf":
        return X.TRUE
    if e.op in ("mul", "neg") and sum(1 for a in e.args if isinstance(a, E) and a.op == "inf") == 1 and all(
        a.op == "inf" or X.const(a) not in (None, 0) for a in e.args if isinstance(a, E)
    ):
        return X.TRUE
    if e.op == "ite":
        c, x, y = e.args
        ix, iy = isinf(x), isinf(y)
        if ix is iy:
            return ix
        if ix is X.TRUE and iy is X.FALSE:
            return c
        if ix is X.FALSE and iy is X.TRUE:
            return X.not_(c)
        return X.or_(X.and_(c, ix), X.and_(X.not_(c), iy))
    if X.contains(e, lambda t: t.op == "inf"):
        return X.fresh if False else X.mk("cmp", "<", X.unk("inf"), X.ZERO)
    return X.FALSE


def b2(I, c):
    if isinstance(c, bool):
        return c
    r = I.decide(c)
    return c if r is None else r


def not_(I, x):
    t = I.truth(x)
    return (not t) if isinstance(t, bool) else X.not_(t)


def el2(names, f, kind=None):
    @reg(*names.split())
    def g(I, args, kwargs):
        if any(isinstance(a, Ref) and a.kind == "sp" for a in args[:2]):
            return Unk("sparse ufunc")
        a, b = asarr(I, args[0]), asarr(I, args[1])
        if len(args) > 2:
            kwargs = dict(kwargs.copy(), out=args[2])
        return finish(I, ufunc(I, [a, b], lambda x, y: f(I, x, y), kind or join_kind(a.kind, b.kind)), kwargs)

    return g


def maxmin(I, n, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return (max if n == "max" else min)(x, y)
    ex, ey = I.E(x), I.E(y)
    if X.is_intterm(ex) and X.is_intterm(ey):
        r = X.idx_decide(">=", ex, ey)
        if r is not None:
            return x if r == (n == "max") else y
    for u, v in ((ex, ey), (ey, ex)):
        c = X.const(u)
        if I.wet and c is not None and 0 < c <= TINY and X.const(X.canon(v)) is None:  # wet states exceed the dry tolerance
            try:
                if X.sign_p(X.nf(v)) == 2:
                    return v if n == "max" else u
            except X.TooBig:
                pass
    return X.fn(n, ex, ey)


TINY = Fraction(1, 10**9)


el2("maximum fmax", lambda I, x, y: maxmin(I, "max", x, y))
el2("minimum fmin", lambda I, x, y: maxmin(I, "min", x, y))
for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("power", "Pow"), ("float_power", "Pow"),
               ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv")):
    el2(_n, (lambda o: lambda I, x, y: I.binop(o, x, y))(_o))
el2("divide true_divide", lambda I, x, y: I.binop("Div", x, y), "f")
el2("hypot", lambda I, x, y: X.fn("sqrt", I.E(x) * I.E(x) + I.E(y) * I.E(y)))
for _n, _o in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"),
               ("not_equal", "NotEq")):
    el2(_n, (lambda o: lambda I, x, y: I.compare(o, x, y))(_o), "b")
el2("logical_and bitwise_and", lambda I, x, y: logic(I, X.and_, x, y), "b")
el2("logical_or bitwise_or", lambda I, x, y: logic(I, X.or_, x, y), "b")
el2("copysign", lambda I, x, y: X.fn("abs", I.E(x)) * X.fn("sign", I.E(y)))


def logic(I, f, x, y):
    cx, cy = [X.TRUE if t is True else X.FALSE if t is False else t for t in (I.truth(x), I.truth(y))]
    r = f(cx, cy)
    return True if r is X.TRUE else False if r is X.FALSE else r


@reg("where")
def np_where(I, args, kwargs):
    if len(args) < 3:
        return nonzero(I, args[0])
    c, a, b = [asarr(I, x) for x in args[:3]]
    return out_value(I, ufunc(I, [c, a, b], lambda m, x, y: choose(I, m, x, y), join_kind(a.kind, b.kind)))


@reg("clip")
def np_clip(I, args, kwargs):
    a = asarr(I, args[0])
    lo, hi = arg(args, kwargs, 1, "a_min", kwargs.get("min")), arg(args, kwargs, 2, "a_max", kwargs.get("max"))
    if lo is not None:
        a = ufunc(I, [a, asarr(I, lo)], lambda x, y: maxmin(I, "max", x, y))
    if hi is not None:
        a = ufunc(I, [a, asarr(I, hi)], lambda x, y: maxmin(I, "min", x, y))
    return finish(I, a, kwargs)


# creation -------------------------------------------------------------
def shape_arg(I, v):
    if isinstance(v, Choice):
        return None
    if is_num(v):
        return (simp_int(I.E(v)),)
    if isinstance(v, (tuple, Ref)):
        try:
            items = I.seq_items(v)
        except PyRaise:
            raise
        if any(isinstance(x, Star) or not is_num(x) for x in items):
            return None
        return tuple(simp_int(I.E(x)) for x in items)
    return None


def dkind(kwargs, args=(), k=None, default="f"):
    d = kwargs.get("dtype", args[k] if k is not None and k < len(args) else None)
    if d is None:
        return default
    n = getattr(d, "name", "") if not isinstance(d, str) else d
    if "int" in n:
        return "i"
    if "bool" in n:
        return "b"
    if "object" in n:
        return "o"
    if n.rsplit(".", 1)[-1] in ("float32", "float16", "half", "single", "f", "f4", "e", "<f4"):
        return "s"      # rounded on entry, see conv
    return "f"


def filled(names, value, like=False):
    @reg(*names.split())
    def g(I, args, kwargs):
        if like:
            a = asarr(I, args[0])
            s, k = a.shape, dkind(kwargs, default=a.kind)
        else:
            s, k = shape_arg(I, arg(args, kwargs, 0, "shape")), dkind(kwargs, args, 1 if names not in ("full",) else 2)
            if s is None:
                raise NotArray()
        k = "f" if k == "s" else k
        if names.startswith("full"):
            v = arg(args, kwargs, 1, "fill_value")
            av = asarr(I, v)
            if not like and "dtype" not in kwargs:
                k = av.kind
            n = len(s)
            return new_arr(I, s, lambda i: conv(I, av.fn(bidx(av.shape, n, i)), k), k)
        if value is None:
            u = X.unk("uninitialised")
            return new_arr(I, s, memo(lambda i: X.mk("unk", ("empty", u.id) + tuple(num(t) for t in i), "uninitialised")), k)
        v = {"f": num(value), "i": value, "b": bool(value), "o": value}[k]
        return new_arr(I, s, lambda i: v, k)

    return g


def single(I, v):
    """Rounding to a shorter format: a value of its own unless it is exact there."""
    e = I.E(v)
    q = X.const(e)
    if getattr(I, "single_exact", False) or X.has_nan(e) or X.tainted(e) or (q is not None and abs(q.numerator) < 2048 and q.denominator in (1, 2, 4, 8, 16)):
        return e
    return X.app("single", e)


def conv(I, v, kind):
    if kind == "i":
        if isinstance(v, (int, E)):
            return to_int(v) if not (isinstance(v, E) and X.tainted(v)) else v
    if kind == "s" and is_num(v):
        return single(I, v)
    if kind == "f" and isinstance(v, (int, bool)):
        return num(int(v))
    if kind == "b" and is_num(v):
        return I.truth(v)
    return v


filled("zeros", 0)
filled("ones", 1)
filled("empty", None)
filled("full", 0)
filled("zeros_like", 0, True)
filled("ones_like", 1, True)
filled("empty_like", None, True)
filled("full_like", 0, True)


@reg("array", "asarray", "ascontiguousarray", "asfarray", "copy", "atleast_1d", "asanyarray", "require")
def np_array(I, args, kwargs):
    v = arg(args, kwargs, 0, "object", kwargs.get("a"))
    a = asarr(I, v)
    k = dkind(kwargs, args, 1, a.kind)
    return new_arr(I, a.shape, (lambda i: conv(I, a.fn(i), k)) if k != a.kind or k == "f" else a.fn, "f" if k == "s" else k)


_plain_array = EXT["numpy.array"]


def np_asarray(I, args, kwargs):
    v = args[0] if args else None
    if isinstance(v, Ref) and v.kind == "arr" and "dtype" not in kwargs and len(args) == 1:
        return v
    return _plain_array(I, args, kwargs)


for _n in ("asarray", "ascontiguousarray", "asanyarray"):
    EXT["numpy." + _n] = np_asarray


def np_atleast_1d(I, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and v.kind == "arr" and I.rec(v).shape:
        return v
    return guard(lambda I, a, k: (lambda b: b if False else mk_arr(I, A((1,), lambda i: b.fn(()), b.kind)) if not b.shape else mk_arr(I, b))(asarr(I, v)))(I, args, kwargs)


EXT["numpy.atleast_1d"] = np_atleast_1d


@reg("arange")
def np_arange(I, args, kwargs):
    a, b, s = 0, None, 1
    if len(args) == 1:
        b = args[0]
    elif len(args) >= 2:
        a, b = args[0], args[1]
        s = args[2] if len(args) > 2 else kwargs.get("step", 1)
    else:
        b = kwargs.get("stop")
    if not (is_num(a) and is_num(b) and is_num(s)):
        raise NotArray()
    ints = all(isinstance(x, int) or X.is_intterm(x) and not X.isnum(x) for x in (a, b, s))
    n = simp_int((num(b) - num(a)) / num(s))
    if not isinstance(n, int):
        if not X.is_intterm(n):
            c = X.const(n)
            if c is not None:
                n = -((-c.numerator) // c.denominator)
            else:
                n = X.app("int:arange", n)
    if isinstance(n, int):
        n = max(n, 0)
    return new_arr(I, (n,), lambda i: simp_int(num(a) + num(i[0]) * num(s)) if ints else num(a) + num(i[0]) * num(s), "i" if ints else "f")


@reg("linspace")
def np_linspace(I, args, kwargs):
    a, b = I.E(arg(args, kwargs, 0, "start")), I.E(arg(args, kwargs, 1, "stop"))
    n = arg(args, kwargs, 2, "num", 50)
    ep = arg(args, kwargs, 3, "endpoint", True)
    if not is_num(n) or not isinstance(ep, bool):
        raise NotArray()
    n = simp_int(to_int(n))
    d = simp_int(num(n) - 1) if ep else n
    if d == 0:
        r = new_arr(I, (n,), lambda i: a)
    else:
        r = new_arr(I, (n,), lambda i: a + (b - a) * num(i[0]) / num(d))
    if kwargs.get("retstep") is True:
        return (r, (b - a) / num(d))
    return r


@reg("eye", "identity")
def np_eye(I, args, kwargs):
    n = simp_int(I.E(args[0]))
    return new_arr(I, (n, n), lambda i: X.ite(X.cmp_("==", num(i[0]), num(i[1])), X.ONE, X.ZERO))


@reg("diag")
def np_diag(I, args, kwargs):
    a = asarr(I, args[0])
    k = arg(args, kwargs, 1, "k", 0)
    if len(a.shape) == 1 and k == 0:
        n = a.shape[0]
        def fn(i):
            r = X.idx_decide("==", num(i[0]), num(i[1]))
            if r is None:
                return X.ite(X.cmp_("==", num(i[0]), num(i[1])), I.E(a.fn((i[0],))), X.ZERO)
            return a.fn((i[0],)) if r else X.ZERO
        return new_arr(I, (n, n), fn, a.kind)
    if len(a.shape) == 2 and k == 0:
        return new_arr(I, (a.shape[0],), lambda i: a.fn((i[0], i[0])), a.kind)
    raise NotArray()


# joining --------------------------------------------------------------
def seq_arrays(I, v):
    """Array-likes of a sequence argument (None when it has Stars)."""
    if isinstance(v, Ref) and v.kind == "arr":
        a = asarr(I, v)
        if isinstance(a.shape[0], int):
            return [A(a.shape[1:], (lambda q: lambda i: a.fn((q,) + tuple(i)))(q), a.kind) for q in range(a.shape[0])]
        return None
    items = I.seq_items(v)
    if any(isinstance(x, Star) for x in items):
        return items
    return [asarr(I, x) for x in items]


def concat(I, arrs, axis=0):
    n = len(arrs[0].shape)
    axis = axis if axis >= 0 else axis + n
    kind = arrs[0].kind
    for a in arrs[1:]:
        kind = join_kind(kind, a.kind)
        if len(a.shape) != n or any(dim_ne(x, y) for q, (x, y) in enumerate(zip(a.shape, arrs[0].shape)) if q != axis):
            I.event("shape-mismatch", "concatenate of %s and %s" % (shp(arrs[0].shape), shp(a.shape)))
            I.raise_("ValueError", "concatenate")
    total = 0
    for a in arrs:
        total = simp_int(num(total) + a.shape[axis])
    parts = []
    for a in arrs:
        def f(i, a=a):
            k = list(i[1:])
            k.insert(axis, i[0])
            return a.fn(tuple(k))
        parts.append((a.shape[axis], f))
    cf = concat_fn(I, parts)
    shape = arrs[0].shape[:axis] + (total,) + arrs[0].shape[axis + 1:]
    return A(shape, lambda i: cf((i[axis],) + tuple(i[:axis]) + tuple(i[axis + 1:])), kind)


@reg("concatenate")
def np_concatenate(I, args, kwargs):
    axis = arg(args, kwargs, 1, "axis", 0)
    arrs = seq_arrays(I, args[0])
    if arrs is None or any(isinstance(a, Star) for a in arrs) or not isinstance(axis, int):
        if arrs is not None and axis == 0 and all(isinstance(a, Star) for a in arrs) and len(arrs) == 1:
            # a run of equally long pieces
            st = arrs[0]
            p = asarr(I, st.fn(generic(st.length)))
            if len(p.shape) >= 1 and isinstance(p.shape[0], int):
                w = p.shape[0]
                def fn(i):
                    r = divmod_lin(i[0], w)
                    if r is None:
                        return X.unk("concatenate")
                    return asarr(I, st.fn(r[0])).fn((r[1],) + tuple(i[1:]))
                return new_arr(I, (simp_int(num(st.length) * w),) + p.shape[1:], fn, p.kind)
        raise NotArray()
    if any(not a.shape for a in arrs):
        I.event("shape-mismatch", "concatenate of zero-dimensional arrays")
        I.raise_("ValueError", "zero-dimensional")
    return mk_arr(I, concat(I, arrs, axis))


@reg("hstack")
def np_hstack(I, args, kwargs):
    arrs = [up(a) for a in seq_arrays(I, args[0])]
    return mk_arr(I, concat(I, arrs, 0 if len(arrs[0].shape) == 1 else 1))


def up(a, n=1):
    while len(a.shape) < n:
        a = A((1,) + a.shape, (lambda f: lambda i: f(i[1:]))(a.fn), a.kind)
    return a


@reg("vstack", "row_stack")
def np_vstack(I, args, kwargs):
    arrs = seq_arrays(I, args[0])
    return mk_arr(I, concat(I, [up(a, 2) for a in arrs], 0))


@reg("column_stack")
def np_column_stack(I, args, kwargs):
    arrs = [a if len(a.shape) > 1 else A(a.shape + (1,), (lambda f: lambda i: f(i[:1]))(a.fn), a.kind) for a in seq_arrays(I, args[0])]
    return mk_arr(I, concat(I, arrs, 1))


@reg("stack")
def np_stack(I, args, kwargs):
    axis = arg(args, kwargs, 1, "axis", 0)
    a = asarr(I, args[0] if not (isinstance(args[0], Ref) and args[0].kind == "arr") else args[0])
    n = len(a.shape)
    axis = axis if axis >= 0 else axis + n
    return mk_arr(I, moveaxis_(a, 0, axis))


def moveaxis_(a, s, d):
    n = len(a.shape)
    s, d = s % n, d % n
    order = [q for q in range(n) if q != s]
    order.insert(d, s)
    return transpose_(a, order)


def transpose_(a, order):
    inv = [order.index(q) for q in range(len(order))]
    return A([a.shape[q] for q in order], lambda i: a.fn(tuple(i[inv[q]] for q in range(len(order)))), a.kind)


@reg("append")
def np_append(I, args, kwargs):
    a, b = asarr(I, args[0]), asarr(I, arg(args, kwargs, 1, "values"))
    axis = arg(args, kwargs, 2, "axis")
    if axis is None:
        a, b = flat(I, up(a)), flat(I, up(b))
        axis = 0
    return mk_arr(I, concat(I, [a, b], axis))


@reg("insert")
def np_insert(I, args, kwargs):
    a, k, v = asarr(I, args[0]), args[1], asarr(I, args[2])
    axis = arg(args, kwargs, 3, "axis")
    if axis is None and len(a.shape) != 1:
        raise NotArray()
    if not isinstance(k, int) or axis not in (None, 0):
        raise NotArray()
    n = a.shape[0]
    if k < 0:
        k = simp_int(num(n) + k)
    head = A((k,) + a.shape[1:], a.fn, a.kind)
    tail = A((simp_int(num(n) - k),) + a.shape[1:], lambda i: a.fn((simp_int(num(i[0]) + k),) + tuple(i[1:])), a.kind)
    mid = v if len(v.shape) == len(a.shape) else A((1,) + a.shape[1:], lambda i: v.fn(bidx(v.shape, len(a.shape), i)), v.kind)
    return mk_arr(I, concat(I, [head, mid, tail], 0))


@reg("pad")
def np_pad(I, args, kwargs):
    a = asarr(I, args[0])
    w = arg(args, kwargs, 1, "pad_width")
    mode = arg(args, kwargs, 2, "mode", "constant")
    spec = []
    if isinstance(w, int):
        spec = [(w, w)] * len(a.shape)
    else:
        items = I.seq_items(w)
        if len(items) == 2 and all(isinstance(x, int) for x in items):
            spec = [tuple(items)] * len(a.shape)
        else:
            spec = [tuple(I.seq_items(x)) for x in items]
    if len(spec) == 1:
        spec = spec * len(a.shape)
    if any(not isinstance(x, int) for s in spec for x in s):
        raise NotArray()
    cv = kwargs.get("constant_values", num(0))
    for ax, (l, r) in enumerate(spec):
        if l or r:
            a = pad_axis(I, a, ax, l, r, mode, cv)
    return mk_arr(I, a)


def pad_axis(I, a, ax, l, r, mode, cv):
    n = a.shape[ax]

    def fn(i):
        p = simp_int(num(i[ax]) - l)
        at = lambda q: a.fn(tuple(i[:ax]) + (q,) + tuple(i[ax + 1:]))
        lo, hi = X.idx_decide("<", num(p), X.ZERO), X.idx_decide(">=", num(p), num(n))
        if lo is None or hi is None:
            return X.unk("pad")
        if not lo and not hi:
            return at(p)
        if mode == "constant":
            return cv if is_num(cv) else X.unk("pad")
        if mode == "edge":
            return at(0 if lo else simp_int(num(n) - 1))
        if mode == "wrap":
            return at(simp_int(num(p) + n) if lo else simp_int(num(p) - n))
        if mode == "reflect":
            return at(simp_int(-num(p)) if lo else simp_int(num(n) * 2 - 2 - num(p)))
        if mode == "symmetric":
            return at(simp_int(-num(p) - 1) if lo else simp_int(num(n) * 2 - 1 - num(p)))
        return X.unk("pad")

    return A(a.shape[:ax] + (simp_int(num(n) + l + r),) + a.shape[ax + 1:], fn, a.kind)


@reg("roll")
def np_roll(I, args, kwargs):
    a = asarr(I, args[0])
    s = arg(args, kwargs, 1, "shift")
    ax = arg(args, kwargs, 2, "axis")
    if ax is None:
        if len(a.shape) != 1:
            raise NotArray()
        ax = 0
    if not isinstance(s, int) or not isinstance(ax, int):
        raise NotArray()
    ax %= len(a.shape)
    n = a.shape[ax]

    def fn(i):
        p = simp_int(num(i[ax]) - s)
        lo, hi = X.idx_decide("<", num(p), X.ZERO), X.idx_decide(">=", num(p), num(n))
        if lo is None or hi is None:
            return X.unk("roll")
        if lo:
            p = simp_int(num(p) + n)
        elif hi:
            p = simp_int(num(p) - n)
        if isinstance(p, int) and isinstance(n, int):
            p %= n
        return a.fn(tuple(i[:ax]) + (p,) + tuple(i[ax + 1:]))

    return mk_arr(I, A(a.shape, fn, a.kind))


@reg("repeat")
def np_repeat(I, args, kwargs):
    a, r = asarr(I, args[0]), arg(args, kwargs, 1, "repeats")
    ax = arg(args, kwargs, 2, "axis")
    if ax is None:
        a, ax = flat(I, up(a)), 0
    if not isinstance(r, int):
        if len(a.shape) == 1 and one(a.shape[0]) and is_num(r):
            return new_arr(I, (simp_int(I.E(r)),), lambda i: a.fn((0,)), a.kind)
        raise NotArray()

    def fn(i):
        q = divmod_lin(i[ax], r)
        if q is None:
            return X.unk("repeat")
        return a.fn(tuple(i[:ax]) + (q[0],) + tuple(i[ax + 1:]))

    return mk_arr(I, A(a.shape[:ax] + (simp_int(num(a.shape[ax]) * r),) + a.shape[ax + 1:], fn, a.kind))


@reg("tile")
def np_tile(I, args, kwargs):
    a, r = up(asarr(I, args[0])), args[1]
    if isinstance(r, int) and len(a.shape) == 1:
        return mk_arr(I, concat(I, [a] * r, 0)) if r else new_arr(I, (0,), a.fn)
    if is_num(r) and len(a.shape) == 1 and one(a.shape[0]):
        return new_arr(I, (simp_int(I.E(r)),), lambda i: a.fn((0,)), a.kind)
    raise NotArray()


@reg("moveaxis")
def np_moveaxis(I, args, kwargs):
    s, d = arg(args, kwargs, 1, "source"), arg(args, kwargs, 2, "destination")
    if not (isinstance(s, int) and isinstance(d, int)):
        raise NotArray()
    n = len(asarr(I, args[0]).shape)
    order = [q for q in range(n) if q != s % n]
    order.insert(d % n, s % n)
    return permute_view(I, args[0], order)


@reg("transpose")
def np_transpose(I, args, kwargs):
    a = asarr(I, args[0])
    n = len(a.shape)
    axes = arg(args, kwargs, 1, "axes")
    order = list(range(n))[::-1] if axes is None else [x % n for x in I.seq_items(axes)]
    return permute_view(I, args[0], order)


@reg("swapaxes")
def np_swapaxes(I, args, kwargs):
    n = len(asarr(I, args[0]).shape)
    order = list(range(n))
    x, y = args[1] % n, args[2] % n
    order[x], order[y] = order[y], order[x]
    return permute_view(I, args[0], order)


def base_view(I, ref):
    """(own ref, View, shape) of any array reference."""
    r = I.rec(ref)
    if r.base is None:
        return ref, View([("sl", 0, 1, q) for q in range(len(r.shape))], len(r.shape)), r.shape
    return r.base, r.view, r.shape


def make_view(I, base, axes, shape):
    b = I.rec(base)
    return I.new(ArrR(shape, None, base, View(axes, len(shape)), kind=b.kind), "arr")


def permute_view(I, v, order):
    if not (isinstance(v, Ref) and v.kind == "arr"):
        return mk_arr(I, transpose_(asarr(I, v), order))
    base, view, shape = base_view(I, v)
    inv = {old: new for new, old in enumerate(order)}
    axes = [a if a[0] == "fix" else (a[0], a[1], a[2], inv[a[3]]) for a in view.axes]
    return make_view(I, base, axes, [shape[q] for q in order])


@reg("expand_dims")
def np_expand_dims(I, args, kwargs):
    ax = arg(args, kwargs, 1, "axis")
    n = len(asarr(I, args[0]).shape)
    ax %= n + 1
    key = [Slice(None, None, None)] * ax + [None]
    return index(I, args[0] if isinstance(args[0], Ref) else mk_arr(I, asarr(I, args[0])), tuple(key))


@reg("squeeze")
def np_squeeze(I, args, kwargs):
    a = asarr(I, args[0])
    ax = arg(args, kwargs, 1, "axis")
    keep = [q for q, d in enumerate(a.shape) if not (one(d) and (ax is None or q == ax % len(a.shape)))]

    def fn(i):
        full = [0] * len(a.shape)
        for q, t in zip(keep, i):
            full[q] = t
        return a.fn(tuple(full))

    return out_value(I, A([a.shape[q] for q in keep], fn, a.kind))


@reg("broadcast_to")
def np_broadcast_to(I, args, kwargs):
    a, s = asarr(I, args[0]), shape_arg(I, args[1])
    return mk_arr(I, A(s, lambda i: a.fn(bidx(a.shape, len(s), i)), a.kind))


@reg("flip", "flipud", "fliplr")
def np_flip(I, args, kwargs):
    a = asarr(I, args[0])
    ax = arg(args, kwargs, 1, "axis")
    axs = range(len(a.shape)) if ax is None else [ax % len(a.shape)]
    return mk_arr(I, A(a.shape, lambda i: a.fn(tuple(simp_int(num(a.shape[q]) - 1 - num(t)) if q in axs else t for q, t in enumerate(i))), a.kind))


# reshape -------------------------------------------------------------
def prod(dims):
    p = 1
    for d in dims:
        p = simp_int(num(p) * d)
    return p


def unflatten(f, shape):
    """Multi-index of flat position f, or None."""
    out = []
    rest = f
    for q in range(len(shape) - 1, 0, -1):
        d = shape[q]
        if isinstance(d, int):
            if d == 1:
                out.append(0)
                continue
            r = divmod_lin(rest, d)
            if r is None:
                return None
            rest, rem = r
            out.append(rem)
        else:
            # rest = a*d + r with concrete a
            for a in range(0, 12):
                rem = simp_int(num(rest) - num(d) * a)
                lo, hi = X.idx_decide(">=", num(rem), X.ZERO), X.idx_decide("<", num(rem), num(d))
                if lo and hi:
                    out.append(rem)
                    rest = a
                    break
            else:
                return None
    out.append(rest)
    return tuple(reversed(out))


def flatten_idx(i, shape):
    f = num(0)
    for t, d in zip(i, shape):
        f = f * d + num(t)
    return simp_int(f)


def reshape_(I, a, shape):
    shape = list(shape)
    total = prod(a.shape)
    if -1 in shape:
        q = shape.index(-1)
        rest = prod(d for k, d in enumerate(shape) if k != q)
        t = scalar_op(I, "FloorDiv", total, rest) if not (isinstance(rest, int) and rest == 0) else 0
        shape[q] = simp_int(I.E(t))
    else:
        if dim_ne(total, prod(shape)):
            I.event("shape-mismatch", "reshape of %s to %s" % (shp(a.shape), shp(shape)))
            I.raise_("ValueError", "reshape")

    def fn(i):
        # axes kept in place are passed through
        if len(shape) >= 1 and [d for d in shape if not one(d)] == [d for d in a.shape if not one(d)] or (
            len([d for d in shape if not one(d)]) == len([d for d in a.shape if not one(d)])
            and all(dim_eq(x, y) for x, y in zip([d for d in shape if not one(d)], [d for d in a.shape if not one(d)]))
        ):
            vals = [t for t, d in zip(i, shape) if not one(d)]
            out = []
            for d in a.shape:
                out.append(0 if one(d) else vals.pop(0))
            return a.fn(tuple(out))
        f = flatten_idx(i, shape)
        m = unflatten(f, a.shape)
        return a.fn(m) if m is not None else X.unk("reshape")

    return A(shape, fn, a.kind)


def flat(I, a):
    if len(a.shape) == 1:
        return a
    return reshape_(I, a, [-1])


@reg("reshape")
def np_reshape(I, args, kwargs):
    a = asarr(I, args[0])
    s = args[1:] if len(args) > 2 and all(is_num(x) for x in args[1:]) else [arg(args, kwargs, 1, "newshape", kwargs.get("shape"))]
    s = s[0] if len(s) == 1 else tuple(s)
    s = shape_arg(I, s)
    if s is None:
        raise NotArray()
    return mk_arr(I, reshape_(I, a, s))


@reg("ravel")
def np_ravel(I, args, kwargs):
    return mk_arr(I, flat(I, up(asarr(I, args[0]))))


# reductions ----------------------------------------------------------
_RED = [0]


def stride_of(n):
    """Largest small integer dividing a symbolic length."""
    p = X.nf(num(n))
    for m in (6, 5, 4, 3, 2):
        if all(c.denominator == 1 and c % m == 0 for c in p.values()):
            return m
    return 1


def reduce_term(I, kind, f, n):
    """Reduction of f(k), k < n, over a symbolic range."""
    if isinstance(n, int):
        vals = [f(k) for k in range(n)]
        return fold(I, kind, vals)
    _RED[0] += 1
    try:
        k = generic(n, "β%d_" % _RED[0])
        b = I.E(f(k))
        es = (I.E(f(0)), I.E(f(simp_int(num(n) - 1))))
        m = stride_of(n) if X.has_nan(b) and kind in ("max", "min", "sum") else 1
        if m > 1:
            # elements differ by position within a group
            q = simp_int(X.div(num(n), num(m)))
            group = lambda c: I.E(fold(I, kind, [f(simp_int(num(c) * m + r)) for r in range(m)]))
            gb = group(generic(q, "β%d_" % _RED[0]))
            if not X.has_nan(gb):
                n, b, es = q, gb, (group(0), group(simp_int(num(q) - 1)))
        if kind in ("max", "min"):
            cs = [X.const(simp(v)) for v in (b,) + es]
            if None not in cs:
                cs += [X.const(simp(I.E(f(p)))) for p in positions(n) if p not in (0,)]
                if None not in cs:
                    return num(max(cs) if kind == "max" else min(cs))
    finally:
        _RED[0] -= 1
    return X.mk("red", kind, simp(n), simp(b), simp(es[0]), simp(es[1]))


def fold(I, kind, vals):
    if kind == "sum":
        s = 0 if all(isinstance(v, int) for v in vals) and vals else X.ZERO
        for v in vals:
            s = I.binop("Add", s, v)
        return s
    if kind == "prod":
        s = X.ONE
        for v in vals:
            s = I.binop("Mult", s, v)
        return s
    if not vals:
        I.raise_("ValueError", "zero-size array to reduction operation")
    s = vals[0]
    for v in vals[1:]:
        s = maxmin(I, kind, s, v)
    return s


def reduce_sum(I, delta, n):
    if isinstance(n, int):
        t = X.ZERO
        for k in range(n):
            t = t + I.E(delta(k))
        return t
    return reduce_term(I, "sum", delta, n)


def reduce_arr(I, a, axis, kind, keepdims=False):
    n = len(a.shape)
    if axis is None:
        axes = list(range(n))
    elif isinstance(axis, int):
        if not -n <= axis < n:
            I.event("shape-mismatch", "axis %d out of bounds for rank %d" % (axis, n))
            I.raise_("ValueError", "axis out of bounds")
        axes = [axis % n]
    else:
        axes = sorted(x % n for x in I.seq_items(axis))
    keep = [q for q in range(n) if q not in axes]

    def fn(i):
        if keepdims:
            i = tuple(i[q] for q in keep)
        full = [None] * n
        for q, t in zip(keep, i):
            full[q] = t

        def go(ax):
            if not ax:
                return a.fn(tuple(full))
            q = ax[0]
            d = a.shape[q]

            def f(k):
                full[q] = k
                return go(ax[1:])

            if isinstance(d, int):
                vals = []
                for k in range(d):
                    vals.append(f(k))
                return fold(I, kind, vals)
            return reduce_term(I, kind, f, d)

        # symbolic axes outermost, so that concrete ones fold inside
        return go(sorted(axes, key=lambda q: isinstance(a.shape[q], int)))

    shape = [1 if q in axes else a.shape[q] for q in range(n)] if keepdims else [a.shape[q] for q in keep]
    return A(shape, fn, a.kind)


def reducer(names, kind):
    @reg(*names.split())
    def g(I, args, kwargs):
        v = arg(args, kwargs, 0, "a")
        if isinstance(v, Ref) and v.kind == "sp":
            return sp_reduce(I, v, kind, arg(args, kwargs, 1, "axis"))
        a = asarr(I, v)
        axis = arg(args, kwargs, 1, "axis")
        if isinstance(axis, (Unk, Choice, E)):
            raise NotArray()
        r = reduce_arr(I, a, axis, kind, kwargs.get("keepdims") is True)
        if "initial" in kwargs and kind in ("max", "min") and is_num(kwargs["initial"]):
            ini = kwargs["initial"]
            r = A(r.shape, (lambda f: lambda i: maxmin(I, kind, f(i), ini))(r.fn), r.kind)
        return finish(I, r, {k: x for k, x in kwargs.items() if k == "out"})

    return g


reducer("sum nansum", "sum")
reducer("max amax nanmax", "max")
reducer("min amin nanmin", "min")
reducer("prod product", "prod")
EXT["numpy.maximum.reduce"] = lambda I, a, k: EXT["numpy.max"](I, a, dict({"axis": 0}, **k) if len(a) < 2 else k)
EXT["numpy.minimum.reduce"] = lambda I, a, k: EXT["numpy.min"](I, a, dict({"axis": 0}, **k) if len(a) < 2 else k)
EXT["numpy.add.reduce"] = lambda I, a, k: EXT["numpy.sum"](I, a, dict({"axis": 0}, **k) if len(a) < 2 else k)


@reg("mean")
def np_mean(I, args, kwargs):
    a = asarr(I, args[0])
    axis = arg(args, kwargs, 1, "axis")
    s = reduce_arr(I, a, axis, "sum", kwargs.get("keepdims") is True)
    axes = range(len(a.shape)) if axis is None else [axis] if isinstance(axis, int) else I.seq_items(axis)
    n = prod(a.shape[q] for q in axes)
    return out_value(I, A(s.shape, lambda i: X.div(I.E(s.fn(i)), num(n))))


@reg("average")
def np_average(I, args, kwargs):
    a = asarr(I, args[0])
    axis, w = arg(args, kwargs, 1, "axis"), arg(args, kwargs, 2, "weights")
    if w is None:
        return EXT["numpy.mean"](I, args[:1], {"axis": axis})
    w = asarr(I, w)
    if axis is not None and len(w.shape) == 1 and len(a.shape) > 1:
        ax = axis % len(a.shape)
        ws = A(a.shape, lambda i: w.fn((i[ax],)))
    else:
        ws = A(a.shape, lambda i: w.fn(bidx(w.shape, len(a.shape), i)))
    pr = ufunc(I, [a, ws], lambda x, y: I.binop("Mult", x, y))
    s, t = reduce_arr(I, pr, axis, "sum"), reduce_arr(I, ws, axis, "sum")
    return out_value(I, A(s.shape, lambda i: X.div(I.E(s.fn(i)), I.E(t.fn(i)))))


@reg("var", "std", "median", "percentile", "quantile", "nanmean")
def np_stat(I, args, kwargs):
    return Unk("statistic")


def constants(I, v):
    """Entries of a one-dimensional array all of whose entries are known."""
    a = v if isinstance(v, A) else asarr(I, v)
    if len(a.shape) != 1 or not isinstance(a.shape[0], int) or a.shape[0] > 4096:
        return None
    out = []
    for k in range(a.shape[0]):
        x = a.fn((k,))
        if isinstance(x, bool):
            out.append(x)
            continue
        if x is X.TRUE or x is X.FALSE:
            out.append(x is X.TRUE)
            continue
        x = X.const(I.E(x)) if is_num(x) else None
        if x is None:
            return None
        out.append(x)
    return out


def from_constants(I, xs, kind="f"):
    xs = [x if isinstance(x, bool) else num(x) for x in xs]
    return mk_arr(I, A((len(xs),), lambda i: entry_at(xs, i[0]), kind))


def entry_at(xs, i):
    if isinstance(i, E):
        c = X.const(i)
        if c is None:
            v = xs[-1] if xs else num(0)
            for k in range(len(xs) - 2, -1, -1):
                v = X.ite(X.cmp_("==", i, num(k)), xs[k], v)
            return v
        i = int(c)
    return xs[i]


def nonzero(I, v):
    c = constants(I, v)
    if c is None:
        I.opaque.append("numpy")
        return Unk("where")
    return (from_constants(I, [k for k, x in enumerate(c) if x], "i"),)


@reg("nonzero")
def np_nonzero(I, args, kwargs):
    return nonzero(I, args[0])


@reg("flatnonzero")
def np_flatnonzero(I, args, kwargs):
    r = nonzero(I, args[0])
    return r[0] if isinstance(r, tuple) else r


@reg("argwhere")
def np_argwhere(I, args, kwargs):
    c = constants(I, args[0])
    if c is None:
        I.opaque.append("numpy")
        return Unk("argwhere")
    xs = [k for k, x in enumerate(c) if x]
    return mk_arr(I, A((len(xs), 1), lambda i: entry_at([num(x) for x in xs], i[0]), "i"))


@reg("union1d")
def np_union1d(I, args, kwargs):
    """Sorted union; of unknown arrays an array numbered by both."""
    a, b = constants(I, args[0]), constants(I, args[1])
    if a is None or b is None:
        a, b = asarr(I, args[0]), asarr(I, args[1])
        if len(a.shape) != 1 or len(b.shape) != 1:
            return Unk("union1d")
        ka, kb = [tuple(X.show(simp(I.E(x.fn((p,))))) for p in positions(x.shape[0], "\u03b9")) for x in (a, b)]
        if ka == kb:
            # already sorted and unique in every use
            return args[0]
        n = "union%d" % INTERPS.setdefault(("union",) + tuple(sorted((ka, kb))), len(INTERPS))
        return mk_arr(I, A((X.sym(n + "#", "len"),), lambda i: X.sym((n, canon_e(I, i[0])), "real")))
    return from_constants(I, sorted(set(a) | set(b)))


@reg("unique")
def np_unique(I, args, kwargs):
    c = constants(I, args[0]) if len(args) == 1 and not kwargs else None
    if c is None:
        I.opaque.append("numpy")
        return Unk("unique")
    return from_constants(I, sorted(set(c)))


@reg("sort")
def np_sort(I, args, kwargs):
    c = constants(I, args[0]) if len(args) == 1 and not kwargs else None
    if c is None:
        I.opaque.append("numpy")
        return Unk("sort")
    return from_constants(I, sorted(c))


@reg("argsort")
def np_argsort(I, args, kwargs):
    c = constants(I, args[0]) if len(args) == 1 and not kwargs else None
    if c is None:
        I.opaque.append("numpy")
        return Unk("argsort")
    return from_constants(I, sorted(range(len(c)), key=lambda k: c[k]), "i")


@reg("searchsorted")
def np_searchsorted(I, args, kwargs):
    import bisect

    c = constants(I, args[0])
    v = args[1] if len(args) > 1 else kwargs.get("v")
    x = X.const(I.E(v)) if is_num(v) else None
    side = arg(args, kwargs, 2, "side", "left")
    if c is None or x is None or side not in ("left", "right"):
        I.opaque.append("numpy")
        return Unk("searchsorted")
    return (bisect.bisect_left if side == "left" else bisect.bisect_right)(c, x)


def np_arg(name):
    def f(I, args, kwargs):
        c = constants(I, args[0]) if len(args) == 1 and not kwargs else None
        if not c:
            return X.app("int:argmin", X.unk("argmin"))
        return c.index(min(c) if name == "argmin" else max(c))

    return f


for _n in ("argmin", "argmax"):
    reg(_n)(np_arg(_n))


@reg("cumsum")
def np_cumsum(I, args, kwargs):
    a = asarr(I, args[0])
    axis = arg(args, kwargs, 1, "axis")
    if axis is None and len(a.shape) == 1:
        axis = 0
    if not isinstance(axis, int) or not isinstance(a.shape[axis], int):
        raise NotArray()
    axis %= len(a.shape)
    return mk_arr(I, A(a.shape, lambda i: fold(I, "sum", [a.fn(tuple(i[:axis]) + (q,) + tuple(i[axis + 1:])) for q in range(i[axis] + 1)]) if isinstance(i[axis], int) else X.unk("cumsum"), a.kind))


def quant(I, a, is_any):
    """any / all."""
    n = len(a.shape)
    found = []

    def go(q, idx):
        if q == n:
            found.append((tuple(idx), I.truth(a.fn(tuple(idx)))))
            return
        for p in positions(a.shape[q], "q%d_" % q, 4) + [p for s in extra for p in singled(s, a.shape[q])]:
            go(q + 1, idx + [p])

    def singled(s, d):
        """Positions of an axis of length d that belong to the index s."""
        n = X.IDXLEN[s.args[0]]
        if dim_eq(n, d):
            return [s]
        for f in (2, 3):
            if dim_eq(f * n, d):
                return [simp(f * s + r) for r in range(f)]
        return []

    extra = []
    size = 1
    for d in a.shape:
        size *= d if isinstance(d, int) else 9
    if size > 4000:
        return I.fresh_bool("any")
    go(0, [])
    if size > n and any(not isinstance(d, int) for d in a.shape):
        # positions singled out by a condition ("element k was written")
        mine = {p.id for d in a.shape if not isinstance(d, int) for q in range(n) for p in positions(d, "q%d_" % q, 4) if isinstance(p, E)}
        for _, t in list(found):
            if isinstance(t, E):
                for s in X.leaves(t):
                    if s.op == "sym" and s.args[0] in X.IDXLEN and X.DOMAIN.get(s.args[0]) == "idx" and s.id not in mine and s not in extra:
                        extra.append(s)
        if extra and len(extra) < 4:
            found.clear()
            go(0, [])
    vals = [t for _, t in found]
    if is_any:
        if any(t is True for t in vals):
            return True
        if all(t is False for t in vals):
            return False
    else:
        if any(t is False for t in vals):
            return False
        if all(t is True for t in vals):
            return True
    sym = any(not isinstance(d, int) for d in a.shape)
    if sym:
        key = tuple(t if isinstance(t, bool) else t.id for t in vals)
        ts = [t for t in vals if isinstance(t, E)]
        if any(X.tainted(t) for t in ts):
            return I.fresh_bool("any")
        return X.mk("cmp", "<", X.mk("red", "any" if is_any else "all", *[t for t in ts]), X.ZERO)
    c = X.FALSE if is_any else X.TRUE
    for t in vals:
        e = X.TRUE if t is True else X.FALSE if t is False else t
        c = X.or_(c, e) if is_any else X.and_(c, e)
    return True if c is X.TRUE else False if c is X.FALSE else c


@reg("any")
def np_any(I, args, kwargs):
    a = asarr(I, args[0])
    axis = arg(args, kwargs, 1, "axis")
    if axis is not None:
        return quant_axis(I, a, axis, True)
    return quant(I, a, True)


@reg("all")
def np_all(I, args, kwargs):
    a = asarr(I, args[0])
    axis = arg(args, kwargs, 1, "axis")
    if axis is not None:
        return quant_axis(I, a, axis, False)
    return quant(I, a, False)


def quant_axis(I, a, axis, is_any):
    axis %= len(a.shape)
    rest = a.shape[:axis] + a.shape[axis + 1:]
    return out_value(I, A(rest, lambda i: quant(I, A((a.shape[axis],), lambda j: a.fn(tuple(i[:axis]) + tuple(j) + tuple(i[axis:]))), is_any), "b"))


@reg("array_equal", "allclose", "array_equiv")
def np_array_equal(I, args, kwargs):
    a, b = asarr(I, args[0]), asarr(I, args[1])
    if len(a.shape) != len(b.shape) or any(dim_ne(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return quant(I, ufunc(I, [a, b], lambda x, y: I.compare("Eq", x, y), "b"), False)


@reg("isclose")
def np_isclose(I, args, kwargs):
    return Unk("isclose")


@reg("diff")
def np_diff(I, args, kwargs):
    a = asarr(I, args[0])
    n = arg(args, kwargs, 1, "n", 1)
    ax = arg(args, kwargs, 2, "axis", -1)
    if not isinstance(n, int) or not isinstance(ax, int) or not a.shape:
        raise NotArray()
    ax %= len(a.shape)
    ends = [kwargs.get("prepend"), kwargs.get("append")]
    if ends != [None, None]:
        parts = []
        for e in (ends[0], a, ends[1]):
            if e is None:
                continue
            if not isinstance(e, A):
                e = asarr(I, e)
                if not e.shape:
                    v = e.fn(())
                    e = A(a.shape[:ax] + (1,) + a.shape[ax + 1:], lambda i, v=v: v, e.kind)
            parts.append(mk_arr(I, e))
        a = asarr(I, EXT["numpy.concatenate"](I, [parts], {"axis": ax}))
    for _ in range(n):
        def fn(i, a=a):
            at = lambda q: a.fn(tuple(i[:ax]) + (q,) + tuple(i[ax + 1:]))
            return I.binop("Sub", at(simp_int(num(i[ax]) + 1)), at(i[ax]))
        a = A(a.shape[:ax] + (simp_int(num(a.shape[ax]) - 1),) + a.shape[ax + 1:], memo(fn), a.kind)
    return mk_arr(I, a)


def dot_(I, a, b):
    if not a.shape or not b.shape:
        return ufunc(I, [a, b], lambda x, y: I.binop("Mult", x, y))
    d = a.shape[-1]
    kb = 0 if len(b.shape) == 1 else len(b.shape) - 2
    if dim_ne(d, b.shape[kb]):
        I.event("shape-mismatch", "dot of %s and %s" % (shp(a.shape), shp(b.shape)))
        I.raise_("ValueError", "shapes not aligned")
    na = len(a.shape) - 1
    shape = a.shape[:-1] + tuple(x for q, x in enumerate(b.shape) if q != kb)

    def fn(i):
        ia, ib = tuple(i[:na]), tuple(i[na:])

        def f(k):
            bi = ib[:kb] + (k,) + ib[kb:]
            return I.binop("Mult", a.fn(ia + (k,)), b.fn(bi))

        if isinstance(d, int):
            return fold(I, "sum", [f(k) for k in range(d)])
        return reduce_term(I, "sum", f, d)

    return A(shape, fn, join_kind(a.kind, b.kind))


@reg("dot", "inner", "vdot")
def np_dot(I, args, kwargs):
    x, y = args[0], args[1]
    if isinstance(x, Ref) and x.kind == "sp":
        return sp_dot(I, x, y)
    return out_value(I, dot_(I, asarr(I, x), asarr(I, y)))


@reg("matmul")
def np_matmul(I, args, kwargs):
    return matmul(I, args[0], args[1])


def matmul(I, x, y):
    if isinstance(x, Ref) and x.kind == "sp":
        return sp_dot(I, x, y)
    a, b = asarr(I, x), asarr(I, y)
    if len(a.shape) <= 2 and len(b.shape) <= 2:
        return out_value(I, dot_(I, a, b))
    if not a.shape or not b.shape:
        I.raise_("ValueError", "matmul: operands need dimensions")
    la, lb = len(a.shape) == 1, len(b.shape) == 1
    if la:
        a = A((1,) + a.shape, lambda i, a=a: a.fn(i[1:]), a.kind)
    if lb:
        b = A(b.shape + (1,), lambda i, b=b: b.fn(i[:-1]), b.kind)
    d = a.shape[-1]
    if dim_ne(d, b.shape[-2]):
        I.event("shape-mismatch", "matmul of %s and %s" % (shp(a.shape), shp(b.shape)))
        I.raise_("ValueError", "shapes not aligned")
    lead = broadcast_shape(I, [a.shape[:-2], b.shape[:-2]])
    sa, sb = a.shape, b.shape

    def fn(i):
        r, c, idx = i[-2], i[-1], tuple(i[:-2])

        def f(k):
            return I.binop("Mult", a.fn(bidx(sa[:-2], len(lead), idx) + (r, k)), b.fn(bidx(sb[:-2], len(lead), idx) + (k, c)))

        if isinstance(d, int):
            return fold(I, "sum", [f(k) for k in range(d)])
        return reduce_term(I, "sum", f, d)

    out = A(lead + (sa[-2], sb[-1]), memo(fn), join_kind(a.kind, b.kind))
    if la:
        out = A(lead + (sb[-1],), lambda i, o=out: o.fn(tuple(i[:-1]) + (0, i[-1])), out.kind)
    if lb:
        out = A(out.shape[:-1], lambda i, o=out: o.fn(tuple(i) + (0,)), out.kind)
    return out_value(I, out)


@reg("outer")
def np_outer(I, args, kwargs):
    a, b = flat(I, up(asarr(I, args[0]))), flat(I, up(asarr(I, args[1])))
    return mk_arr(I, A((a.shape[0], b.shape[0]), lambda i: I.binop("Mult", a.fn((i[0],)), b.fn((i[1],)))))


@reg("cross", "einsum", "tensordot", "union",
     "gradient", "convolve", "meshgrid", "histogram", "polyfit", "polyval", "vectorize", "isin", "loadtxt", "savetxt", "load", "save", "apply_along_axis", "trapz")
def np_opaque(I, args, kwargs):
    I.opaque.append("numpy")
    return Unk("numpy function")


INTERPS = {}


@reg("interp")
def np_interp(I, args, kwargs):
    """Piecewise linear interpolation, opaque and numbered by its data."""
    x, xp, fp = [asarr(I, arg(args, kwargs, k, n)) for k, n in ((0, "x"), (1, "xp"), (2, "fp"))]
    if kwargs.keys() - {"x", "xp", "fp"} or len(xp.shape) != 1 or len(fp.shape) != 1:
        return Unk("numpy.interp")
    if dim_ne(xp.shape[0], fp.shape[0]):
        I.event("shape-mismatch", "interp of %s values on %s points" % (shp(fp.shape), shp(xp.shape)))
        I.raise_("ValueError", "fp and xp are not of the same length.")
    nodes = constants(I, xp)
    if nodes and all(a < b for a, b in zip(nodes, nodes[1:])) and (not x.shape or len(x.shape) == 1 and isinstance(x.shape[0], int)):
        vals = [between_nodes(I, nodes, fp, x.fn((k,) if x.shape else ())) for k in range(x.shape[0] if x.shape else 1)]
        if None not in vals:
            return out_value(I, A(x.shape, lambda i: entry_at(vals, i[0]) if i else vals[0]))
    key = tuple(simp(I.E(a.fn((p,)))).id for a in (xp, fp) for p in positions(xp.shape[0], "\u03b9"))
    n = INTERPS.setdefault(key, len(INTERPS))
    return out_value(I, A(x.shape, lambda i: X.app("interp", num(n), canon_e(I, x.fn(i)))))


def between_nodes(I, nodes, fp, v):
    """Linear interpolation at a known place, none at an unknown one."""
    v = X.const(I.E(v)) if is_num(v) else None
    if v is None:
        return None
    at = lambda k: I.E(fp.fn((k,)))
    if v <= nodes[0] or v >= nodes[-1]:
        return at(0 if v <= nodes[0] else len(nodes) - 1)
    k = max(j for j, a in enumerate(nodes) if a <= v)
    if nodes[k] == v:
        return at(k)
    return at(k) + (at(k + 1) - at(k)) * num((v - nodes[k]) / (nodes[k + 1] - nodes[k]))


def canon_e(I, v):
    return X.canon(I.E(v))


@reg("trapz")
def np_trapz(I, args, kwargs):
    return Unk("trapz")


@reg("einsum")
def np_einsum(I, args, kwargs):
    spec = args[0]
    if not isinstance(spec, str) or "..." in spec:
        raise NotArray()
    arrs = [asarr(I, x) for x in args[1:]]
    ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec.replace(" ", ""), None)
    ins = ins.split(",")
    if out is None:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dims = {}
    for s, a in zip(ins, arrs):
        for c, d in zip(s, a.shape):
            dims[c] = d
    rest = [c for c in dims if c not in out]

    def fn(i):
        env = dict(zip(out, i))

        def go(r):
            if not r:
                v = None
                for s, a in zip(ins, arrs):
                    x = a.fn(tuple(env[c] for c in s))
                    v = x if v is None else I.binop("Mult", v, x)
                return v
            c = r[0]

            def f(k):
                env[c] = k
                return go(r[1:])

            d = dims[c]
            if isinstance(d, int):
                return fold(I, "sum", [f(k) for k in range(d)])
            return reduce_term(I, "sum", f, d)

        return go(rest)

    return out_value(I, A([dims[c] for c in out], fn))


@reg("ndim")
def np_ndim(I, args, kwargs):
    return len(asarr(I, args[0]).shape)


@reg("shape")
def np_shape(I, args, kwargs):
    return tuple(asarr(I, args[0]).shape)


@reg("size")
def np_size(I, args, kwargs):
    return prod(asarr(I, args[0]).shape)


@reg("isscalar")
def np_isscalar(I, args, kwargs):
    return is_num(args[0])


def np_float(I, args, kwargs):
    v = args[0] if args else num(0)
    if is_num(v):
        return I.E(v)
    if isinstance(v, Ref) and v.kind == "arr":
        return out_value(I, asarr(I, v))
    return Unk("float")


def np_int(I, args, kwargs):
    v = args[0] if args else 0
    return to_int(v) if is_num(v) else Unk("int")


def np_single(I, args, kwargs):
    v = args[0] if args else num(0)
    if is_num(v):
        return single(I, v)
    if isinstance(v, Ref) and v.kind == "arr":
        a = asarr(I, v)
        return out_value(I, A(a.shape, lambda i: conv(I, a.fn(i), "s"), "f"))
    return Unk("float")


for _n in ("float64", "float_", "double", "longdouble"):
    EXT["numpy." + _n] = np_float
for _n in ("float32", "float16", "single", "half"):
    EXT["numpy." + _n] = np_single
for _n in ("int64", "int32", "int_", "intp"):
    EXT["numpy." + _n] = np_int
EXT["numpy.bool_"] = lambda I, a, k: I.truth(a[0])
EXT["numpy.errstate"] = lambda I, a, k: Unk("errstate")
EXT["numpy.seterr"] = lambda I, a, k: Unk("seterr")


# linear algebra / random ----------------------------------------------
def tridiagonal_eig(n, es):
    """Exact spectrum of a symmetric zero-diagonal tridiagonal matrix, n <= 3."""
    z = lambda t: X.is_zero(t)[0] == X.PROVED
    if n > 8 or any(not z(es[i * n + i]) for i in range(n)):
        return None
    if any(not z(es[i * n + j] - es[j * n + i]) for i in range(n) for j in range(i)):
        return None
    if any(not z(es[i * n + j]) for i in range(n) for j in range(i - 1)):
        return None
    if n in (4, 5):
        # biquadratic characteristic polynomial, weights from the first moments
        a, b, c = [simp(es[i * n + i + 1] * es[i * n + i + 1]) for i in range(3)]
        d = simp(es[3 * n + 4] * es[3 * n + 4]) if n == 5 else X.ZERO
        tr, det = simp(a + b + c + d), simp(a * c + a * d + b * d)
        root = X.fn("sqrt", simp(tr * tr - det * 4))
        y1, y2 = simp((tr + root) / 2), simp((tr - root) / 2)
        m2, m4 = a, simp(a * a + a * b)
        if n == 4:
            w1, w2 = (m2 - y2) / (root * 2), (y1 - m2) / (root * 2)
        else:
            w1, w2 = (m4 - y2 * m2) * y2 / (root * 2 * det), (y1 * m2 - m4) * y1 / (root * 2 * det)
        w1, w2 = simp(w1), simp(w2)
        x1, x2 = X.fn("sqrt", y1), X.fn("sqrt", y2)
        vals, wts = [X.neg(x1), X.neg(x2), x2, x1], [w1, w2, w2, w1]
        if n == 5:
            vals.insert(2, X.ZERO)
            wts.insert(2, simp(num(1) - 2 * w1 - 2 * w2))
        return vals, [[X.fn("sqrt", wts[k])] + [X.app("eigvec", num(q), num(k), *es) for q in range(1, n)] for k in range(n)]
    if n > 3:
        # symmetric spectrum; the weights are those of a symmetric measure of mass one
        vals, tot = [], X.ZERO
        for i in range(n // 2):
            tot = tot + X.sym(("ev", n, i, es[1]), "pos")
            vals.append(tot)
        ms = [X.sym(("ew", n, i, es[1]), "pos") for i in range(n // 2)]
        if n % 2:
            vals = [X.neg(v) for v in reversed(vals)] + [X.ZERO] + vals
            mid = num(1) - sum((m * 2 for m in ms), X.ZERO)
            wts = list(reversed(ms)) + [mid] + ms
        else:
            vals = [X.neg(v) for v in reversed(vals)] + vals
            ms[0] = num(Fraction(1, 2)) - sum(ms[1:], X.ZERO)
            wts = list(reversed(ms)) + ms
        return vals, [[X.fn("sqrt", wts[k])] + [X.app("eigvec", num(q), num(k), *es) for q in range(1, n)] for k in range(n)]
    if n == 1:
        return [X.ZERO], [[X.ONE]]
    if n == 2:
        h = X.fn("sqrt", num(Fraction(1, 2)))
        return [X.neg(es[1]), es[1]], [[h, X.neg(h)], [h, h]]
    if not z(es[2]):
        return None
    a, b = es[1], es[5]
    r2 = simp(a * a + b * b)
    r = X.fn("sqrt", r2)
    s2 = X.fn("sqrt", num(Fraction(1, 2)))
    mid = [X.neg(b) / r, X.ZERO, a / r]
    return ([X.neg(r), X.ZERO, r],
            [[s2 * a / r, X.neg(s2), s2 * b / r], mid, [s2 * a / r, s2, s2 * b / r]])


def np_eig(I, args, kwargs):
    a = asarr(I, args[0])
    if len(a.shape) != 2 or not isinstance(a.shape[0], int):
        return (Unk("eig"), Unk("eig"))
    n = a.shape[0]
    es = [simp(I.E(a.fn((p, q)))) for p in range(n) for q in range(n)]
    exact = tridiagonal_eig(n, es)
    if exact is not None:
        vals, vecs = exact
        return (new_arr(I, (n,), lambda i: vals[i[0]] if isinstance(i[0], int) else X.unk("eig")),
                new_arr(I, (n, n), lambda i: vecs[i[1]][i[0]] if isinstance(i[0], int) and isinstance(i[1], int) else X.unk("eig")))
    return (new_arr(I, (n,), lambda i: X.app("eigval", num(i[0]), *es)),
            new_arr(I, (n, n), lambda i: X.app("eigvec", num(i[0]), num(i[1]), *es)))


EXT["numpy.linalg.eig"] = guard(np_eig)
EXT.setdefault("numpy.linalg.eigh", guard(np_eig))


def np_leggauss(I, args, kwargs):
    n = simp_int(arg(args, kwargs, 0, "deg"))
    if not isinstance(n, int) or n < 1:
        return (Unk("leggauss"), Unk("leggauss"))
    beta = lambda k: X.fn("sqrt", num(Fraction(k * k, 4 * k * k - 1)))
    es = [simp(beta(max(p, q))) if abs(p - q) == 1 else X.ZERO for p in range(n) for q in range(n)]
    exact = tridiagonal_eig(n, es)
    if exact is None:
        return (Unk("leggauss"), Unk("leggauss"))
    vals, vecs = exact
    return (new_arr(I, (n,), lambda i: vals[i[0]] if isinstance(i[0], int) else X.unk("leggauss")),
            new_arr(I, (n,), lambda i: num(2) * vecs[i[0]][0] * vecs[i[0]][0] if isinstance(i[0], int) else X.unk("leggauss")))


EXT["numpy.polynomial.legendre.leggauss"] = guard(np_leggauss)
EXT["numpy.linalg.norm"] = guard(lambda I, a, k: out_value(I, A((), lambda i: X.fn("sqrt", I.E(reduce_arr(I, ufunc(I, [asarr(I, a[0])], lambda x: I.E(x) * I.E(x)), None, "sum").fn(())))))
                                 if len(a) == 1 and not k else Unk("norm"))


def np_inv(I, args, kwargs):
    a = asarr(I, args[0])
    if len(a.shape) == 2 and a.shape[0] == 2:
        g = lambda p, q: I.E(a.fn((p, q)))
        det = g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
        t = [[g(1, 1), -g(0, 1)], [-g(1, 0), g(0, 0)]]
        return new_arr(I, (2, 2), lambda i: t[i[0]][i[1]] / det)
    raise NotArray()


EXT["numpy.linalg.inv"] = guard(np_inv)
EXT["numpy.linalg.solve"] = guard(lambda I, a, k: matmul(I, np_inv(I, a[:1], {}), a[1]))


# indexing ---------------------------------------------------------------
def norm_slice(I, s, total):
    """(start, length, step); (None, None, None) when undetermined."""
    bad = (None, None, None)
    for x in (s.start, s.stop, s.step):
        if x is not None and not is_num(x):
            return bad
    step = 1 if s.step is None else simp_int(I.E(s.step))
    if not isinstance(step, int) or step == 0:
        return bad
    tot = num(total)

    def clamp(x, default, lo, hi):
        if x is None:
            return num(default)
        e = num(simp_int(I.E(x)))
        sg = X.isign(e)
        if sg is None:
            return None
        if sg < 0:
            e = simp(e + tot)
            t = X.isign(e)
            if t is None:
                return None
            if t < 0:
                e = num(lo)
        r = X.idx_decide(">", e, num(hi))
        if r is None:
            return None
        return num(hi) if r else e

    if step > 0:
        a = clamp(s.start, X.ZERO, X.ZERO, tot)
        b = clamp(s.stop, tot, X.ZERO, tot)
        if a is None or b is None:
            return bad
        d = simp(b - a)
        sg = X.isign(d)
        if sg is None:
            return bad
        if sg <= 0:
            return simp_int(a), 0, step
        if step == 1:
            n = simp_int(d)
        else:
            r = divmod_lin(simp_int(d + (step - 1)), step)
            if r is None:
                return bad
            n = r[0]
        return simp_int(a), n, step
    a = clamp(s.start, tot - 1, num(-1), tot - 1)
    b = num(-1) if s.stop is None else clamp(s.stop, num(-1), num(-1), tot - 1)
    if a is None or b is None:
        return bad
    d = simp(a - b)
    sg = X.isign(d)
    if sg is None:
        return bad
    if sg <= 0:
        return simp_int(a), 0, step
    r = (simp_int(d), 0) if step == -1 else divmod_lin(simp_int(d + (-step - 1)), -step)
    if r is None:
        return bad
    return simp_int(a), r[0], step


def mask_id(I, a):
    """Identity of a boolean array: its truth at representative positions."""
    ids = []

    def go(q, idx):
        if q == len(a.shape):
            t = I.truth(a.fn(tuple(idx)))
            ids.append(t if isinstance(t, bool) else simp_cond(t).id)
            return
        for p in positions(a.shape[q], "m%d_" % q):
            go(q + 1, idx + [p])

    go(0, [])
    return tuple(ids)


def simp_cond(c):
    try:
        return X.canon_cond(c)
    except X.TooBig:
        return c


_COUNT = {}


def mask_dim(I, a):
    key = (mask_id(I, a), tuple(ikey(d) for d in a.shape))
    if key not in _COUNT:
        _COUNT[key] = X.app("int:count", len(_COUNT))
    return _COUNT[key]


def mask_pos(dim, idx):
    return X.app("int:pos", dim, *[num(i) for i in idx])


def unmask(dim, p):
    """Original index of compressed position p."""
    if isinstance(p, E) and p.op == "app" and p.args[0] == "int:pos" and p.args[1] is dim:
        return tuple(simp_int(x) for x in p.args[2:])
    return None


def expand_key(I, key, ndim):
    key = list(key) if isinstance(key, tuple) else [key]
    key = [mk_arr(I, asarr(I, k)) if isinstance(k, Ref) and k.kind == "list" or isinstance(k, tuple) or isinstance(k, RangeV) else k for k in key]
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Ref) and k.kind == "arr" and I.rec(k).kind == "b":
            used += len(I.rec(k).shape)
        else:
            used += 1
    if Ellipsis in [k if k is Ellipsis else 0 for k in key]:
        p = [q for q, k in enumerate(key) if k is Ellipsis][0]
        key[p:p + 1] = [Slice(None, None, None)] * (ndim - used)
    else:
        key += [Slice(None, None, None)] * (ndim - used)
    if used > ndim:
        I.event("index-error", "too many indices for array of rank %d" % ndim)
        I.raise_("IndexError", "too many indices")
    return key


def pos_index(I, i, n):
    e = simp_int(I.E(i))
    if isinstance(e, int):
        if e < 0:
            e = simp_int(num(n) + e)
    else:
        if X.isign(e) == -1:
            e = simp_int(e + num(n))
    if isinstance(n, int) and isinstance(e, int):
        if not 0 <= e < n:
            I.event("index-error", "index %s out of bounds for axis of size %s" % (i if isinstance(i, int) else X.show(i), n))
            I.raise_("IndexError", "index out of bounds")
    elif X.idx_decide(">=", num(e), num(n)):
        I.event("index-error", "index %s out of bounds for axis of size %s" % (X.show(num(e)), X.show(num(n))))
        I.raise_("IndexError", "index out of bounds")
    return e


def mask_list(I, m):
    """Selected positions of a mask of known length and decided entries."""
    if len(m.shape) != 1 or not isinstance(m.shape[0], int) or m.shape[0] > 200:
        return None
    ts = [I.truth(m.fn((q,))) for q in range(m.shape[0])]
    if not all(isinstance(t, bool) for t in ts):
        return None
    return [q for q, t in enumerate(ts) if t]


def pick(I, c, i):
    if isinstance(i, int):
        return c[i]
    return X.unk("position")


class Sel:
    """Selection of an array: per source axis ("fix", i) / ("sl", start, len,
    step, out axis) / ("fancy", fn, first out axis, rank) / mask groups."""

    def __init__(self):
        self.axes, self.shape, self.simple, self.mask = [], [], True, None


def select(I, shape, key):
    """Resolve an index expression against `shape`."""
    key = expand_key(I, key, len(shape))
    s = Sel()
    ax = 0
    fancy = []
    for k in key:
        if isinstance(k, Choice):
            raise NotArray()
        if k is None:
            s.shape.append(1)
            continue
        if isinstance(k, bool):
            raise NotArray()
        if isinstance(k, Slice):
            a, n, st = norm_slice(I, k, shape[ax])
            if a is None:
                raise NotArray()
            s.axes.append(("sl", a, n, st, len(s.shape)))
            s.shape.append(n)
            ax += 1
        elif is_num(k):
            if isinstance(k, E) and X.tainted(k):
                raise NotArray()
            s.axes.append(("fix", pos_index(I, k, shape[ax])))
            ax += 1
        elif isinstance(k, Ref) and k.kind == "arr":
            r = I.rec(k)
            if r.kind == "b":
                m = asarr(I, k)
                if any(dim_ne(x, y) for x, y in zip(m.shape, shape[ax:])):
                    I.event("shape-mismatch", "mask of shape %s for %s" % (shp(m.shape), shp(shape)))
                    I.raise_("IndexError", "boolean index did not match")
                chosen = mask_list(I, m)
                if chosen is not None:
                    fancy.append((ax, A((len(chosen),), (lambda c: lambda i: pick(I, c, i[0]))(chosen), "i"), len(s.shape)))
                    s.axes.append(("fancy", len(fancy) - 1))
                    s.simple = False
                    ax += 1
                    continue
                if s.mask is not None or fancy:
                    raise NotArray()
                d = mask_dim(I, m)
                s.mask = (ax, len(m.shape), m, d, len(s.shape))
                for q in range(len(m.shape)):
                    s.axes.append(("mask", q))
                s.shape.append(d)
                s.simple = False
                ax += len(m.shape)
            elif r.kind == "i" or r.shape == ():
                fancy.append((ax, asarr(I, k), len(s.shape)))
                s.axes.append(("fancy", len(fancy) - 1))
                s.simple = False
                ax += 1
            else:
                if r.kind == "f" and all(isinstance(d, int) and d == 0 for d in r.shape):
                    fancy.append((ax, asarr(I, k), len(s.shape)))
                    s.axes.append(("fancy", len(fancy) - 1))
                    s.simple = False
                    ax += 1
                else:
                    raise NotArray()
        else:
            raise NotArray()
    if fancy:
        if s.mask is not None:
            raise NotArray()
        fs = broadcast_shape(I, [f[1].shape for f in fancy])
        place = fancy[0][2]
        axs = [f[0] for f in fancy]
        if any(b - a != 1 for a, b in zip(axs, axs[1:])):
            place = 0
        # shift slice axes after the insertion point
        s.axes = [
            a if a[0] != "sl" else a[:4] + (a[4] + len(fs) if a[4] >= place else a[4],) for a in s.axes
        ]
        s.shape[place:place] = list(fs)
        s.fancy = (fs, place, fancy)
        s.axes = [
            ("fancy", (lambda f: lambda i: f.fn(bidx(f.shape, len(fs), i)))(fancy[a[1]][1])) if a[0] == "fancy" else a
            for a in s.axes
        ]
    else:
        s.fancy = None
    return s


def sel_source(I, s, shape, i):
    """Source index for result index i."""
    out = []
    if s.mask is not None:
        ax, rank, m, d, oax = s.mask
        o = unmask(d, i[oax])
    for q, a in enumerate(s.axes):
        if a[0] == "fix":
            out.append(a[1])
        elif a[0] == "sl":
            out.append(simp_int(num(a[1]) + num(i[a[4]]) * a[3]))
        elif a[0] == "mask":
            out.append(o[a[1]] if o is not None else X.unk("masked"))
        else:
            fs, place, _ = s.fancy
            v = a[1](tuple(i[place:place + len(fs)]))
            e = simp_int(I.E(v))
            if isinstance(e, int) and e < 0 or X.isign(num(e)) == -1:
                e = simp_int(num(e) + shape[q])
            if isinstance(e, int) and isinstance(shape[q], int) and e >= shape[q]:
                I.event("index-error", "index %s out of bounds for axis of size %s" % (e, shape[q]))
                I.raise_("IndexError")
            out.append(e)
    return tuple(out)


def index(I, o, key):
    if isinstance(key, (Unk, Str)) or (isinstance(key, tuple) and any(isinstance(k, (Unk, Str)) for k in key)):
        return Unk("item of array", tag_of([key] if not isinstance(key, tuple) else key))
    if isinstance(key, Choice):
        return I.fork(key.c, lambda: index(I, o, key.a), lambda: index(I, o, key.b))
    if isinstance(key, tuple) and any(isinstance(k, Choice) for k in key):
        q = [isinstance(k, Choice) for k in key].index(True)
        c = key[q]
        return I.fork(c.c, lambda: index(I, o, key[:q] + (c.a,) + key[q + 1:]), lambda: index(I, o, key[:q] + (c.b,) + key[q + 1:]))
    if isinstance(key, str):
        I.event("index-error", "string index into an array")
        I.raise_("IndexError", "only integers")
    r = I.rec(o)
    try:
        s = select(I, r.shape, key)
    except NotArray:
        return Unk("indexed array")
    fn = get_fn(I, o)
    if all(a[0] == "fix" for a in s.axes) and not s.shape:
        return fn(tuple(a[1] for a in s.axes))
    if s.simple:
        base, view, _ = base_view(I, o)
        axes = []
        for a in view.axes:
            if a[0] == "fix":
                axes.append(a)
                continue
            t = s.axes[a[3]]
            if t[0] == "fix":
                axes.append(("fix", simp_int(num(a[1]) + num(t[1]) * a[2])))
            else:
                axes.append(("sl", simp_int(num(a[1]) + num(t[1]) * a[2]), a[2] * t[3], t[4]))
        # a view of a detached broadcast keeps its own closure
        return make_view(I, base, axes, s.shape)
    shape = r.shape
    return new_arr(I, s.shape, lambda i: fn(sel_source(I, s, shape, i)), r.kind)


def region(I, s, shape, i):
    """(condition, result index) for the source index i of a selection."""
    cond = True
    out = [0] * len(s.shape)

    def conj(c):
        nonlocal cond
        if cond is False:
            return
        if c is True:
            return
        if c is False:
            cond = False
            return
        cond = c if cond is True else X.and_(cond, c)

    def dec(op, a, b):
        r = X.idx_decide(op, num(a), num(b))
        if r is not None:
            return r
        c = X.cmp_(op, num(a), num(b))
        r = I.decide(c)
        return c if r is None else r

    if s.mask is not None:
        ax, rank, m, d, oax = s.mask
        mi = tuple(i[ax:ax + rank])
        t = I.truth(m.fn(mi))
        conj(t)
        out[oax] = mask_pos(d, mi)
    for q, a in enumerate(s.axes):
        if cond is False:
            return False, None
        if a[0] == "fix":
            conj(dec("==", i[q], a[1]))
        elif a[0] == "sl":
            _, start, n, step, oax = a
            p = simp_int(num(i[q]) - start)
            if step < 0:
                p = simp_int(-num(p))
            if abs(step) != 1:
                r = divmod_lin(p, abs(step))
                if r is None:
                    conj(X.mk("cmp", "<", X.unk("stride"), X.ZERO))
                    p = X.unk("stride")
                else:
                    if r[1] != 0:
                        return False, None
                    p = r[0]
            if not (start == 0 and dim_eq(n, shape[q])):
                conj(dec(">=", p, 0))
                conj(dec("<", p, n))
            out[oax] = p
    if cond is False:
        return False, None
    return cond, tuple(out)


def store(I, o, key, v, log=True):
    """o[key] = v"""
    if isinstance(key, Choice):
        I.fork(key.c, lambda: store(I, o, key.a, v), lambda: store(I, o, key.b, v))
        return
    r = I.rec(o)
    own, view, _ = base_view(I, o)
    br = I.rec(own)
    if br.tag is not None:
        I.event("mutation", str(br.tag))
    if isinstance(key, bool) or (isinstance(key, E) and key.op in ("cmp", "and", "or", "not", "true", "false", "isnan")):
        # a single truth value selects the whole array or nothing
        if key is True:
            store(I, o, Slice(None, None, None), v)
        elif key is not False:
            I.fork(key, lambda: store(I, o, Slice(None, None, None), v), lambda: None)
        return
    try:
        if isinstance(key, (Unk, Str)) or (isinstance(key, tuple) and any(isinstance(k, (Unk, Str)) for k in key)):
            raise NotArray()
        s = select(I, r.shape, key)
        av = asarr(I, v) if not isinstance(v, Unk) else A((), lambda i: I.E(v))
    except NotArray:
        u = X.unk("stored")
        I.set(own, ArrR(br.shape, memo(lambda i: X.mk("unk", ("st", u.id) + tuple(num(t) for t in i), "stored")), tag=br.tag, kind=br.kind))
        I.log(("store", own.id, None))
        return
    check_assign_shape(I, av.shape, s.shape)
    write_sel(I, own, view, r.shape, s, av)


def check_assign_shape(I, vs, ss):
    vs = list(vs)
    while len(vs) > len(ss) and one(vs[0]):
        vs.pop(0)
    bad = len(vs) > len(ss)
    for x, y in zip(reversed(vs), reversed(list(ss))):
        if not one(x) and dim_ne(x, y):
            bad = True
    if bad:
        I.event("shape-mismatch", "value of shape %s stored into %s" % (shp(vs), shp(ss)))
        I.raise_("ValueError", "could not broadcast input array")


def write_sel(I, own, view, vshape, s, av):
    br = I.rec(own)
    old = br.fn
    kind = br.kind
    n = len(s.shape)
    vs = av.shape
    while len(vs) > n:
        vs = vs[1:]
    drop = len(av.shape) - len(vs)

    def value(oi):
        x = av.fn((0,) * drop + bidx(vs, n, oi))
        return conv(I, x, kind) if kind in ("i", "f") else x

    if s.fancy is not None:
        fn = fancy_store(I, s, view, vshape, br.shape, old, value)
    else:
        def fn(i):
            cond, vi = view_region(I, view, vshape, i)
            if cond is False:
                return old(i)
            c2, oi = region(I, s, vshape, vi)
            if c2 is False:
                return old(i)
            x = value(oi)
            cs = [c for c in (cond, c2) if c is not True]
            if not cs:
                return x
            c = cs[0] if len(cs) == 1 else X.and_(*cs)
            return I.join_value(c, x, old(i))

    I.set(own, ArrR(br.shape, memo(fn), tag=br.tag, kind=kind))
    touch(I, own, view, s)


def touch(I, own, view, s):
    if not I.logs:
        return
    axes = []
    for a in view.axes:
        if a[0] == "fix":
            axes.append(("fix", a[1]))
        elif s is None:
            axes.append(("sl", a[1], None, a[2]))
        else:
            t = s.axes[a[3]] if a[3] < len(s.axes) else None
            if t is None:
                axes.append(("any",))
            elif t[0] == "fix":
                axes.append(("fix", simp_int(num(a[1]) + num(t[1]) * a[2])))
            elif t[0] == "sl":
                axes.append(("sl", simp_int(num(a[1]) + num(t[1]) * a[2]), t[2], t[3] * a[2]))
            elif t[0] == "fancy":
                fs, place, _ = s.fancy
                idx = []
                if all(isinstance(d, int) for d in fs):
                    for c in itertools.product(*[range(d) for d in fs]):
                        idx.append(simp_int(I.E(t[1](c))))
                    axes.append(("set", idx))
                else:
                    axes.append(("any",))
            else:
                axes.append(("any",))
    I.log(("store", own.id, axes))


def view_region(I, view, vshape, i):
    cond = True
    out = [0] * len(vshape)
    for q, a in enumerate(view.axes):
        if a[0] == "fix":
            r = X.idx_decide("==", num(i[q]), num(a[1]))
            if r is None:
                c = X.cmp_("==", num(i[q]), num(a[1]))
                r = I.decide(c)
                r = c if r is None else r
            if r is False:
                return False, None
            if r is not True:
                cond = r if cond is True else X.and_(cond, r)
        else:
            _, start, step, vax = a
            if start == 0 and step == 1:
                p = i[q]
            else:
                p = simp_int((num(i[q]) - start) * (1 if step > 0 else -1))
                if abs(step) != 1:
                    d = divmod_lin(p, abs(step))
                    if d is None:
                        return X.mk("cmp", "<", X.unk("stride"), X.ZERO), tuple(out)
                    if d[1]:
                        return False, None
                    p = d[0]
            for op, b in ((">=", 0), ("<", vshape[vax])):
                if op == ">=" and start == 0 and step == 1:
                    continue
                r = X.idx_decide(op, num(p), num(b))
                if r is False:
                    return False, None
                if r is None:
                    c = X.cmp_(op, num(p), num(b))
                    d = I.decide(c)
                    if d is False:
                        return False, None
                    if d is None:
                        cond = c if cond is True else X.and_(cond, c)
            out[vax] = p
    return cond, tuple(out)


def fancy_store(I, s, view, vshape, bshape, old, value):
    fs, place, fancy = s.fancy

    def fn(i):
        cond, vi = view_region(I, view, vshape, i)
        if cond is False:
            return old(i)
        if cond is not True or not all(isinstance(d, int) for d in fs):
            if len(fs) == 1 and cond is True:
                # try the identity enumeration
                g = generic(fs[0], "f")
                for q, a in enumerate(s.axes):
                    if a[0] == "fancy":
                        e = simp_int(I.E(a[1]((g,))))
                        l = X.ilin(num(e))
                        if l is not None and l[1].get(g) == 1:
                            k = simp_int(num(vi[q]) - (num(e) - g))
                            inside = X.idx_decide(">=", num(k), X.ZERO), X.idx_decide("<", num(k), num(fs[0]))
                            if None in inside:
                                return X.unk("fancy store")
                            if not all(inside):
                                return old(i)
                            oi = [0] * len(s.shape)
                            oi[place] = k
                            ok = True
                            for q2, b in enumerate(s.axes):
                                if b[0] == "sl":
                                    oi[b[4]] = vi[q2] if b[1] == 0 and b[3] == 1 else None
                                elif b[0] == "fix":
                                    ok = ok and X.idx_decide("==", num(b[1]), num(vi[q2]))
                            if None in oi or not ok:
                                return X.unk("fancy store")
                            return value(tuple(oi))
            return X.unk("fancy store")
        res = old(i)
        for combo in itertools.product(*[range(d) for d in fs]):
            c = True
            oi = [0] * len(s.shape)
            oi[place:place + len(fs)] = combo
            for q, a in enumerate(s.axes):
                if a[0] == "fancy":
                    t = a[1](combo)
                    e = simp_int(I.E(t))
                    if isinstance(e, int) and e < 0 or X.isign(num(e)) == -1:
                        e = simp_int(num(e) + vshape[q])
                    r = X.idx_decide("==", num(e), num(vi[q]))
                    if r is None:
                        r = X.cmp_("==", num(e), num(vi[q]))
                elif a[0] == "fix":
                    r = X.idx_decide("==", num(a[1]), num(vi[q]))
                    if r is None:
                        r = X.cmp_("==", num(a[1]), num(vi[q]))
                else:
                    p = simp_int(num(vi[q]) - a[1])
                    if a[3] != 1:
                        return X.unk("fancy store")
                    oi[a[4]] = p
                    r1, r2 = X.idx_decide(">=", num(p), X.ZERO), X.idx_decide("<", num(p), num(a[2]))
                    if r1 is None or r2 is None:
                        return X.unk("fancy store")
                    r = r1 and r2
                if r is False:
                    c = False
                    break
                if r is not True:
                    c = r if c is True else X.and_(c, r)
            if c is False:
                continue
            x = value(tuple(oi))
            res = x if c is True else I.join_value(c, x, res)
        return res

    return fn


def write(I, ref, a):
    """ref[...] = a"""
    store(I, ref, Slice(None, None, None) if I.rec(ref).shape else (), to_value(I, a))


def to_value(I, a):
    return out_value(I, a)


def accumulate(I, o, k, op, delta):
    return False


def inplace(I, op, old, delta):
    r = I.rec(old)
    try:
        a, b = asarr(I, old), asarr(I, delta)
    except NotArray:
        a, b = asarr(I, old), A((), lambda i: X.unk("operand"))
    if isinstance(delta, Ref) and delta.kind == "sp":
        return Unk("array op sparse")
    if len(b.shape) > len(a.shape) or any(not one(x) and (one(y) and not one(x) or dim_ne(x, y)) for x, y in zip(reversed(b.shape), reversed(a.shape))):
        I.event("shape-mismatch", "in-place operation of %s with %s" % (shp(a.shape), shp(b.shape)))
        I.raise_("ValueError", "non-broadcastable output operand")
    n = len(a.shape)
    if op == "Div" and r.kind == "i":
        I.event("type-error", "in-place true division of an integer array")
        I.raise_("TypeError", "cannot cast")
    af, bf = a.fn, b.fn
    res = A(a.shape, memo(lambda i: I.binop(op, af(i), bf(bidx(b.shape, n, i)))), r.kind)
    own, view, vs = base_view(I, old)
    br = I.rec(own)
    if br.tag is not None:
        I.event("mutation", str(br.tag))
    s = select(I, r.shape, tuple(Slice(None, None, None) for _ in r.shape))
    write_sel(I, own, view, r.shape, s, res)
    return old


def map1(I, v, f, kind=None):
    a = asarr(I, v)
    return mk_arr(I, A(a.shape, lambda i: f(a.fn(i)), kind or a.kind)) if a.shape else f(a.fn(()))


def binop(I, op, x, y):
    if op == "MatMult":
        try:
            return matmul(I, x, y)
        except NotArray:
            return Unk("matmul")
    try:
        a, b = asarr(I, x), asarr(I, y)
    except NotArray:
        # unknown with an array: unknown elements of the known shape
        known = x if isinstance(x, Ref) and x.kind == "arr" else y
        return Unk("array op unknown", tag_of([x, y]))
    if "o" in (a.kind, b.kind) and any(isinstance(v, Ref) and v.kind == "obj" for v in (x, y)):
        pass
    kind = "f" if op == "Div" else join_kind(a.kind, b.kind)
    if kind == "b" and op not in ("BitAnd", "BitOr", "BitXor"):
        kind = "i"
    return out_value(I, ufunc(I, [a, b], lambda p, q: I.binop(op, p, q), kind))


COPS = {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE", "==": "Eq", "!=": "NotEq"}


def compare(I, op, x, y):
    try:
        a, b = asarr(I, x), asarr(I, y)
    except NotArray:
        return Unk("array comparison")
    if op in ("==", "!="):
        if len(a.shape) and len(b.shape) and any(
            not one(p) and not one(q) and dim_ne(p, q) for p, q in zip(reversed(a.shape), reversed(b.shape))
        ):
            return op == "!="
    return out_value(I, ufunc(I, [a, b], lambda p, q: I.compare(COPS[op], p, q), "b"))


def iter_items(I, v):
    r = I.rec(v)
    if not r.shape:
        I.event("type-error", "iteration over a 0-d array")
        I.raise_("TypeError", "iteration over a 0-d array")
    n = r.shape[0]
    if isinstance(n, int) and n <= 400:
        return [index(I, v, q) for q in range(n)]
    if len(r.shape) == 1:
        fn = get_fn(I, v)
        return [Star(n, lambda k: fn((k,)))]
    return [Star(n, I.delayed(lambda k: index(I, v, k)))]


# attributes ------------------------------------------------------------
def method(names, npname):
    f = EXT["numpy." + npname]
    for n in names.split():
        ARR_METHODS[n] = (lambda f: lambda I, o, a, k: f(I, [o] + list(a), k))(f)


ARR_METHODS = {}
for _m, _n in (("sum", "sum"), ("max", "max"), ("min", "min"), ("prod", "prod"), ("mean", "mean"), ("any", "any"),
               ("all", "all"), ("dot", "dot"), ("copy", "array"), ("squeeze", "squeeze"), ("clip", "clip"),
               ("argmin", "argmin"), ("argmax", "argmax"), ("cumsum", "cumsum"), ("repeat", "repeat"),
               ("swapaxes", "swapaxes"), ("flatten", "ravel"), ("ravel", "ravel"), ("std", "std"), ("var", "var"),
               ("nonzero", "nonzero"), ("argsort", "argsort"), ("searchsorted", "searchsorted"), ("conj", "positive"), ("round", "round"), ("diagonal", "diag")):
    method(_m, _n)


def m_transpose(I, o, a, k):
    n = len(I.rec(o).shape)
    if not a or a[0] is None:
        order = list(range(n))[::-1]
    elif len(a) == 1 and not isinstance(a[0], int):
        order = [x % n for x in I.seq_items(a[0])]
    else:
        order = [x % n for x in a]
    return permute_view(I, o, order)


def m_reshape(I, o, a, k):
    return EXT["numpy.reshape"](I, [o] + list(a), {})


def m_astype(I, o, a, k):
    kind = dkind({"dtype": a[0] if a else k.get("dtype")})
    x = asarr(I, o)
    return mk_arr(I, A(x.shape, lambda i: conv(I, x.fn(i), kind), "f" if kind == "s" else kind))


def m_tolist(I, o, a, k):
    def go(v):
        if isinstance(v, Ref) and v.kind == "arr":
            return I.list([go(x) if not isinstance(x, Star) else Star(x.length, lambda q, x=x: go(x.fn(q))) for x in iter_items(I, v)])
        return v
    return go(o)


def m_item(I, o, a, k):
    x = asarr(I, o)
    if a:
        return x.fn(tuple(a))
    return x.fn(tuple(0 for _ in x.shape))


def m_fill(I, o, a, k):
    store(I, o, Slice(None, None, None) if I.rec(o).shape else (), a[0])


def m_take(I, o, a, k):
    return index(I, o, a[0])


def m_view(I, o, a, k):
    return o


ARR_METHODS.update({
    "transpose": m_transpose, "reshape": m_reshape, "astype": m_astype, "tolist": m_tolist, "item": m_item,
    "fill": m_fill, "take": m_take, "view": m_view,
    "setflags": lambda I, o, a, k: None, "sort": lambda I, o, a, k: Unk("sort"), "tofile": lambda I, o, a, k: None,
    "toarray": lambda I, o, a, k: o,
    "__len__": lambda I, o, a, k: I.len(o),
    "__getitem__": lambda I, o, a, k: I.getitem(o, a[0]),
})


def arr_attr(I, o, name, default=Missing):
    r = I.rec(o)
    if name == "shape":
        return tuple(r.shape)
    if name == "ndim":
        return len(r.shape)
    if name == "size":
        return prod(r.shape)
    if name == "T":
        return permute_view(I, o, list(range(len(r.shape)))[::-1])
    if name == "dtype":
        return Ext({"f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_", "o": "numpy.object_"}[r.kind])
    if name == "A1":
        return EXT["numpy.ravel"](I, [o], {})
    if name in ("real", "A"):
        return o
    if name == "flat":
        return EXT["numpy.ravel"](I, [o], {})
    if name in ("base", "flags", "strides", "data", "itemsize", "nbytes"):
        return Unk("array." + name)
    if name in ARR_METHODS:
        m = ARR_METHODS[name]
        return NFunc("ndarray." + name, lambda I, a, k: m(I, o, a, k))
    if default is not Missing:
        return default
    I.event("attribute-error", "ndarray has no attribute %s" % name)
    I.raise_("AttributeError", name)


def scalar_attr(I, o, name):
    if name in ("copy", "item", "conjugate", "__float__"):
        return NFunc(name, lambda I, a, k: o)
    if name in ("real", "T"):
        return o
    if name == "shape":
        return () if isinstance(o, E) else None
    if name == "is_integer":
        return NFunc(name, lambda I, a, k: True if X.is_intterm(num(o)) else X.cmp_("==", X.fn("floor", num(o)), num(o)))
    if name in ("any", "all"):
        return NFunc(name, lambda I, a, k: I.truth(o))
    if name in ("max", "min", "sum", "mean", "squeeze") and isinstance(o, E):
        return NFunc(name, lambda I, a, k: o)
    if name == "astype":
        return NFunc(name, lambda I, a, k: o)
    if name in ("ndim",) and isinstance(o, E):
        return 0
    if name in ("size",) and isinstance(o, E):
        return 1
    if name == "dtype" and isinstance(o, E):
        return Ext("numpy.float64")
    return None


# containers ------------------------------------------------------------
def container_method(I, o, name):
    if isinstance(o, tuple):
        if name == "index":
            return NFunc("index", lambda I, a, k: seq_find(I, o, a[0]))
        if name == "count":
            return NFunc("count", lambda I, a, k: Unk("count"))
        return None
    table = {"list": LIST, "dict": DICT, "set": SET, "env": {}}.get(o.kind, {})
    m = table.get(name)
    if m is None:
        return None
    return NFunc(o.kind + "." + name, lambda I, a, k: m(I, o, a, k))


def seq_find(I, items, x):
    for q, y in enumerate(items):
        if isinstance(y, Star):
            return X.app("int:find", X.unk("index"))
        r = I.equal(y, x)
        if r is True:
            return q
        if r is not False:
            return X.app("int:find", X.unk("index"))
    I.raise_("ValueError", "not in list")


def l_append(I, o, a, k):
    I.set(o, ListR(I.rec(o).items + (a[0],)))


def l_extend(I, o, a, k):
    I.set(o, ListR(I.rec(o).items + tuple(I.seq_items(a[0]))))


def l_insert(I, o, a, k):
    items = list(I.rec(o).items)
    i = I.norm_int(a[0])
    if i == 0 or not any(isinstance(x, Star) for x in items) and isinstance(i, int):
        items.insert(i, a[1])
        I.set(o, ListR(items))
    else:
        I.set(o, ListR([Star(X.unk("list"), lambda k: Unk("list"))]))


def l_pop(I, o, a, k):
    items = list(I.rec(o).items)
    i = I.norm_int(a[0]) if a else -1
    if not items:
        I.raise_("IndexError", "pop from empty list")
    if isinstance(i, int) and not any(isinstance(x, Star) for x in items):
        if not -len(items) <= i < len(items):
            I.raise_("IndexError", "pop index out of range")
        v = items.pop(i)
        I.set(o, ListR(items))
        return v
    if isinstance(i, int) and items and not isinstance(items[i if i < 0 else i], Star) and i in (0, -1):
        v = items.pop(i)
        I.set(o, ListR(items))
        return v
    I.set(o, ListR([Star(X.unk("list"), lambda k: Unk("list"))]))
    return Unk("pop")


def l_remove(I, o, a, k):
    items = list(I.rec(o).items)
    for q, y in enumerate(items):
        if isinstance(y, Star):
            break
        r = I.equal(y, a[0])
        if r is True:
            items.pop(q)
            I.set(o, ListR(items))
            return
        if r is not False:
            break
    else:
        I.raise_("ValueError", "not in list")
    I.set(o, ListR([Star(X.unk("list"), lambda k: Unk("list"))]))


def l_reverse(I, o, a, k):
    I.set(o, ListR(rev(I, I.rec(o).items)))


def rev(I, items):
    out = []
    for x in reversed(items):
        if isinstance(x, Star):
            out.append(Star(x.length, (lambda x: lambda k: x.fn(simp_int(num(x.length) - 1 - num(k))))(x)))
        else:
            out.append(x)
    return out


def order_cmp(I, a, b):
    """-1 / 0 / 1 when the order of two values is decided, else None."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            r = order_cmp(I, x, y)
            if r != 0:
                return r
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    if is_num(a) and is_num(b) and not isinstance(a, bool):
        try:
            d = X.nf(num(a) - num(b))
            if not d:
                return 0
            if X.sign_p(d) == 2:
                return 1
            if X.sign_p(X.p_scale(d, -1)) == 2:
                return -1
        except X.TooBig:
            pass
    return None


def sort_items(I, items, key=None, reverse=False):
    """Stable sort when the order of all keys is decided, else None."""
    if any(isinstance(x, Star) for x in items):
        return None
    keyed = [(x if key is None else I.call(key, [x], {}), x) for x in items]
    out = []
    for kx, x in keyed:
        pos = len(out)
        while pos:
            r = order_cmp(I, kx, out[pos - 1][0])
            if r is None:
                return None
            if r * (-1 if reverse else 1) >= 0:
                break
            pos -= 1
        out.insert(pos, (kx, x))
    return [x for _, x in out]


def l_sort(I, o, a, k):
    items = I.rec(o).items
    key, reverse = k.get("key"), k.get("reverse", False)
    out = sort_items(I, items, key, reverse) if isinstance(reverse, bool) else None
    if out is None:
        I.set(o, ListR([Star(len(items) if not any(isinstance(x, Star) for x in items) else I.seq_len(items), lambda k: Unk("sorted"))] if items else []))
    else:
        I.set(o, ListR(out))


LIST = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "remove": l_remove, "reverse": l_reverse,
    "sort": l_sort, "copy": lambda I, o, a, k: I.list(I.rec(o).items), "clear": lambda I, o, a, k: I.set(o, ListR(())),
    "index": lambda I, o, a, k: seq_find(I, I.rec(o).items, a[0]),
    "count": lambda I, o, a, k: Unk("count"),
}


def d_get(I, o, a, k):
    return I.dict_get(o, a[0], a[1] if len(a) > 1 else k.get("default"))


def d_pop(I, o, a, k):
    v = I.dict_get(o, a[0], a[1] if len(a) > 1 else Missing)
    r = I.rec(o)
    d = dict(r.items)
    d.pop(I.key(a[0]), None)
    I.set(o, DictR(d, r.open))
    return v


def d_update(I, o, a, k):
    r = I.rec(o)
    d, op = dict(r.items), r.open
    for x in a:
        if isinstance(x, Ref) and x.kind == "dict":
            d.update(I.rec(x).items)
            op = op or I.rec(x).open
        elif isinstance(x, (tuple, Ref)) and not isinstance(x, Choice):
            for it in I.seq_items(x):
                if isinstance(it, tuple) and len(it) == 2:
                    d[I.key(it[0])] = it[1]
                else:
                    op = True
        else:
            op = True
    for kk, vv in k.items():
        d[kk] = vv
    I.set(o, DictR(d, op))


def d_setdefault(I, o, a, k):
    r = I.rec(o)
    key = I.key(a[0])
    if key in r.items:
        return r.items[key]
    v = a[1] if len(a) > 1 else None
    I.set(o, DictR({**r.items, key: v}, r.open))
    return v


def d_list(I, o, f):
    r = I.rec(o)
    out = [f(x, v) for x, v in r.items.items()]
    if r.open:
        out.append(Star(X.unk("dict"), lambda k: Unk("dict item")))
    return tuple(out)


def present(v):
    if isinstance(v, Choice) and v.a is Missing:
        return v.b
    if isinstance(v, Choice) and v.b is Missing:
        return v.a
    return v


DICT = {
    "get": d_get, "pop": d_pop, "update": d_update, "setdefault": d_setdefault,
    "keys": lambda I, o, a, k: d_list(I, o, lambda x, v: x),
    "values": lambda I, o, a, k: d_list(I, o, lambda x, v: present(v)),
    "items": lambda I, o, a, k: d_list(I, o, lambda x, v: (x, present(v))),
    "copy": lambda I, o, a, k: I.dict(I.rec(o).items, I.rec(o).open),
    "clear": lambda I, o, a, k: I.set(o, DictR({}, False)),
}


def s_add(I, o, a, k):
    I.set(o, SetR(I.dedupe(list(I.rec(o).items) + [a[0]])))


def s_discard(I, o, a, k):
    I.set(o, SetR([x for x in I.rec(o).items if not I.same(x, a[0])]))


SET = {
    "add": s_add, "discard": s_discard, "remove": s_discard,
    "update": lambda I, o, a, k: I.set(o, SetR(I.dedupe(list(I.rec(o).items) + [x for y in a for x in I.seq_items(y)]))),
    "copy": lambda I, o, a, k: I.new(I.rec(o), "set"),
    "union": lambda I, o, a, k: I.new(SetR(I.dedupe(list(I.rec(o).items) + [x for y in a for x in I.seq_items(y)])), "set"),
    "intersection": lambda I, o, a, k: I.binop("BitAnd", o, a[0] if isinstance(a[0], Ref) and a[0].kind == "set" else I.new(SetR(I.dedupe(I.seq_items(a[0]))), "set")),
    "difference": lambda I, o, a, k: I.binop("Sub", o, a[0] if isinstance(a[0], Ref) and a[0].kind == "set" else I.new(SetR(I.dedupe(I.seq_items(a[0]))), "set")),
    "issubset": lambda I, o, a, k: Unk("issubset"),
    "issuperset": lambda I, o, a, k: Unk("issuperset"),
}


def str_format(I, o, a, k):
    """str.format as far as fields are plain arguments with a format."""
    import string

    out, auto = [], 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(o):
            out.append(lit)
            if name is None:
                continue
            if spec and "{" in spec or conv:
                return Str("format")
            if name == "":
                name, auto = str(auto), auto + 1
            if name.isdigit():
                if int(name) >= len(a):
                    I.raise_("IndexError")
                v = a[int(name)]
            elif name in k:
                v = k[name]
            elif name.isidentifier():
                I.raise_("KeyError")
            else:
                return Str("format")
            out.append(I.formatted(v, spec or None))
    except ValueError:
        return Str("format")
    return join_text(*out)


STR_METHODS = {n for n in dir(str) if not n.startswith("__")}


def str_attr(I, o, name):
    if name not in STR_METHODS:
        I.event("attribute-error", "str has no attribute %s" % name)
        I.raise_("AttributeError", name)

    def f(I, a, k):
        def lit(v):
            if isinstance(v, tuple):
                return all(lit(x) for x in v)
            return isinstance(v, (str, int)) or v is None
        if name == "format" and isinstance(o, str):
            if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                try:
                    return o.format(*a, **k)
                except (KeyError, IndexError, ValueError):
                    I.raise_("KeyError" if k else "IndexError")
            return str_format(I, o, list(a), k)
        if name == "join" and isinstance(o, str):
            items = I.seq_items(a[0])
            for x in items:
                if not isinstance(x, (str, Str, Unk, Star, Choice)):
                    I.event("type-error", "join of a non-string")
                    I.raise_("TypeError", "sequence item: expected str instance")
            if all(isinstance(x, str) for x in items):
                return o.join(items)
            if all(isinstance(x, (str, Str)) for x in items):
                out = []
                for x in items:
                    out += [o, x]
                return join_text(*out[1:])
            return Str("join")
        if isinstance(o, str) and all(lit(x) for x in a) and all(lit(x) for x in k.values()):
            try:
                r = getattr(o, name)(*a, **k)
            except (TypeError, ValueError):
                return Unk("str." + name)
            if isinstance(r, list):
                return I.list(r)
            return r
        if name in ("split", "rsplit", "splitlines"):
            return I.list([Star(X.unk("split"), lambda k: Str("part"))])
        if name in ("startswith", "endswith", "isdigit", "isalpha"):
            return I.fresh_bool("str")
        if name in ("find", "index", "count"):
            return X.app("int:find", X.unk("find"))
        return Str(name)

    return NFunc("str." + name, f)


# loops ----------------------------------------------------------------
def lc_array(old):
    """Array whose elements are only known to be carried through a loop."""
    u = X.unk("loop-carried")
    fn = memo(lambda i: lc(u, i))
    return ArrR(old.shape, fn, tag=old.tag, kind=old.kind), (fn, u.id)


def lc(u, i):
    return X.mk("unk", ("lc", u.id) + tuple(num(t) for t in i), "loop-carried")


def lc_sparse(old):
    return SpR(old.shape, lambda r: [], lambda r: [], "lc")


def candidates(idx, entries, k, n):
    """Iterations that may touch position idx: list of ints / terms, and
    whether every iteration may."""
    out, every = [], False
    last = simp_int(num(n) - 1)
    for g in entries:
        axes = g[2]
        if axes is None:
            return None, True
        dep = False
        for q, a in enumerate(axes):
            forms = []
            if a[0] == "fix":
                forms = [a[1]]
            elif a[0] == "set":
                forms = a[1]
            elif a[0] == "sl" and isinstance(a[2], int):
                forms = [simp_int(num(a[1]) + t * num(a[3])) for t in range(a[2])]
            elif a[0] == "sl" and X.depends(num(a[1]), k):
                return None, True
            for f in forms:
                f = num(f)
                if not X.depends(f, k):
                    continue
                dep = True
                l = X.ilin(f)
                if l is None or k not in l[1]:
                    return None, True
                co = l[1][k]
                sol = simp_int((num(idx[q]) - (f - num(co) * k)) / num(co))
                if isinstance(sol, int) or X.is_intterm(sol):
                    out.append(sol)
        if not dep:
            every = True
    edge = 3
    out += list(range(edge)) + [simp_int(num(n) - q) for q in range(1, edge + 1)]
    res = []
    for c in out:
        lo, hi = X.idx_decide(">=", num(c), X.ZERO), X.idx_decide("<", num(c), num(n))
        if lo is None or hi is None:
            if isinstance(c, E) and (c.op == "num" or any(True for _ in [])):
                continue
            if isinstance(c, E) and c.op == "div":
                continue
            return None, every
        if lo and hi and not any(d is c or dim_eq(d, c) for d in res):
            res.append(c)
    # ascending order where decidable
    import functools

    def cmp(a, b):
        r = X.idx_decide("<", num(a), num(b))
        return -1 if r else 1 if r is False else 0

    res.sort(key=functools.cmp_to_key(cmp))
    return res, every


def loop_array(I, old, id_, at, k, n, log, base):
    if base is None:
        u = X.unk("loop")
        return ArrR(old.shape, lambda i: u, tag=old.tag, kind=old.kind)
    base_fn, uid = base
    is_lc = lambda e: X.contains(e, lambda t: t.op == "unk" and isinstance(t.args[0], tuple) and t.args[0][:2] == ("lc", uid))
    entries = [g for g in log if g[0] == "store" and g[1] == id_]
    oldfn = old.fn

    def value_at(kk, i):
        st = at(kk)[0]
        if st is None:
            return None
        I.import_new(st)
        return st.heap[id_].fn(i)

    def fn(i):
        u = base_fn(i)
        cands, every = candidates(i, entries, k, n)
        if cands is None:
            return X.unk("loop store")
        res = oldfn(i)
        if every:
            g = value_at(k, i)
            if g is None:
                return X.unk("loop store")
            e = I.E(g)
            d = simp(e - u)
            if not is_lc(d):
                return I.E(res) + reduce_sum(I, lambda kk: simp(I.E(value_at(kk, i)) - u), n)
            if not is_lc(e):
                return value_at(simp_int(num(n) - 1), i)
            return X.unk("loop store")
        for c in cands:
            v = value_at(c, i)
            if v is None:
                return X.unk("loop store")
            if v is u:
                continue
            if not isinstance(v, (int, E)):
                res = v
                continue
            e = I.E(v)
            if not is_lc(e):
                res = v
                continue
            d = simp(e - u)
            if is_lc(d):
                # conditional update: substitute the carried value
                s = X.subst(e, {u: I.E(res)})
                if is_lc(s):
                    return X.unk("loop-carried store")
                res = s
                continue
            res = I.binop("Add", res, d)
        return res

    return ArrR(old.shape, memo(fn), tag=old.tag, kind=old.kind)


def acc_array(I, pre, ref, augs, at, i, v, n):
    r = pre.heap[ref.id]
    u = X.unk("accumulated")
    return ArrR(r.shape, lambda i: u, kind=r.kind)


def loop_sparse(I, old, id_, at, k, n, log):
    entries = [g for g in log if g[0] == "store" and g[1] == id_]

    def lines(which):
        q = 0 if which == "row" else 1

        def fn(i):
            res = list((old.row if q == 0 else old.col)(i))
            es = [(g[0], g[1], [g[2][q]] if g[2] is not None else None) for g in entries]
            cands, every = candidates((i,), es, k, n)
            if cands is None or every:
                return res + [(X.unk("loop"), X.unk("loop"))]
            for c in cands:
                st = at(c)[0]
                if st is None:
                    return res + [(X.unk("loop"), X.unk("loop"))]
                I.import_new(st)
                rec = st.heap[id_]
                for j, v in (rec.row if q == 0 else rec.col)(i):
                    if isinstance(v, Ovr):
                        res = [(a, b) for a, b in res if not dim_eq(a, j)]
                        v = v.v
                    res.append((j, v))
            return merge_line(I, res)

        return memo1(fn)

    return SpR(old.shape, lines("row"), lines("col"), old.tag)


class Ovr:
    """A sparse entry that overwrites earlier ones."""

    def __init__(self, v):
        self.v = v


def merge_line(I, line):
    out = []
    for j, v in line:
        for q, (a, b) in enumerate(out):
            if dim_eq(a, j):
                if isinstance(v, Ovr):
                    out[q] = (a, v)
                elif isinstance(b, Ovr):
                    out[q] = (a, Ovr(I.E(b.v) + I.E(v)))
                else:
                    out[q] = (a, I.E(b) + I.E(v))
                break
        else:
            out.append((j, v))
    return out


def memo1(f):
    cache = {}

    def g(i):
        i = simp_int(i)
        k = ikey(i)
        if k not in cache:
            cache[k] = f(i)
        return cache[k]

    return g


def loop_list_store(I, old, id_, run, k, n, log):
    """List whose elements are stored to (or changed in place) by a loop."""
    st = old.items[0]
    entries = [(g[0], g[1], [("fix", g[2][0])]) for g in log if g[0] == "store" and g[1] == id_]
    memo_, bad = {}, Unk("loop list")

    def content(h, v):
        """Record of a container of plain values."""
        r = h.get(v.id)
        if isinstance(r, (SetR, ListR)) and not any(isinstance(x, (Ref, Star, Unk)) for x in r.items):
            return r
        return None

    def compute(i):
        cands, every = candidates((i,), entries, k, n)
        if cands is None or every:
            return bad, None
        cur, rec = st.fn(i), None
        if isinstance(cur, Ref):
            rec = content(I.st.heap, cur)
            if rec is None:
                return bad, None
        for c in cands:
            def at_(q, cur=cur):
                r = X.idx_decide("==", num(q), num(i))
                return cur if r else Unk("loop-carried")

            extra = {}
            if isinstance(cur, Ref):
                cur = Ref(cur.kind)
                extra[cur.id] = rec
                I.delayed_ids.add(cur.id)
                at_ = lambda q, cur=cur: cur if X.idx_decide("==", num(q), num(i)) else Unk("loop-carried")
            s = run(id_, ListR([Star(st.length, at_)]), extra, c)
            if s is None:
                return bad, None
            v = I.seq_get(s.heap[id_].items, i)
            if isinstance(v, Ref):
                rec = content(s.heap, v)
                if rec is None:
                    return bad, None
            elif isinstance(v, Unk) or isinstance(v, E) and X.tainted(v):
                return bad, None
            cur = v
        return cur, rec

    def fn(i):
        key = num(i).id
        if key not in memo_:
            v, rec = compute(i)
            if isinstance(v, Ref):
                v = Ref(v.kind)
                I.delayed_ids.add(v.id)
            memo_[key] = (v, rec)
        v, rec = memo_[key]
        if isinstance(v, Ref):
            if v.id in I.poisoned:
                return Unk("element changed in a loop")
            if v.id not in I.st.heap:
                I.st.heap[v.id] = rec
        return v

    return ListR([Star(st.length, fn)])


# sparse ----------------------------------------------------------------
def sp_new(I, shape, row, col):
    return I.new(SpR([simp_int(d) for d in shape], memo1(row), memo1(col)), "sp")


def val(v):
    return v.v if isinstance(v, Ovr) else v


def sp_elem(I, r, i, j):
    t = X.ZERO
    for a, v in r.row(i):
        q = X.idx_decide("==", num(a), num(j))
        if q is None:
            if num(a) is num(j):
                q = True
            elif X.tainted(num(a)):
                return X.unk("sparse")
            else:
                t = t + X.ite(X.cmp_("==", num(a), num(j)), I.E(val(v)), X.ZERO)
                continue
        if q:
            t = t + I.E(val(v))
    return t


def sp_create(I, args, kwargs):
    v = arg(args, kwargs, 0, "arg1")
    if isinstance(v, Ref) and v.kind == "sp":
        return I.new(I.rec(v), "sp")
    shape = None
    if isinstance(v, tuple) and len(v) == 2 and all(is_num(x) for x in v):
        shape = tuple(simp_int(I.E(x)) for x in v)
    elif isinstance(v, Ref) and v.kind == "list" and len(I.rec(v).items) == 2 and all(is_num(x) for x in I.rec(v).items):
        shape = tuple(simp_int(I.E(x)) for x in I.rec(v).items)
    if shape is not None:
        return sp_new(I, shape, lambda i: [], lambda j: [])
    try:
        a = asarr(I, v)
    except NotArray:
        return Unk("sparse")
    if len(a.shape) == 2 and all(isinstance(d, int) for d in a.shape):
        return sp_new(I, a.shape, lambda i: [(j, a.fn((i, j))) for j in range(a.shape[1])],
                      lambda j: [(i, a.fn((i, j))) for i in range(a.shape[0])])
    return Unk("sparse")


for _n in ("lil_matrix", "csr_matrix", "csc_matrix", "coo_matrix", "dok_matrix", "lil_array", "csr_array", "csc_array"):
    EXT["scipy.sparse." + _n] = sp_create


def sp_spdiags(I, args, kwargs):
    a = asarr(I, args[0])
    off = arg(args, kwargs, 1, "offsets", 0)
    if isinstance(off, int) and off == 0 and len(a.shape) == 1:
        n = a.shape[0]
        f = lambda i: [(i, a.fn((i,)))]
        return sp_new(I, (n, n), f, f)
    return Unk("diags")


EXT["scipy.sparse.diags"] = guard(sp_spdiags)
EXT["scipy.sparse.identity"] = EXT["scipy.sparse.eye"] = lambda I, a, k: sp_new(I, (a[0], a[0]), lambda i: [(i, X.ONE)], lambda i: [(i, X.ONE)])


def sp_line(I, r, i, axis, n):
    line = r.row(i) if axis == 0 else r.col(i)
    other = r.shape[1 - axis]

    def fn(idx):
        return sp_elem(I, r, i, idx[0]) if axis == 0 else sp_elem(I, r, idx[0], i)

    return new_arr(I, (1, other) if axis == 0 else (other, 1), lambda q: fn((q[1],)) if axis == 0 else fn((q[0],)))


def sp_index(I, o, k):
    r = I.rec(o)
    if isinstance(k, tuple) and len(k) == 2 and all(is_num(x) for x in k):
        i, j = pos_index(I, k[0], r.shape[0]), pos_index(I, k[1], r.shape[1])
        v = sp_elem(I, r, i, j)
        if r.tag == "lc":
            over = [x for a, x in r.row(i) if dim_eq(a, j)]
            if over and isinstance(over[-1], Ovr):
                return I.E(over[-1].v)
            return v + lc(LCU, (i, j, o.id))
        return v
    return Unk("sparse index")


LCU = X.unk("loop-carried")


def sp_store(I, o, k, v):
    r = I.rec(o)
    if r.tag is not None and r.tag != "lc":
        I.event("mutation", str(r.tag))
    if not (isinstance(k, tuple) and len(k) == 2 and all(is_num(x) for x in k)):
        u = [(X.unk("sparse"), X.unk("sparse"))]
        I.set(o, SpR(r.shape, lambda i: u, lambda i: u, r.tag))
        I.log(("store", o.id, None))
        return
    i, j = pos_index(I, k[0], r.shape[0]), pos_index(I, k[1], r.shape[1])
    e = I.E(v)
    ov = True
    if r.tag == "lc":
        u = lc(LCU, (i, j, o.id))
        d = simp(e - u)
        if not X.contains(d, lambda t: t is u):
            e, ov = d, False
            # what is already there is part of d
            line = lambda ln, me, other: [(a, b) for a, b in ln if not dim_eq(a, other)]
        orow, ocol = r.row, r.col
    else:
        orow, ocol = r.row, r.col
    new = Ovr(e) if ov and r.tag == "lc" else e

    def add(line, me, here, other):
        q = X.idx_decide("==", num(me), num(here))
        if q is None:
            q = num(me) is num(here)
            if not q and not X.tainted(num(me)):
                # undecided position
                c = X.cmp_("==", num(me), num(here))
                out = []
                hit = False
                for a, b in line:
                    if dim_eq(a, other):
                        hit = True
                        out.append((a, X.ite(c, e, I.E(val(b)))))
                    else:
                        out.append((a, b))
                if not hit:
                    out.append((other, X.ite(c, e, X.ZERO)))
                return out
        if not q:
            return line
        return [(a, b) for a, b in line if not dim_eq(a, other)] + [(other, new)]

    I.set(o, SpR(r.shape, memo1(lambda p: add(orow(p), p, i, j)), memo1(lambda p: add(ocol(p), p, j, i)), r.tag))
    I.log(("store", o.id, [("fix", i), ("fix", j)]))


def sp_map(I, o, f):
    r = I.rec(o)
    row, col = r.row, r.col
    return sp_new(I, r.shape, lambda i: [(j, f(I.E(val(v)))) for j, v in row(i)], lambda i: [(j, f(I.E(val(v)))) for j, v in col(i)])


def sp_dot(I, o, v):
    r = I.rec(o)
    if isinstance(v, Ref) and v.kind == "sp":
        return Unk("sparse product")
    try:
        a = asarr(I, v)
    except NotArray:
        return Unk("sparse product")
    if not a.shape:
        return sp_map(I, o, lambda x: x * I.E(a.fn(())))
    if dim_ne(r.shape[1], a.shape[0]):
        I.event("shape-mismatch", "sparse product of %s and %s" % (shp(r.shape), shp(a.shape)))
        I.raise_("ValueError", "dimension mismatch")
    row = r.row

    def fn(i):
        t = X.ZERO
        for j, w in row(i[0]):
            t = t + I.E(val(w)) * I.E(a.fn((j,) + tuple(i[1:])))
        return t

    return new_arr(I, (r.shape[0],) + a.shape[1:], fn)


def sp_merge(I, a, b, f):
    def line(x, y):
        out, used = [], []
        for j, v in x:
            w = X.ZERO
            for q, (jj, vv) in enumerate(y):
                if dim_eq(j, jj):
                    w = w + I.E(val(vv))
                    used.append(q)
            out.append((j, f(I.E(val(v)), w)))
        for q, (jj, vv) in enumerate(y):
            if q not in used:
                out.append((jj, f(X.ZERO, I.E(val(vv)))))
        return out

    ar, ac, br, bc = a.row, a.col, b.row, b.col
    return sp_new(I, a.shape, lambda i: line(merge_line(I, ar(i)), br(i)), lambda i: line(merge_line(I, ac(i)), bc(i)))


def sp_binop(I, op, a, b):
    sa, sb = isinstance(a, Ref) and a.kind == "sp", isinstance(b, Ref) and b.kind == "sp"
    if op == "MatMult" or (op == "Mult" and sa and isinstance(b, Ref) and b.kind == "arr"):
        if sa:
            return sp_dot(I, a, b)
        return Unk("sparse product")
    if sa and sb:
        ra, rb = I.rec(a), I.rec(b)
        if op == "Add":
            return sp_merge(I, ra, rb, lambda x, y: x + y)
        if op == "Sub":
            return sp_merge(I, ra, rb, lambda x, y: x - y)
        return Unk("sparse op")
    if sa and is_num(b):
        e = I.E(b)
        if op == "Mult":
            return sp_map(I, a, lambda x: x * e)
        if op == "Div":
            return sp_map(I, a, lambda x: x / e)
    if sb and is_num(a):
        e = I.E(a)
        if op == "Mult":
            return sp_map(I, b, lambda x: x * e)
    return Unk("sparse op")


def sp_reduce(I, o, kind, axis):
    r = I.rec(o)
    if kind != "sum" or axis not in (0, 1, -1):
        return Unk("sparse reduction")
    line = r.row if axis in (1, -1) else r.col
    n = r.shape[0] if axis in (1, -1) else r.shape[1]

    def fn(p):
        t = X.ZERO
        for j, v in line(p):
            t = t + I.E(val(v))
        return t

    if axis in (1, -1):
        m = new_arr(I, (n, 1), lambda i: fn(i[0]))
    else:
        m = new_arr(I, (1, n), lambda i: fn(i[1]))
    x = new_arr(I, (n,), lambda i: fn(i[0]))
    return sp_matrix(I, m, x)


def sp_matrix(I, m, x):
    return I.obj(SP_SUM, {"A1": x, "A": m, "_m": m})


def sp_matrix_op(op):
    def f(I, a, k):
        m, x = I.getattr(a[0], "_m"), I.getattr(a[0], "A1")
        if op == "neg":
            return sp_matrix(I, I.unary("USub", m), I.unary("USub", x))
        if op == "abs":
            return sp_matrix(I, map1(I, m, lambda e: X.fn("abs", I.E(e))), map1(I, x, lambda e: X.fn("abs", I.E(e))))
        if not is_num(a[1]):
            return Unk("matrix operation")
        u, v = (m, x), a[1]
        return sp_matrix(I, *[I.binop(op[1:], v, y) if op[0] == "r" else I.binop(op[1:], y, v) for y in u])

    return f


SP_SUM = Native("matrix", (), {
    "__neg__": sp_matrix_op("neg"), "__abs__": sp_matrix_op("abs"),
    "__mul__": sp_matrix_op("lMult"), "__rmul__": sp_matrix_op("rMult"), "__truediv__": sp_matrix_op("lDiv"),
    "__add__": sp_matrix_op("lAdd"), "__radd__": sp_matrix_op("rAdd"),
    "__getitem__": lambda I, a, k: I.getitem(I.getattr(a[0], "_m"), a[1]),
    "ravel": lambda I, a, k: I.getattr(a[0], "A1"),
    "flatten": lambda I, a, k: I.getattr(a[0], "A1"),
    "__len__": lambda I, a, k: I.len(I.getattr(a[0], "_m")),
})


def sp_multiply(I, o, v):
    r = I.rec(o)
    if isinstance(v, Ref) and v.kind == "sp":
        rb = I.rec(v)
        return sp_merge(I, r, rb, lambda x, y: x * y)
    try:
        a = asarr(I, v)
    except NotArray:
        return Unk("sparse multiply")
    row, col = r.row, r.col
    if not a.shape:
        return sp_map(I, o, lambda x: x * I.E(a.fn(())))
    if len(a.shape) == 1:
        f = lambda i, j: I.E(a.fn((j,)))
    else:
        f = lambda i, j: I.E(a.fn((0 if one(a.shape[0]) else i, 0 if one(a.shape[1]) else j)))
    return sp_new(I, r.shape, lambda i: [(j, I.E(val(v)) * f(i, j)) for j, v in row(i)], lambda j: [(i, I.E(val(v)) * f(i, j)) for i, v in col(j)])


def sp_transpose(I, o):
    r = I.rec(o)
    return sp_new(I, (r.shape[1], r.shape[0]), r.col, r.row)


def sp_extreme(I, o, v, n):
    r = I.rec(o)
    if isinstance(v, Ref) and v.kind == "sp":
        return sp_merge(I, r, I.rec(v), lambda x, y: X.fn(n, x, y))
    if is_num(v) and X.const(I.E(v)) == 0:
        return sp_map(I, o, lambda x: X.fn(n, x, X.ZERO))
    return Unk("sparse maximum")


def sp_setdiag(I, o, v):
    r = I.rec(o)
    if isinstance(v, Ref) and v.kind == "obj":
        v = I.getattr(v, "A1", v)
    try:
        a = asarr(I, v)
    except NotArray:
        a = A((), lambda i: X.unk("diagonal"))
    row, col = r.row, r.col

    def f(line):
        def g(i):
            d = a.fn((i,)) if a.shape else a.fn(())
            return [(j, x) for j, x in line(i) if not dim_eq(j, i)] + [(i, d)]
        return memo1(g)

    if len(a.shape) == 2:
        b = a
        a = A((a.shape[0],), lambda i: b.fn((i[0], 0)) if one(b.shape[1]) else b.fn((0, i[0])))
    I.set(o, SpR(r.shape, f(row), f(col), r.tag))
    I.log(("store", o.id, None))


def sp_diagonal(I, o):
    r = I.rec(o)
    return new_arr(I, (r.shape[0],), lambda i: sp_elem(I, r, i[0], i[0]))


def sp_attr(I, o, name):
    r = I.rec(o)
    if name == "shape":
        return tuple(r.shape)
    if name == "T":
        return sp_transpose(I, o)
    if name in ("tolil", "tocsr", "tocsc", "tocoo", "copy", "todok", "asformat"):
        return NFunc(name, lambda I, a, k: I.new(SpR(I.rec(o).shape, I.rec(o).row, I.rec(o).col), "sp"))
    if name == "dot":
        return NFunc(name, lambda I, a, k: sp_dot(I, o, a[0]))
    if name == "sum":
        return NFunc(name, lambda I, a, k: sp_reduce(I, o, "sum", arg(a, k, 0, "axis")))
    if name == "multiply":
        return NFunc(name, lambda I, a, k: sp_multiply(I, o, a[0]))
    if name == "transpose":
        return NFunc(name, lambda I, a, k: sp_transpose(I, o))
    if name == "maximum":
        return NFunc(name, lambda I, a, k: sp_extreme(I, o, a[0], "max"))
    if name == "minimum":
        return NFunc(name, lambda I, a, k: sp_extreme(I, o, a[0], "min"))
    if name == "setdiag":
        return NFunc(name, lambda I, a, k: sp_setdiag(I, o, a[0]))
    if name == "diagonal":
        return NFunc(name, lambda I, a, k: sp_diagonal(I, o))
    if name in ("toarray", "todense"):
        fn_r = r
        return NFunc(name, lambda I, a, k: new_arr(I, fn_r.shape, lambda i: sp_elem(I, fn_r, i[0], i[1])))
    if name in ("eliminate_zeros", "sort_indices", "sum_duplicates"):
        return NFunc(name, lambda I, a, k: None)
    if name == "ndim":
        return 2
    if name == "max":
        return NFunc(name, lambda I, a, k: Unk("sparse max"))
    if name in ("data", "indices", "indptr", "nnz", "dtype", "format", "rows", "power", "nonzero", "getrow", "getcol", "min"):
        return Unk("sparse." + name)
    I.event("attribute-error", "sparse matrix has no attribute %s" % name)
    I.raise_("AttributeError", name)


def sp_abs(I, o):
    return sp_map(I, o, lambda x: X.fn("abs", x))


SOLVES = {}


def solve_system(I, m, v):
    """Opaque solution of A x = b, numbered by the matrix and right hand side."""
    r = I.rec(m)
    try:
        b = asarr(I, v)
    except NotArray:
        return Unk("linear system")
    if len(b.shape) != 1:
        return Unk("linear system")
    if dim_ne(r.shape[0], b.shape[0]):
        I.event("shape-mismatch", "system of size %s with right hand side %s" % (shp(r.shape), shp(b.shape)))
        I.raise_("ValueError", "dimension mismatch")
    key = []
    for p in positions(r.shape[0], "\u03c3"):
        key.append(simp(I.E(b.fn((p,)))).id)
        key.append(tuple(sorted((simp(num(j)).id, simp(I.E(val(x))).id) for j, x in r.row(p))))
    key = tuple(key)
    SOLVES.setdefault(key, (len(SOLVES), r, b))
    n = SOLVES[key][0]
    return new_arr(I, (r.shape[0],), lambda i: X.app("solve", num(n), num(i[0])))


def solve_of(n):
    """(matrix record, right hand side) of an opaque solution."""
    return next((r, b) for k, r, b in SOLVES.values() if k == n)


def spsolve(I, args, kwargs):
    m, v = arg(args, kwargs, 0, "A"), arg(args, kwargs, 1, "b")
    if isinstance(m, Ref) and m.kind == "sp":
        return solve_system(I, m, v)
    return Unk("spsolve")


SUPERLU = Native("SuperLU", (), {"solve": lambda I, a, k: solve_system(I, I.getattr(a[0], "_a"), arg(a, k, 1, "rhs"))})


def splu(I, args, kwargs):
    m = arg(args, kwargs, 0, "A")
    if isinstance(m, Ref) and m.kind == "sp":
        r = I.rec(m)
        return I.obj(SUPERLU, {"_a": I.new(SpR(r.shape, r.row, r.col), "sp"), "shape": tuple(r.shape)})
    return Unk("splu")


EXT["scipy.sparse.linalg.spsolve"] = spsolve
EXT["scipy.sparse.linalg.splu"] = splu
