"""Value-number terms: hash-consed expressions, ring normal form, valuations.

Terms are what the abstract interpreter (interp.py) computes for a scalar or for
the generic element of an array.  Two questions are answered about them:

* is_zero(e): PROVED by the normal form (rational functions over atoms, with
  max/min/abs/sqrt/gated choices as atoms), REFUTED when a valuation of the
  leaves that respects the declared domains makes it non-zero, UNKNOWN else.
* is_nonneg(e): PROVED by the sign/dominance rules below, REFUTED likewise.
"""
from fractions import Fraction
import itertools
import math
import random
import sys

sys.setrecursionlimit(20000)

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"


class E:
    __slots__ = ("op", "args", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return add(self, neg(o))

    def __rsub__(self, o):
        return add(o, neg(self))

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, o):
        return power(self, o)


_TABLE = {}
_BYID = []


def mk(op, *args):
    key = (op,) + tuple(("E", a.id) if isinstance(a, E) else a for a in args)
    r = _TABLE.get(key)
    if r is None:
        r = E()
        r.op, r.args, r.id = op, args, len(_BYID)
        _TABLE[key] = r
        _BYID.append(r)
    return r


def num(x):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return mk("num", Fraction(int(x)))
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else neg(INF)
        return mk("num", Fraction(repr(x)))
    return mk("num", Fraction(x))


NAN = mk("nan")
INF = mk("inf")
ZERO, ONE, TWO = num(0), num(1), num(2)
TRUE, FALSE = mk("true"), mk("false")

#: declared domains of leaves: name -> "pos" | "nonneg" | "int" | "real" | "unit"
#: "len" (a large array length), "idx" (a generic interior position, see IDXLEN)
DOMAIN = {}
IDXLEN = {}


def sym(name, domain=None):
    if domain:
        DOMAIN[name] = domain
    return mk("sym", name)


_unk = itertools.count()


def unk(reason="?"):
    return mk("unk", next(_unk), reason)


def isnum(e):
    return isinstance(e, E) and e.op == "num"


def const(e):
    """Fraction value of a constant term or None."""
    if isinstance(e, E) and e.op == "num":
        return e.args[0]
    return None


# ---------------------------------------------------------------- builders
def add(a, b):
    a, b = num(a), num(b)
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a is NAN or b is NAN:
        return NAN
    return mk("add", a, b)


def neg(a):
    a = num(a)
    if a.op == "num":
        return num(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    if a is NAN:
        return NAN
    return mk("neg", a)


def mul(a, b):
    a, b = num(a), num(b)
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    if a is NAN or b is NAN:
        return NAN
    if a is ONE:
        return b
    if b is ONE:
        return a
    return mk("mul", a, b)


def div(a, b):
    a, b = num(a), num(b)
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] / b.args[0])
    if b is ONE:
        return a
    if a is NAN or b is NAN:
        return NAN
    return mk("div", a, b)


def power(a, b):
    a, b = num(a), num(b)
    c = const(b)
    if c is not None:
        if c == 1:
            return a
        if c == 0:
            return ONE
        if c.denominator == 1 and a.op == "num" and (a.args[0] != 0 or c > 0):
            return num(a.args[0] ** int(c))
        if c == Fraction(1, 2):
            return fn("sqrt", a)
        if c == Fraction(-1, 2):
            return div(1, fn("sqrt", a))
        if c.denominator == 1 and 0 < abs(c) <= 12:
            return mk("pow", a, b)
        if c.denominator == 2 and abs(c) <= 8:
            return mk("pow", fn("sqrt", a), num(2 * c))
    return mk("fn", "pow", a, b)


def fn(name, *args):
    args = tuple(num(a) if not isinstance(a, (str, tuple)) else a for a in args)
    if name in ("max", "min"):
        flat = []
        for a in args:
            if a.op == "fn" and a.args[0] == name:
                flat.extend(a.args[1:])
            elif a not in flat:
                flat.append(a)
        uniq = []
        for a in flat:
            if a not in uniq:
                uniq.append(a)
        cs = [a for a in uniq if isnum(a)]
        if len(cs) > 1:
            best = (max if name == "max" else min)(cs, key=lambda t: t.args[0])
            uniq = [a for a in uniq if not isnum(a)] + [best]
        if len(uniq) == 1:
            return uniq[0]
        return mk("fn", name, *sorted(uniq, key=lambda t: t.id))
    if name == "abs" and isnum(args[0]):
        return num(abs(args[0].args[0]))
    if name == "sign" and isnum(args[0]):
        v = args[0].args[0]
        return num((v > 0) - (v < 0))
    if name == "sqrt" and isnum(args[0]):
        v = args[0].args[0]
        if v >= 0:
            r = Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator))
            if r * r == v:
                return num(r)
    if name == "floor" and isnum(args[0]):
        return num(math.floor(args[0].args[0]))
    return mk("fn", name, *args)


def app(name, *args):
    """Uninterpreted function application (deterministic)."""
    return mk("app", name, *args)


def ite(c, a, b):
    if c is TRUE or c is True:
        return a
    if c is FALSE or c is False:
        return b
    a, b = num(a), num(b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", c, a, b)


def cmp_(op, a, b):
    a, b = num(a), num(b)
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        return TRUE if r else FALSE
    if a is NAN or b is NAN:
        return TRUE if op == "!=" else FALSE
    if op == "==" and a is not b and is_intterm(a) and is_intterm(b):
        r = idx_decide("==", a, b)
        if r is not None:
            return TRUE if r else FALSE
    if a is b and not has_nan(a):
        return TRUE if op in ("<=", ">=", "==") else FALSE
    if op == ">":
        return mk("cmp", "<", b, a)
    if op == ">=":
        return mk("cmp", "<=", b, a)
    if op == "!=":
        return not_(cmp_("==", a, b))
    return mk("cmp", op, a, b)


def has_nan(e):
    return contains(e, lambda t: t.op in ("nan", "inf"))


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk("or", a, b)


def isnan_(a):
    a = num(a)
    if a is NAN:
        return TRUE
    if a.op == "inf" or a.op in ("mul", "neg") and all(isinstance(x, E) and (x.op == "inf" or const(x) not in (None, 0)) for x in a.args):
        return FALSE
    if not has_nan(a):
        if contains(a, lambda t: t.op == "unk"):
            return mk("isnan", a)
        return FALSE
    if a.op == "ite":
        c, x, y = a.args
        ix, iy = isnan_(x), isnan_(y)
        if ix is TRUE and iy is FALSE:
            return c
        if ix is FALSE and iy is TRUE:
            return not_(c)
        return or_(and_(c, ix), and_(not_(c), iy))
    if a.op in ("add", "mul", "div", "neg") or (a.op == "pow"):
        r = FALSE
        for x in a.args:
            if isinstance(x, E):
                r = or_(r, isnan_(x))
        return r
    return mk("isnan", a)


# ---------------------------------------------------------------- traversal
def kids(t):
    if t.op == "inv":
        return [ATOMS[k] for m, c in t.args[0] for k, q in m]
    return [x for x in t.args if isinstance(x, E)]


def contains(e, pred, _memo=None):
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if not isinstance(t, E) or t.id in seen:
            continue
        seen.add(t.id)
        if pred(t):
            return True
        stack.extend(kids(t))
    return False


def tainted(e):
    """Whether a term, or a term in the name of one of its symbols, is not exact."""
    return contains(e, lambda t: t.op in ("unk", "red") or t.op == "sym" and isinstance(t.args[0], tuple) and any(isinstance(x, E) and tainted(x) for x in t.args[0]))


def leaves(e):
    out, seen, stack = [], set(), [e]
    while stack:
        t = stack.pop()
        if not isinstance(t, E) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ("sym", "unk"):
            out.append(t)
        stack.extend(kids(t))
    return out


def subst(e, mapping, memo=None):
    """Replace terms (by identity) and rebuild through the smart builders."""
    memo = {} if memo is None else memo

    def go(t):
        if not isinstance(t, E):
            return t
        if t in mapping:
            return mapping[t]
        r = memo.get(t.id)
        if r is None and t.op == "inv":
            p = canon_p(_INV[t.id])
            r = go(p)
            r = memo[t.id] = t if r is p else div(ONE, r)
        if r is None:
            new = [go(a) for a in t.args]
            r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, new)
            memo[t.id] = r
        return r

    return go(e)


def rebuild(op, args):
    if op == "add":
        return add(*args)
    if op == "neg":
        return neg(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return power(*args)
    if op == "fn":
        return fn(*args)
    if op == "ite":
        return ite(*args)
    if op == "cmp":
        return cmp_(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "isnan":
        return isnan_(*args)
    if op == "app" or op == "sym":
        return mk(op, *args)
    return mk(op, *args)


def show(e, depth=0):
    if not isinstance(e, E):
        return str(e)
    if depth > 40:
        return "…"
    s = lambda t: show(t, depth + 1)
    if e.op == "num":
        return str(e.args[0])
    if e.op == "sym":
        n = e.args[0]
        if isinstance(n, tuple):
            return "%s[%s]" % (n[0], ",".join(str(x) for x in n[1:]))
        return str(n)
    if e.op == "unk":
        return "?%s" % e.args[1]
    if e.op == "add":
        return "(%s + %s)" % tuple(map(s, e.args))
    if e.op == "mul":
        return "%s*%s" % tuple(map(s, e.args))
    if e.op == "div":
        return "%s/(%s)" % tuple(map(s, e.args))
    if e.op == "neg":
        return "-(%s)" % s(e.args[0])
    if e.op == "pow":
        return "(%s)^%s" % tuple(map(s, e.args))
    if e.op in ("fn", "app"):
        return "%s(%s)" % (e.args[0], ", ".join(s(a) for a in e.args[1:]))
    if e.op == "cmp":
        return "(%s %s %s)" % (s(e.args[1]), e.args[0], s(e.args[2]))
    return "%s(%s)" % (e.op, ", ".join(s(a) for a in e.args))


# ---------------------------------------------------------------- normal form
# Laurent polynomials: {monomial: Fraction}, monomial = tuple of (atom id, power)
ATOMS = {}  # atom id -> E
_INV = {}  # atom id of inv(P) -> poly P


class TooBig(Exception):
    pass


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, p in n:
        q = d.get(k, 0) + p
        if q:
            d[k] = q
        else:
            d.pop(k)
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 60000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return reduce_sqrt(r)


def reduce_sqrt(p):
    """sqrt(a)^2 -> a (also for negative even powers when a is a monomial)."""
    work = False
    for m in p:
        for k, q in m:
            if (q >= 2 or q <= -2) and k in _SQRT:
                work = True
            elif k in _ABS:
                work = True
    if not work:
        return p
    p = reduce_abs(p)
    out = {}
    for m, c in p.items():
        extra = {(): Fraction(1)}
        rest = []
        for k, q in m:
            if k in _SQRT and abs(q) >= 2:
                base = _SQRT[k]
                half = abs(q) // 2
                s = 1 if q > 0 else -1
                if s < 0 and len(base) != 1:
                    inv = p_inv(base)
                    for _ in range(half):
                        extra = p_mul(extra, inv)
                else:
                    f = base if s > 0 else p_inv(base)
                    for _ in range(half):
                        extra = p_mul(extra, f)
                if abs(q) % 2:
                    rest.append((k, s))
            else:
                rest.append((k, q))
        mono = {tuple(rest): c}
        prod = {}
        for mm, cc in mono.items():
            for nn, dd in extra.items():
                key = m_mul(mm, nn)
                prod[key] = prod.get(key, 0) + cc * dd
        out = p_add(out, {k: v for k, v in prod.items() if v})
    return out


def reduce_abs(p):
    """abs(a)*sign(a) -> a, abs(a)^2 -> a^2."""
    out = None
    for m, c in p.items():
        for k, q in m:
            if k in _ABS and (q >= 2 or q < 0):
                base = nf(E_BY_ID[_ABS[k]])
                if len(base) == 1:
                    if out is None:
                        out = dict(p)
                    out.pop(m)
                    ((b, d),) = base.items()
                    odd = q % 2
                    rest = m_mul(m, ((k, odd - q),))
                    for _ in range(abs(q - odd)):
                        rest = m_mul(rest, b if q > odd else tuple((x, -y) for x, y in b))
                    out = p_add(out, {rest: c * d ** (q - odd)})
                    break
            s = _SIGN.get(_ABS.get(k)) if q >= 1 else None
            if s is not None and dict(m).get(s, 0) >= 1:
                if out is None:
                    out = dict(p)
                out.pop(m)
                rest = m_mul(m_mul(m, ((k, -1),)), ((s, -1),))
                new = p_mul({rest: c}, nf(E_BY_ID[_ABS[k]]))
                out = p_add(out, new)
                break
    return p if out is None else reduce_abs(out)


E_BY_ID = {}
_ABS = {}
_SIGN = {}
_SQRT = {}
_NF = {}


def atom(e):
    ATOMS[e.id] = e
    return {((e.id, 1),): Fraction(1)}


_SQRT_CONST = {}


def p_lead(p):
    return max(p)


def p_inv(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        ((m, c),) = p.items()
        c, out = 1 / c, []
        for k, q in m:
            v = _SQRT_CONST.get(k)
            if v is not None and q == 1:
                c, q = c / v, -1
            out.append((k, -q))
        return {tuple(out): c}
    # pull out content: make primitive w.r.t. leading coefficient and common monomial
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: min(common.get(k, 0), d.get(k, 0)) for k in set(common) | set(d)}
    common = {k: q for k, q in (common or {}).items() if q}
    cm = tuple(sorted((k, -q) for k, q in common.items()))
    if cm:
        p = {m_mul(m, cm): c for m, c in p.items()}
    root = p_sqrt(p)
    if root is not None:
        c, root = root
        i = p_inv(root)
        return p_mul(p_mul(i, i), {cm: 1 / c})
    lc = p[p_lead(p)]
    p = p_scale(p, 1 / lc)
    a = mk("inv", tuple(sorted(p.items())))
    ATOMS[a.id] = a
    _INV[a.id] = p
    return {m_mul(((a.id, 1),), cm): 1 / lc}


def p_sqrt(p):
    """(c, r) with p = c r^2, or None."""
    if not 3 <= len(p) <= 28:
        return None
    ks = sorted({k for m in p for k, _ in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(k, 0) for k in ks)

    lead = max(p, key=key)
    if any(q % 2 for _, q in lead) or any(q < 0 for m in p for _, q in m):
        return None
    c = p[lead]
    p = p_scale(p, 1 / c)
    top = tuple((k, q // 2) for k, q in lead)
    r = {top: Fraction(1)}
    inv = tuple((k, -q) for k, q in top)
    for _ in range(len(p)):
        sq = {}
        for m, x in r.items():
            for n, y in r.items():
                t = m_mul(m, n)
                sq[t] = sq.get(t, 0) + x * y
        rem = p_add(p, {m: -v for m, v in sq.items() if v})
        if not rem:
            return c, r
        lm = max(rem, key=key)
        t = m_mul(lm, inv)
        if any(q < 0 for _, q in t) or t in r:
            return None
        r[t] = rem[lm] / 2
    return None


def p_divexact(n, p):
    """Exact division of Laurent polynomial n by polynomial p, or None."""
    ks = sorted({k for m in p for k, _ in m} | {k for m in n for k, _ in m})
    pos = {k: i for i, k in enumerate(ks)}
    zero = [0] * len(ks)

    def key(m):
        v = zero[:]
        for k, q in m:
            v[pos[k]] = q
        return v

    q = {}
    lp = max(p, key=key)
    lc = p[lp]
    inv = tuple((k, -x) for k, x in lp)
    r = dict(n)
    for _ in range(4 * len(n) + 8):
        if not r:
            return q
        lm = max(r, key=key)
        mm = m_mul(lm, inv)
        c = r[lm] / lc
        q = p_add(q, {mm: c})
        r = p_add(r, p_scale({m_mul(mm, k): v for k, v in p.items()}, -c))
    return q if not r else None


def simplify_inv(p):
    """Cancel N*inv(P) when P divides N exactly."""
    for _ in range(6):
        ids = {k for m in p for k, q in m if k in _INV}
        changed = False
        for k in ids:
            groups = {}
            for m, c in p.items():
                d = dict(m)
                q = d.pop(k, 0)
                groups.setdefault(q, {})[tuple(sorted(d.items()))] = c
            tops = [q for q in groups if q > 0]
            if not tops:
                continue
            t = max(tops)
            res = p_divexact(groups[t], _INV[k])
            if res is not None and len(res) <= len(groups[t]):
                new = {}
                for q, g in groups.items():
                    if q == t:
                        continue
                    new = p_add(new, {m_mul(m, ((k, q),)) if q else m: c for m, c in g.items()})
                new = p_add(new, {m_mul(m, ((k, t - 1),)) if t > 1 else m: c for m, c in res.items()})
                if len(new) <= len(p):
                    p = new
                    changed = True
                    break
        if not changed:
            return p
    return p


def nf(e):
    r = _NF.get(e.id)
    if r is None:
        r = _NF[e.id] = simplify_inv(_nf(e))
    return r


def _nf(e):
    op = e.op
    if op == "num":
        return p_const(e.args[0])
    if op == "add":
        return p_add(nf(e.args[0]), nf(e.args[1]))
    if op == "neg":
        return p_scale(nf(e.args[0]), -1)
    if op == "mul":
        return p_mul(nf(e.args[0]), nf(e.args[1]))
    if op == "div":
        try:
            return p_mul(nf(e.args[0]), p_inv(nf(e.args[1])))
        except ZeroDivisionError:
            return atom(e)
    if op == "pow":
        k = int(const(e.args[1]))
        b = nf(e.args[0])
        if k < 0:
            try:
                b, k = p_inv(b), -k
            except ZeroDivisionError:
                return atom(e)
        r = {(): Fraction(1)}
        for _ in range(k):
            r = p_mul(r, b)
        return r
    if op == "fn":
        name = e.args[0]
        if name == "sqrt":
            a = nf(e.args[1])
            v = a.get((), None) if len(a) == 1 else None
            if v is not None and v > 0 and v.numerator * v.denominator < 10**9:
                # sqrt(p/q) = s/q*sqrt(m) with p*q = s*s*m, m square free
                m, r = v.numerator * v.denominator, 1
                d = 2
                while d * d <= m:
                    while m % (d * d) == 0:
                        m //= d * d
                        r *= d
                    d += 1
                if m == 1:
                    return p_const(Fraction(r, v.denominator))
                t = fn("sqrt", num(m))
                ATOMS[t.id] = t
                _SQRT[t.id] = p_const(Fraction(m))
                _SQRT_CONST[t.id] = Fraction(m)
                return {((t.id, 1),): Fraction(r, v.denominator)}
            c = canon_p(a)
            t = fn("sqrt", c)
            if t.op != "fn":
                return nf(t)
            ATOMS[t.id] = t
            _SQRT[t.id] = a
            return {((t.id, 1),): Fraction(1)}
        if name == "min":
            return p_scale(nf_max([p_scale(nf(a), -1) for a in e.args[1:]]), -1)
        if name == "max":
            return nf_max([nf(a) for a in e.args[1:]])
        if name == "abs":
            a = nf(e.args[1])
            if not a:
                return {}
            if sign_p(a) >= 1:
                return a
            if sign_p(p_scale(a, -1)) >= 1:
                return p_scale(a, -1)
            lc = a[p_lead(a)]
            # pull out the content and known non-negative factors
            a1 = p_scale(a, 1 / lc)
            if len(a1) == 1:
                ((m, c),) = a1.items()
                out, inner = {(): abs(lc)}, []
                for k, q in m:
                    if q % 2 == 0 or sign_atom(k) >= 1:
                        out = p_mul(out, {((k, q),): Fraction(1)})
                    else:
                        inner.append((k, q))
                if not inner:
                    return out
                t = mk("fn", "abs", canon_p({tuple(inner): Fraction(1)}))
                _ABS[t.id] = t.args[1].id
                E_BY_ID[t.args[1].id] = t.args[1]
                return p_mul(out, atom(t))
            t = mk("fn", "abs", canon_p(a1))
            _ABS[t.id] = t.args[1].id
            E_BY_ID[t.args[1].id] = t.args[1]
            return p_scale(atom(t), abs(lc))
        if name == "sign":
            a = nf(e.args[1])
            if not a:
                return {}
            for s in (1, -1):
                if sign_p(p_scale(a, s)) == 2:
                    return p_const(Fraction(s))
            lc = a[p_lead(a)]
            a1 = p_scale(a, 1 / lc)
            t = mk("fn", "sign", canon_p(a1))
            _SIGN[t.args[1].id] = t.id
            return p_scale(atom(t), 1 if lc > 0 else -1)
        args = tuple(canon(a) if isinstance(a, E) else a for a in e.args[1:])
        return atom(mk("fn", name, *args))
    if op == "app":
        return atom(mk("app", e.args[0], *[canon(a) if isinstance(a, E) else a for a in e.args[1:]]))
    if op == "ite":
        c, a, b = e.args
        c = canon_cond(c)
        if c is TRUE:
            return nf(a)
        if c is FALSE:
            return nf(b)
        a, b = canon(a), canon(b)
        if a is b:
            return nf(a)
        t = ite(c, a, b)
        if t.op != "ite":
            return nf(t)
        return atom(t)
    return atom(e)


def abs_base(k):
    """The atom a of abs(a)."""
    p = nf(E_BY_ID[_ABS[k]])
    if len(p) == 1:
        ((m, c),) = p.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            return m[0][0]
    return None


def nf_max(ps):
    """max of polynomials: translation and positive scaling are normalised."""
    uniq = []
    for p in ps:
        if p not in uniq:
            uniq.append(p)
    # flatten single max atoms with coefficient one
    flat = []
    for p in uniq:
        if len(p) == 1:
            ((m, c),) = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                t = ATOMS[m[0][0]]
                if t.op == "fn" and t.args[0] == "max":
                    flat.extend(nf(a) for a in t.args[1:])
                    continue
        flat.append(p)
    uniq = []
    for p in flat:
        if p not in uniq:
            uniq.append(p)
    # drop dominated arguments
    keep = []
    for i, p in enumerate(uniq):
        dominated = False
        for j, q in enumerate(uniq):
            if i != j and sign_p(p_add(q, p_scale(p, -1))) >= 1 and not (j > i and sign_p(p_add(p, p_scale(q, -1))) >= 1):
                dominated = True
                break
        if not dominated:
            keep.append(p)
    uniq = keep
    if len(uniq) == 1:
        return uniq[0]
    # common non-negative monomial factor
    common = None
    roots = {k: b for p in uniq for m in p for k, _ in m if k in _ABS for b in [abs_base(k)] if b}
    for p in uniq:
        for m in p:
            d = dict(m)
            for k, b in roots.items():
                if k not in d and d.get(b, 0) >= 2:
                    d[k] = 1  # a^2 contains abs(a)
            if common is None:
                common = d
            else:
                common = {k: (min(common[k], d[k]) if common[k] > 0 else max(common[k], d[k]))
                          for k in common if k in d and (common[k] > 0) == (d[k] > 0)}
        if not p:
            pass
    factor = tuple(sorted((k, q) for k, q in (common or {}).items() if sign_atom(k) >= 1))
    if factor:
        invf = tuple((k, -q) for k, q in factor)
        uniq = [{m_mul(m, invf): c for m, c in p.items()} for p in uniq]
        if roots:
            uniq = [reduce_abs(p) for p in uniq]
    # translation by common terms
    shift = {}
    nz = [p for p in uniq]
    first = nz[0]
    for m, c in first.items():
        if all(p.get(m) == c for p in nz[1:]):
            shift[m] = c
    if shift:
        uniq = [p_add(p, p_scale(shift, -1)) for p in uniq]
    # rational content
    cs = [abs(c) for p in uniq for c in p.values()]
    content = Fraction(1)
    if cs:
        content = cs[0]
        for c in cs[1:]:
            content = Fraction(math.gcd(content.numerator * c.denominator, c.numerator * content.denominator),
                               content.denominator * c.denominator)
        uniq = [p_scale(p, 1 / content) for p in uniq]
    t = fn("max", *[canon_p(p) for p in uniq])
    r = nf(t) if t.op != "fn" or t.args[0] != "max" else atom(t)
    r = p_scale(r, content)
    if shift:
        r = p_add(r, shift)
    if factor:
        r = {m_mul(m, factor): c for m, c in r.items()}
    return r


_CANON = {}


def canon_p(p):
    key = tuple(sorted(p.items()))
    r = _CANON.get(key)
    if r is None:
        r = ZERO
        for m, c in key:
            t = num(c)
            for k, q in m:
                a = ATOMS[k]
                t = mul(t, a if q == 1 else mk("pow", a, num(q)))
            r = add(r, t)
        _CANON[key] = r
        _NF[r.id] = dict(p)
    return r


def canon(e):
    return canon_p(nf(e))


def canon_cond(c):
    if not isinstance(c, E):
        return TRUE if c else FALSE
    if c.op == "cmp":
        op, a, b = c.args
        d = canon(add(a, neg(b)))
        k = const(d)
        if k is not None:
            return cmp_(op, d, ZERO)
        if not has_nan(d):
            s = sign_p(nf(d))
            if op == "<" and s >= 1:
                return FALSE
            if op == "<=" and sign_p(p_scale(nf(d), -1)) >= 1:
                return TRUE
            if op == "<" and sign_p(p_scale(nf(d), -1)) == 2:
                return TRUE
            if op == "<=" and s == 2:
                return FALSE
            if op == "==" and (s == 2 or sign_p(p_scale(nf(d), -1)) == 2):
                return FALSE
        return mk("cmp", op, d, ZERO)
    if c.op == "not":
        return not_(canon_cond(c.args[0]))
    if c.op == "and":
        return and_(canon_cond(c.args[0]), canon_cond(c.args[1]))
    if c.op == "or":
        return or_(canon_cond(c.args[0]), canon_cond(c.args[1]))
    return c


# ---------------------------------------------------------------- index terms
INT_DOMAINS = ("len", "idx", "int", "posint")


def is_intterm(e):
    if isinstance(e, bool):
        return True
    if isinstance(e, int):
        return True
    if e.op == "num":
        return e.args[0].denominator == 1 and e.args[0] == int(e.args[0])
    if e.op == "sym":
        return DOMAIN.get(e.args[0]) in INT_DOMAINS
    if e.op in ("add", "mul", "neg"):
        return all(is_intterm(a) for a in e.args)
    if e.op == "fn" and e.args[0] in ("floor", "trunc"):
        return True
    if e.op == "fn" and e.args[0] in ("max", "min", "abs"):
        return all(is_intterm(a) for a in e.args[1:])
    if e.op == "app" and str(e.args[0]).startswith("int:"):
        return True
    if e.op == "ite":
        return is_intterm(e.args[1]) and is_intterm(e.args[2])
    return False


_ILIN = {}


def ilin(e):
    """(constant, {sym: coefficient}) of a linear form in lengths/positions."""
    e = num(e)
    if e.id in _ILIN:
        return _ILIN[e.id]
    r = _ilin(e)
    _ILIN[e.id] = r
    return r


def _ilin(e):
    if not is_intterm(e):
        return None
    try:
        p = nf(e)
    except TooBig:
        return None
    c, d = Fraction(0), {}
    for m, k in p.items():
        if not m:
            c = k
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].op == "sym":
            d[ATOMS[m[0][0]]] = k
        else:
            return None
    return c, d


def isign(e):
    """Sign of an integer linear form: 1, 0, -1 or None.

    Lengths are arbitrarily large; a position with IDXLEN n lies at least an
    arbitrary but fixed distance away from both 0 and n."""
    l = ilin(e)
    if l is None:
        return None
    c, d = l
    if not d:
        return (c > 0) - (c < 0)
    lens = {}
    lo_k = hi_k = Fraction(0)
    lo_n = hi_n = Fraction(0)
    base_n = {}
    ext = []
    for s, k in d.items():
        dom = DOMAIN.get(s.args[0])
        if dom == "len":
            base_n[s] = base_n.get(s, Fraction(0)) + k
        elif dom == "idx" and s.args[0] in IDXLEN:
            L = ilin(IDXLEN[s.args[0]])
            if L is None:
                return None
            ext.append((k, L))
        else:
            return None

    def total(pick):
        n = dict(base_n)
        kk, cc = Fraction(0), c
        for k, (lc, ld) in ext:
            at_hi = pick(k)
            if at_hi:
                for t, q in ld.items():
                    n[t] = n.get(t, Fraction(0)) + k * q
                kk -= k
                cc += k * lc
            else:
                kk += k
        return n, kk, cc

    def sg(t):
        n, kk, cc = t
        vals = [v for v in n.values() if v]
        if vals:
            if all(v > 0 for v in vals):
                return 1
            if all(v < 0 for v in vals):
                return -1
            return None
        if kk:
            return 1 if kk > 0 else -1
        return (cc > 0) - (cc < 0)

    lo, hi = sg(total(lambda k: k < 0)), sg(total(lambda k: k > 0))
    if lo == 1:
        return 1
    if hi == -1:
        return -1
    return None


def idx_decide(op, a, b):
    """Decide a comparison of integer terms, or None."""
    d = num(a) - num(b)
    s = isign(d)
    if s is None:
        if op in ("==", "!="):
            l = ilin(d)
            if l is not None and l[1] and all(k.denominator == 1 for k in [l[0], *l[1].values()]):
                g = math.gcd(*[int(k) for k in l[1].values()])
                if int(l[0]) % g:
                    return op == "!="
        return None
    return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op]


def depends(e, s):
    """Does the term mention leaf s (also inside indexed leaf names)?"""
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if t is s:
            return True
        if not isinstance(t, E) or t.id in seen:
            continue
        seen.add(t.id)
        for x in t.args:
            if isinstance(x, E):
                stack.append(x)
            elif isinstance(x, tuple):
                stack.extend(y for y in x if isinstance(y, E))
    return False


# ---------------------------------------------------------------- signs
# 2: > 0, 1: >= 0, 0: unknown
def sign_atom(k):
    e = ATOMS[k]
    return sign_e(e)


_SIGN = {}


def sign_e(e):
    if e.op == "sym":
        d = DOMAIN.get(e.args[0])
        return 2 if d in ("pos", "posint", "len", "idx") else 1 if d in ("nonneg", "unit") else 0
    if e.op == "num":
        v = e.args[0]
        return 2 if v > 0 else 1 if v == 0 else 0
    if e.op == "inv":
        return 2 if sign_p(dict(e.args[0])) == 2 else 1 if sign_p(dict(e.args[0])) == 1 else 0
    if e.op == "fn":
        n = e.args[0]
        if n == "abs":
            return 2 if sign_p(nf(e.args[1])) == 2 else 1
        if n == "sqrt":
            return 2 if sign_p(nf(e.args[1])) == 2 else 1
        if n == "max":
            return max(sign_p(nf(a)) for a in e.args[1:])
        if n == "exp":
            return 2
    if e.op == "ite":
        return min(sign_p(nf(e.args[1])), sign_p(nf(e.args[2])))
    return 0


_CLOSED = {}


def closed_value(e):
    """Float value of a term without free leaves (rationals, roots, pi), or None."""
    if e.id in _CLOSED:
        return _CLOSED[e.id]
    _CLOSED[e.id] = None
    r = None
    if e.op == "num":
        r = float(e.args[0])
    elif e.op == "sym" and e.args[0] == "\u03c0":
        r = math.pi
    elif e.op == "inv":
        v = closed_p(dict(e.args[0]))
        r = 1 / v if v and abs(v) > 1e-6 else None
    elif e.op in ("add", "mul", "neg", "div", "pow") or (e.op == "fn" and e.args[0] in ("sqrt", "abs", "sin", "cos", "max", "min", "exp")):
        xs = [closed_value(num(a)) for a in e.args if isinstance(a, (E, int, Fraction)) and not isinstance(a, bool)]
        if all(x is not None for x in xs):
            try:
                if e.op == "add":
                    r = xs[0] + xs[1]
                elif e.op == "mul":
                    r = xs[0] * xs[1]
                elif e.op == "neg":
                    r = -xs[0]
                elif e.op == "div":
                    r = xs[0] / xs[1] if abs(xs[1]) > 1e-6 else None
                elif e.op == "pow":
                    r = xs[0] ** xs[1] if xs[0] > 1e-6 else None
                else:
                    n = e.args[0]
                    r = {"sqrt": lambda: math.sqrt(xs[0]) if xs[0] > 0 else None, "abs": lambda: abs(xs[0]),
                         "sin": lambda: math.sin(xs[0]), "cos": lambda: math.cos(xs[0]),
                         "max": lambda: max(xs), "min": lambda: min(xs), "exp": lambda: math.exp(xs[0])}[n]()
            except (ValueError, OverflowError, ZeroDivisionError):
                r = None
    _CLOSED[e.id] = r
    return r


def closed_p(p):
    t = 0.0
    for m, c in p.items():
        v = float(c)
        for k, q in m:
            x = closed_value(ATOMS[k])
            if x is None or (q < 0 and abs(x) < 1e-6):
                return None
            v *= x ** q
        t += v
    return t


def shift_lengths(p, by=16):
    """p with every length and interior position n replaced by n' + 16 (both are
    arbitrarily large)."""
    ks = {k for m in p for k, q in m if ATOMS[k].op == "sym" and DOMAIN.get(ATOMS[k].args[0]) in ("len", "idx")}
    if not ks or any(q < 0 for m in p for k, q in m if k in ks):
        return None
    out = {}
    for m, c in p.items():
        t = {tuple((k, q) for k, q in m if k not in ks): c}
        for k, q in m:
            if k in ks:
                for _ in range(q):
                    t = p_mul(t, {((k, 1),): Fraction(1), (): Fraction(by)})
        out = p_add(out, t)
    return out


def sign_p(p):
    """2 if provably > 0, 1 if provably >= 0 (termwise)."""
    if not p:
        return 1
    if len(p) > 1:
        v = closed_p(p)
        if v is not None:
            return 2 if v > 1e-7 else 0
    best = 1
    for m, c in p.items():
        s = 2
        if c < 0:
            return _sign_max(p)
        for k, q in m:
            a = sign_atom(k)
            if q % 2 == 0:
                a = max(a, 1)
            s = min(s, a)
            if s == 0:
                return _sign_max(p)
        best = max(best, s)
    return best


_SM = {}


def _sign_max(p, depth=0):
    """Dominance: split linear max/abs/ite atoms."""
    if depth > 7 or len(p) > 400:
        return 0
    key = tuple(sorted(p.items()))
    if key in _SM:
        return _SM[key]
    _SM[key] = 0
    r = _sign_split(p, depth)
    if not r:
        q = shift_lengths(p)
        if q is not None:
            r = _terms_ok(q)
    _SM[key] = r
    return r


def _terms_ok(p):
    s_best = 1
    for m, c in p.items():
        if c < 0:
            return 0
        s = 2
        for k, q in m:
            a = sign_atom(k)
            if q % 2 == 0:
                a = max(a, 1)
            s = min(s, a)
        if s == 0:
            return 0
        s_best = max(s_best, s)
    return s_best


def _sign_split(p, depth):
    t = _terms_ok(p)
    if t:
        return t
    cands = []
    for m in p:
        for k, q in m:
            a = ATOMS[k]
            if q == 1 and (a.op == "ite" or (a.op == "fn" and a.args[0] in ("max", "abs"))):
                if k not in cands:
                    cands.append(k)
    for k in cands:
        a = ATOMS[k]
        co, rest, lin = {}, {}, True
        for m, c in p.items():
            d = dict(m)
            q = d.pop(k, 0)
            if q == 0:
                rest[m] = c
            elif q == 1:
                co[tuple(sorted(d.items()))] = c
            else:
                lin = False
        if not lin:
            continue
        if a.op == "ite":
            br = [nf(a.args[1]), nf(a.args[2])]
            rs = [_sign_max(p_add(rest, p_mul(co, b)), depth + 1) for b in br]
            if min(rs) > 0:
                return min(rs)
            continue
        br = [nf(x) for x in a.args[1:]] if a.args[0] == "max" else [nf(a.args[1]), p_scale(nf(a.args[1]), -1)]
        cpos = _terms_ok(co)
        cneg = _terms_ok(p_scale(co, -1))
        if cpos:  # + c*max: any branch suffices
            rs = [_sign_max(p_add(rest, p_mul(co, b)), depth + 1) for b in br]
            if max(rs) > 0:
                return max(rs)
        if cneg:  # - c*max: all branches needed
            rs = [_sign_max(p_add(rest, p_mul(co, b)), depth + 1) for b in br]
            if min(rs) > 0:
                return min(rs)
    return 0


# ---------------------------------------------------------------- valuations
class Skip(Exception):
    pass


class Valuation:
    def __init__(self, seed, overrides=None, style=0):
        self.rng = random.Random(seed)
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.errs = {}
        self.style = style
        self.scale = 10 ** random.Random("scale|%s" % seed).choice((-2, -3, -4, 3)) if style == 3 else 1
        self.overrides = overrides or {}
        self.reds = False

    def leaf(self, e):
        if e.op == "unk":
            name = ("unk", e.args[0])
        else:
            name = e.args[0]
        if name in self.vals:
            return self.vals[name]
        if name in self.overrides:
            v = self.overrides[name]
            v = v(self) if callable(v) else v
        else:
            d = DOMAIN.get(name)
            r = random.Random("%s|%s" % (self.seed, name))
            big = self.style == 1 and r.random() < 0.3
            far = 10 ** r.uniform(-1.5, 1.5) if self.style == 2 else self.scale
            if d == "pos":
                v = r.uniform(0.2, 3.0) * (4 if big else 1) * far
            elif d == "nonneg":
                v = 0.0 if r.random() < 0.15 else r.uniform(0.0, 3.0) * far
            elif d == "unit":
                v = r.uniform(0.01, 0.99)
            elif d in ("len", "posint"):
                v = r.randint(17, 30)
            elif d == "idx":
                v = r.randint(5, 11)
            elif d == "int":
                v = r.randint(-5, 15)
            else:
                v = r.uniform(-3.0, 3.0) * (4 if big else 1) * far
        self.vals[name] = v
        return v

    def ev(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self._ev(e)
            self.memo[e.id] = r
        return r

    def _ev(self, e):
        op, a = e.op, e.args
        if op == "num":
            return float(a[0])
        if op in ("sym", "unk"):
            return float(self.leaf(e))
        if op == "nan":
            return math.nan
        if op == "inf":
            return math.inf
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "add":
            return self.ev(a[0]) + self.ev(a[1])
        if op == "neg":
            return -self.ev(a[0])
        if op == "mul":
            return self.ev(a[0]) * self.ev(a[1])
        if op == "div":
            d = self.ev(a[1])
            n = self.ev(a[0])
            if abs(d) < 1e-9:
                if math.isnan(n):
                    return math.nan
                raise Skip()
            return n / d
        if op == "pow":
            b, k = self.ev(a[0]), self.ev(a[1])
            try:
                return b ** int(k)
            except ZeroDivisionError:
                raise Skip()
        if op == "inv":
            s = 0.0
            for m, c in a[0]:
                t = float(c)
                for k, q in m:
                    t *= self.ev(ATOMS[k]) ** q
                s += t
            if abs(s) < 1e-9:
                raise Skip()
            return 1 / s
        if op == "cmp":
            x, y = self.ev(a[1]), self.ev(a[2])
            return {"<": x < y, "<=": x <= y, "==": x == y}[a[0]]
        if op == "not":
            return not self.ev(a[0])
        if op == "and":
            return bool(self.ev(a[0])) and bool(self.ev(a[1]))
        if op == "or":
            return bool(self.ev(a[0])) or bool(self.ev(a[1]))
        if op == "ite":
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if op == "isnan":
            v = self.ev(a[0])
            return isinstance(v, float) and math.isnan(v)
        if op == "bool":
            return random.Random("%s|b|%s" % (self.seed, a)).random() < 0.5
        if op == "fn":
            n = a[0]
            xs = [self.ev(t) if isinstance(t, E) else t for t in a[1:]]
            try:
                if n == "max":
                    return math.nan if any(math.isnan(x) for x in xs) else max(xs)
                if n == "min":
                    return math.nan if any(math.isnan(x) for x in xs) else min(xs)
                if n == "abs":
                    return abs(xs[0])
                if n == "sqrt":
                    if xs[0] < 0:
                        raise Skip()
                    return math.sqrt(xs[0])
                if n == "sign":
                    return float((xs[0] > 0) - (xs[0] < 0))
                if n == "sin":
                    return math.sin(xs[0])
                if n == "cos":
                    return math.cos(xs[0])
                if n == "exp":
                    return math.exp(xs[0])
                if n == "log":
                    if xs[0] <= 0:
                        raise Skip()
                    return math.log(xs[0])
                if n == "log2":
                    if xs[0] <= 0:
                        raise Skip()
                    return math.log2(xs[0])
                if n == "floor":
                    return float(math.floor(xs[0]))
                if n == "mod":
                    if xs[1] == 0:
                        raise Skip()
                    return math.fmod(xs[0], xs[1]) if xs[0] >= 0 else xs[0] % xs[1]
                if n == "pow":
                    r = xs[0] ** xs[1]
                    if isinstance(r, complex):
                        raise Skip()
                    return r
            except (OverflowError, ValueError, ZeroDivisionError):
                raise Skip()
            return self._hash(n, xs)
        if op == "red" and self.reds:
            xs = [self.ev(t) for t in a[1:] if isinstance(t, E)]
            k = a[0]
            if k in ("any", "all"):
                return -1.0 if (any if k == "any" else all)(xs) else 1.0
            if k in ("max", "min", "sum"):
                return {"max": max, "min": min, "sum": sum}[k](xs)
            raise Skip()
        if op == "app":
            xs = [self.ev(t) if isinstance(t, E) else t for t in a[1:]]
            v = self._hash(a[0], xs)
            return v ** 3 / 3 if self.style == 2 and isinstance(v, float) else v
        raise Skip()

    def err(self, e):
        """Running bound on the rounding error of the sampled value."""
        r = self.errs.get(e.id)
        if r is None:
            r = self.errs[e.id] = self._err(e)
        return r

    def _err(self, e):
        op, a = e.op, e.args
        u = 2.3e-16
        v = self.ev(e)
        if isinstance(v, bool):
            if op == "cmp":
                d = abs(self.ev(a[1]) - self.ev(a[2]))
                t = self.err(a[1]) + self.err(a[2])
                return math.inf if t > 0 and d <= 100 * t else 0.0
            return max([self.err(t) for t in a if isinstance(t, E)] or [0.0])
        if op == "num":
            return 0.0 if a[0] == v else abs(v) * u
        if op == "add":
            return self.err(a[0]) + self.err(a[1]) + abs(v) * u
        if op == "neg":
            return self.err(a[0])
        if op == "mul":
            return abs(self.ev(a[0])) * self.err(a[1]) + abs(self.ev(a[1])) * self.err(a[0]) + abs(v) * u
        if op == "div":
            n, d = self.ev(a[0]), self.ev(a[1])
            return self.err(a[0]) / abs(d) + abs(n) * self.err(a[1]) / (d * d) + abs(v) * u
        if op == "pow":
            b, k = self.ev(a[0]), self.ev(a[1])
            return abs(k) * abs(b) ** (k - 1) * self.err(a[0]) + abs(k * v) * u if b else 0.0
        if op == "inv":
            t = 0.0
            for m, c in a[0]:
                x, rel = abs(float(c)), u
                for k, q in m:
                    y = abs(self.ev(ATOMS[k]))
                    x *= y ** q
                    rel += abs(q) * ((self.err(ATOMS[k]) / y if y else 0.0) + 2 * u)
                t += x * rel
            return t * v * v + abs(v) * u
        if op == "ite":
            c = self.err(a[0])
            if c == math.inf:
                try:
                    c = abs(self.ev(a[1]) - self.ev(a[2])) + max(self.err(a[1]), self.err(a[2]))
                    return c if c == c else math.inf
                except (Skip, OverflowError, ZeroDivisionError, TypeError):
                    return math.inf
            return self.err(a[1] if self.ev(a[0]) else a[2])
        if op == "fn":
            n = a[0]
            xs = [t for t in a[1:] if isinstance(t, E)]
            es = [self.err(t) for t in xs]
            if n in ("max", "min", "abs"):
                return max(es)
            if n == "sqrt":
                x = self.ev(xs[0])
                return es[0] / (2 * v) + v * u if v else math.sqrt(es[0])
            if n == "sign":
                return 2.0 if es[0] > 0 and abs(self.ev(xs[0])) <= 100 * es[0] else 0.0
            if n in ("sin", "cos"):
                return es[0] + u
            if n == "exp":
                return abs(v) * (es[0] + u)
            if n == "log":
                return es[0] / abs(self.ev(xs[0])) + abs(v) * u
            if n == "pow":
                b, k = self.ev(xs[0]), self.ev(xs[-1])
                return abs(k) * abs(b) ** (k - 1) * es[0] + abs(k * v) * u if b > 0 else abs(v) * u
            return 10 * sum(es)
        return 0.0

    def _hash(self, n, xs):
        key = "%s|%s|%s" % (self.seed, n, ",".join(("%.9g" % (x + 0.0)) if isinstance(x, float) else str(x) for x in xs))
        r = random.Random(key)
        if isinstance(n, str) and n.startswith("bool:"):
            return r.random() < 0.5
        return r.uniform(-3, 3)


def _samples(seed, n, overrides, styles=(0, 1)):
    for i in range(n):
        yield Valuation("%s/%d" % (seed, i), overrides, styles[i % len(styles)])


SEED = "1"
NSAMPLES = 60


def is_zero(e, overrides=None, assume=None, n=None):
    """(verdict, witness). `assume`: list of conditions that hold."""
    e = num(e)
    if not has_nan(e):
        try:
            if not nf(e):
                return PROVED, None
            if not assume and not nonzero_somewhere(e, overrides) and zero_split(e):
                return PROVED, None
        except TooBig:
            pass
    if len(solves(e)) > 1:
        return UNKNOWN, None  # different linear systems may have equal solutions
    v, w = _refute(e, lambda v: abs(v) <= 1e-7 or math.isnan(v), overrides, assume, n)
    if v == UNKNOWN and not has_nan(e):
        v, w = _refute_scaled(e, overrides, assume)
    return v, w


def _refute_scaled(e, overrides, assume):
    """The same at small and large magnitudes, for thresholds of any size."""
    if tainted(e) or any(tainted(c) for c in (assume or [])):
        return UNKNOWN, None
    bad, wit = 0, None
    for v in _samples(SEED, 24, overrides, (3,)):
        try:
            if assume and not all(v.ev(c) for c in assume):
                continue
            x = v.ev(e)
            if isinstance(x, complex) or x != x or abs(x) == math.inf or abs(x) < 1e-13 or abs(x) <= 1e4 * v.err(e):
                continue
        except (Skip, OverflowError, ZeroDivisionError):
            continue
        bad += 1
        if wit is None:
            wit = dict(v.vals)
            wit["__value__"] = x
        if bad >= 3:
            return REFUTED, wit
    return UNKNOWN, None


def nonzero_somewhere(e, overrides):
    """A clear witness against vanishing makes the case split pointless."""
    if tainted(e):
        return False
    for v in _samples("quick", 4, overrides):
        try:
            x = v.ev(e)
            if isinstance(x, complex) or x != x or abs(x) < 1e-3:
                continue
            if abs(x) > 1000 * v.err(e):
                return True
        except (Skip, OverflowError, ZeroDivisionError):
            continue
    return False


def solves(e):
    out, seen, stack = set(), set(), [e]
    while stack:
        t = stack.pop()
        if isinstance(t, E) and t.id not in seen:
            seen.add(t.id)
            if t.op == "app" and t.args[0] == "solve":
                out.add(t.args[1].id)
            stack.extend(t.args)
    return out


def zero_split(e, depth=0):
    """Gated choices: e vanishes when it vanishes under each outcome; and common
    denominators are cleared."""
    p = nf(e)
    if not p:
        return True
    if depth > 6:
        return False
    # clear denominators
    inv = {k for m in p for k, q in m if k in _INV and q > 0}
    if inv and depth <= 3:
        q = p
        for k in inv:
            top = max(dict(m).get(k, 0) for m in q)
            new = {}
            for m, c in q.items():
                d = dict(m)
                pw = d.pop(k, 0)
                t = {tuple(sorted(d.items())): c}
                for _ in range(top - pw):
                    t = p_mul(t, _INV[k])
                new = p_add(new, t)
            q = new
        if not q:
            return True
        if q != p and not any(k in _INV and pw > 0 for m in q for k, pw in m):
            p = q
            e = canon_p(q)
    for m in p:
        for k, _ in m:
            c = find_gate(ATOMS[k])
            if c is not None:
                return all(
                    zero_split(assume_cond(e, c, val), depth + 1) for val in (TRUE, FALSE)
                )
    return False


def find_gate(e):
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        if not isinstance(t, E) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "ite":
            c = t.args[0]
            while c.op in ("not", "and", "or"):
                c = c.args[0]
            return c
        stack.extend(kids(t))
    return None


def assume_cond(e, c, val):
    r = canon(subst(canon(e), {c: val}))
    if val is TRUE and c.op == "cmp" and c.args[0] == "==":
        z = vanishing(add(c.args[1], neg(c.args[2])))
        if z:
            r = canon(subst(r, {k: ZERO for k in z}))
    return r


def vanishing(e, depth=0):
    """Symbols that are zero when e (a sum of non-negative terms) is zero."""
    p = nf(e)
    out = []
    if depth > 4 or not p:
        return out
    for s in (1, -1):
        q = {m: c * s for m, c in p.items()}
        if not all(c > 0 and sign_p({m: c}) >= 1 for m, c in q.items()):
            continue
        for m in q:
            rest = [ATOMS[k] for k, n in m if n > 0 and sign_atom(k) < 2]
            if len(rest) != 1 or any(n < 0 for _, n in m):
                continue
            a = rest[0]
            if a.op == "sym":
                out.append(a)
            elif a.op == "fn" and a.args[0] in ("abs", "sqrt"):
                t = nf(a.args[1])
                if len(t) == 1:
                    b = [ATOMS[k] for k, n in next(iter(t)) if sign_atom(k) < 2]
                    if len(b) == 1 and b[0].op == "sym":
                        out.append(b[0])
            elif a.op == "fn" and a.args[0] == "max" and all(sign_p(nf(x)) >= 1 for x in a.args[1:]):
                for x in a.args[1:]:
                    out += vanishing(x, depth + 1)
        break
    return out


def _refute(e, ok, overrides, assume, n=None, styles=(0, 1, 2)):
    bad = 0
    taint = tainted(e) or any(tainted(c) for c in (assume or []))
    if taint:
        return UNKNOWN, None
    tried = 0
    wit = None
    for v in _samples(SEED, (n or NSAMPLES) * (8 if assume else 1), overrides, styles):
        try:
            if assume and not all(v.ev(c) for c in assume):
                continue
            x = v.ev(e)
        except (Skip, OverflowError, ZeroDivisionError):
            continue
        if isinstance(x, complex):
            continue
        tried += 1
        if not ok(x):
            try:  # guard against cancellation of rounding errors
                t = 100 * v.err(e)
            except (Skip, OverflowError, ZeroDivisionError):
                continue
            if ok(min(x + t, 0.0) if x < 0 else max(x - t, 0.0)):
                continue
            bad += 1
            if wit is None:
                wit = dict(v.vals)
                wit["__value__"] = x
        if bad >= 2 or tried >= (n or NSAMPLES):
            break
    if bad >= 2 or (bad and bad == tried):
        return REFUTED, wit
    return UNKNOWN, None


def nan_against(a, b, overrides=None, assume=None):
    """One of two terms is not a number where the other is finite: a witness."""
    if has_nan(a) == has_nan(b):
        return None
    if has_nan(b):
        a, b = b, a
    if tainted(a) or tainted(b) or any(tainted(c) for c in (assume or [])):
        return None
    tried = bad = 0
    wit = None
    for v in _samples(SEED, 12, overrides, (0,)):
        try:
            if assume and not all(v.ev(c) for c in assume):
                continue
            x, y = v.ev(a), v.ev(b)
        except (Skip, OverflowError, ZeroDivisionError):
            continue
        if isinstance(x, complex) or isinstance(y, complex) or y != y or abs(y) == math.inf:
            continue
        tried += 1
        if x != x:
            bad += 1
            wit = wit or dict(v.vals)
    if tried >= 3 and 2 * bad >= tried:
        wit["__value__"] = math.nan
        return wit
    return None


def is_nonneg(e, overrides=None, assume=None, n=None):
    e = num(e)
    if not has_nan(e):
        try:
            if sign_p(nf(e)) >= 1:
                return PROVED, None
            if nonneg_split(e):
                return PROVED, None
        except TooBig:
            pass
    return _refute(e, lambda v: v >= -1e-7 or math.isnan(v), overrides, assume, n or 5 * NSAMPLES, (0, 2, 1, 2))


def nonneg_split(e, depth=0):
    p = nf(e)
    if sign_p(p) >= 1:
        return True
    if depth > 5:
        return False
    # clear positive denominators
    inv = [k for k in {k for m in p for k, q in m if k in _INV and q > 0} if sign_atom(k) >= 1]
    if inv and depth <= 2:
        q = p
        for k in inv:
            top = max(dict(m).get(k, 0) for m in q)
            new = {}
            for m, c in q.items():
                d = dict(m)
                pw = d.pop(k, 0)
                t = {tuple(sorted(d.items())): c}
                for _ in range(top - pw):
                    t = p_mul(t, _INV[k])
                new = p_add(new, t)
            q = new
        if sign_p(q) >= 1:
            return True
        return nonneg_split(canon_p(q), depth + 3)
    # negative powers of non-negative atoms
    for m in p:
        for k, _ in m:
            c = find_gate(ATOMS[k])
            if c is not None:
                return all(nonneg_split(assume_cond(e, c, v), depth + 1) for v in (TRUE, FALSE))
    return False


def witness_str(w, limit=8):
    if not w:
        return ""
    items = [(k, v) for k, v in w.items() if k != "__value__"]
    s = ", ".join(
        "%s=%.4g" % (show(mk("sym", k)) if not isinstance(k, str) else k, v) for k, v in items[:limit]
    )
    return "at %s the difference is %.6g" % (s, w.get("__value__", float("nan")))
