"""Certificates of non-negativity: sums and products of factors that are
non-negative on their own. A certificate only counts when it is identically equal
to the term in question, hence a wrong certificate proves nothing."""
from . import expr as X
from .expr import num


class Node:
    def term(self):
        raise NotImplementedError

    def ok(self):
        raise NotImplementedError


class Leaf(Node):
    def __init__(self, e):
        self.e = num(e)

    def term(self):
        return self.e

    def ok(self):
        return known(self.e)


class Sum(Node):
    def __init__(self, *parts):
        self.parts = [node(p) for p in parts]

    def term(self):
        t = X.ZERO
        for p in self.parts:
            t = t + p.term()
        return t

    def ok(self):
        return all(p.ok() for p in self.parts)


class Prod(Node):
    def __init__(self, *parts):
        self.parts = [node(p) for p in parts]

    def term(self):
        t = num(1)
        for p in self.parts:
            t = t * p.term()
        return t

    def ok(self):
        return all(p.ok() for p in self.parts)


class Min(Node):
    def __init__(self, *parts):
        self.parts = [node(p) for p in parts]

    def term(self):
        return X.fn("min", *[p.term() for p in self.parts])

    def ok(self):
        return all(p.ok() for p in self.parts)


class Max(Min):
    """Maximum with at least one non-negative argument."""

    def term(self):
        return X.fn("max", *[p.term() for p in self.parts])

    def ok(self):
        return any(p.ok() for p in self.parts)


class Lemma(Node):
    """A term proved through another, identical certificate."""

    def __init__(self, e, cert):
        self.e, self.cert = num(e), node(cert)

    def term(self):
        return self.e

    def ok(self):
        return X.is_zero(self.e - self.cert.term())[0] == X.PROVED and self.cert.ok()


class Below(Node):
    """A term minus its minimum with others."""

    def __init__(self, a, *others):
        self.a, self.others = node(a), [node(o) for o in others]

    def term(self):
        return self.a.term() - X.fn("min", self.a.term(), *[o.term() for o in self.others])

    def ok(self):
        return True


def node(p):
    return p if isinstance(p, Node) else Leaf(p)


def known(e):
    if X.is_nonneg(e, n=1)[0] == X.PROVED:
        return True
    p = X.nf(e)
    # 1 + t, 1 - t with a sign t
    if len(p) == 2 and p.get(()) is not None:
        ((m, c),) = [(m, c) for m, c in p.items() if m]
        if len(m) == 1 and m[0][1] == 1 and abs(c) <= p[()]:
            a = X.ATOMS[m[0][0]]
            return a.op == "fn" and a.args[0] in ("sign", "sin", "cos")
    return False


def certified(c, key, e, certs, where, rule):
    """Obligation e >= 0 by one of the certificates, else by the general rules."""
    for cert in certs if isinstance(certs, (list, tuple)) else [certs]:
        cert = node(cert)
        try:
            same = X.is_zero(num(e) - cert.term(), n=4)[0]
            if same == X.PROVED and cert.ok():
                return c.ob(key, X.PROVED, where, rule)
        except X.TooBig:
            continue
    return c.nonneg(key, e, where, rule)
