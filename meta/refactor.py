"""Development aid: behaviour-preserving rewrites of the whole source tree, on which every check has to stay quiet.

usage: python3 meta/refactor.py OUT KIND     writes a rewritten copy of /repo to OUT
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import warnings

SKIP = ("test", "benchmark", "network_", "build", ".git")


class Commute(ast.NodeTransformer):
    """a + b -> b + a, a * b -> b * a for numbers (no strings, no lists)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        def plain(x):
            return not any(isinstance(y, (ast.JoinedStr, ast.List, ast.Tuple)) or
                           isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x))
        if isinstance(n.op, (ast.Mult,)) and plain(n.left) and plain(n.right):
            n.left, n.right = n.right, n.left
        return n


class Locals(ast.NodeTransformer):
    """return e -> result_ = e; return result_"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]


class Negate(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A; conditional expressions likewise"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Comprehensions(ast.NodeTransformer):
    """x = [f(y) for y in ys] -> x = []; for y in ys: x.append(f(y)) (simple statements in functions)"""
    inside = 0

    def visit_FunctionDef(self, n):
        self.inside += 1
        self.generic_visit(n)
        self.inside -= 1
        return n

    def loops(self, n, name):
        c = n
        out = [ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load()))]
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [c.elt], []))]
        for g in reversed(c.generators):
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return out + body

    def visit_Assign(self, n):
        if self.inside and isinstance(n.value, ast.ListComp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return self.loops(n.value, "items_") + [ast.Assign([ast.Name(n.targets[0].id, ast.Store())], ast.Name("items_", ast.Load()))]
        return n

    def visit_Return(self, n):
        if self.inside and isinstance(n.value, ast.ListComp):
            return self.loops(n.value, "items_") + [ast.Return(ast.Name("items_", ast.Load()))]
        return n


class Helpers(ast.NodeTransformer):
    """every method's body moves to a helper method of the same class"""
    def visit_ClassDef(self, n):
        out = []
        for f in n.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not (f.name.startswith("__")) and f.args.args \
                    and f.args.args[0].arg == "self" and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Raise)) for x in ast.walk(f)) \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
                h = copy.deepcopy(f)
                h.name = "_%s_%s_body" % (n.name, f.name.strip("_"))
                h.args.defaults = []
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()),
                                [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], [])
                f = copy.deepcopy(f)
                f.body = [ast.Return(call)]
                out += [f, h]
            else:
                out.append(f)
        n.body = out
        return n


class Arguments(ast.NodeTransformer):
    """every nested call argument becomes a local first (only in simple statements with one evaluation order)"""
    count = 0

    def hoist(self, n):
        v = n.value
        if isinstance(v, ast.Call) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp, ast.Starred, ast.NamedExpr, ast.DictComp, ast.SetComp))
                                               for x in ast.walk(v)):
            pre, args = [], []
            if isinstance(v.func, ast.Name) and v.func.id in ("super", "print"):
                return n
            for a in v.args:
                if isinstance(a, (ast.Call, ast.BinOp)):
                    Arguments.count += 1
                    k = "value_%d" % Arguments.count
                    pre.append(ast.Assign([ast.Name(k, ast.Store())], a))
                    a = ast.Name(k, ast.Load())
                args.append(a)
            v.args = args
            return pre + [n]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n

    visit_Assign = visit_Return = visit_Expr = lambda self, n: self.hoist(n) if n.value is not None else n


class Order(ast.NodeTransformer):
    """methods of a class in reverse order (decorated properties stay in order)"""
    def visit_ClassDef(self, n):
        plain = [f for f in n.body if isinstance(f, ast.FunctionDef)]
        if any(f.decorator_list for f in plain):
            return n
        rest = [f for f in n.body if not isinstance(f, ast.FunctionDef)]
        n.body = rest + plain[::-1]
        return n


class Rename(ast.NodeTransformer):
    """local variables (not parameters) of functions get other names"""
    def visit_FunctionDef(self, n):
        names = set()
        bad = {a.arg for x in ast.walk(n) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs + [y for y in (x.vararg, x.kwarg) if y]}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                bad |= set(x.names)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n:
                return n
        names -= bad
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + "_local"
        return n


class Temporaries(ast.NodeTransformer):
    """x = a op b -> left_ = a; x = left_ op b"""
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.BinOp) and not isinstance(v.left, (ast.Name, ast.Constant)) and isinstance(n.targets[0], ast.Name):
            k = "left_%d" % n.lineno
            first = ast.Assign([ast.Name(k, ast.Store())], v.left)
            v.left = ast.Name(k, ast.Load())
            return [first, n]
        return n


class Subtract(ast.NodeTransformer):
    """a - b -> -b + a ; a / c -> (1/c)*a not used (rounding)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(ast.UnaryOp(ast.USub(), n.right), ast.Add(), n.left)
        return n


class Compare(ast.NodeTransformer):
    """a < b -> b > a"""
    SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.SWAP:
            return ast.Compare(n.comparators[0], [self.SWAP[type(n.ops[0])]()], [n.left])
        return n


class Maxima(ast.NodeTransformer):
    """np.maximum(a, b) -> np.where(a > b, a, b) is not NaN-safe; max of two numbers -> conditional; arguments swapped"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("maximum", "minimum") and len(n.args) == 2 and not n.keywords:
            n.args = n.args[::-1]
        return n


class Guards(ast.NodeTransformer):
    """if c: A; return x  else: B  at the end of a function -> early return; for-else untouched"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and n.body[-1].orelse and isinstance(n.body[-1].body[-1], (ast.Return, ast.Raise)):
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(i.test, i.body, [])] + i.orelse
        return n


class Walrus(ast.NodeTransformer):
    """statements that do nothing and annotations in every function"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = ast.parse("unused_ = None\nif unused_ is not None:\n    unused_ = 0").body
        return n


class Properties(ast.NodeTransformer):
    """self.x read twice or more in a method that does not write self.x -> local (skips properties with calls between: only leading underscore data)"""
    def visit_FunctionDef(self, n):
        if n.name == "__init__" or n.decorator_list:
            return n
        if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.Yield)) and x is not n for x in ast.walk(n)):
            return n
        stored = {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        calls = [x for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                 and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"]
        if stored or calls or not n.args.args or n.args.args[0].arg != "self":
            return n
        count = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr.startswith("_") and not x.attr.startswith("__"):
                count[x.attr] = count.get(x.attr, 0) + 1
        # only where the first statement already reads it
        first = {x.attr for x in ast.walk(n.body[0]) if isinstance(x, ast.Attribute)}
        names = [a for a, k in count.items() if k > 1 and a in first]
        if not names or isinstance(n.body[0], (ast.If, ast.For, ast.Try, ast.With)):
            return n

        class R(ast.NodeTransformer):
            def visit_Attribute(self, y):
                self.generic_visit(y)
                if isinstance(y.value, ast.Name) and y.value.id == "self" and y.attr in names:
                    return ast.Name("own" + y.attr, ast.Load())
                return y
        n.body = [ast.Assign([ast.Name("own" + a, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a in names] + [R().visit(s) for s in n.body]
        return n


class Unpack(ast.NodeTransformer):
    """a, b = f() -> pair = f(); a = pair[0]; b = pair[1]  (values that are tuples/arrays)"""
    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) and all(isinstance(x, ast.Name) for x in t.elts):
            names = {x.id for x in t.elts}
            if not any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                return [ast.Assign([a], b) for a, b in zip(t.elts, n.value.elts)]
        return n


class Augmented(ast.NodeTransformer):
    """x = x op y (names) -> untouched; x op= y for local counters -> x = x op y when y is a constant"""
    def visit_AugAssign(self, n):
        if isinstance(n.value, ast.Constant):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class Strings(ast.NodeTransformer):
    """f"..{x}.." -> "..{}..".format(x) where there is no format spec"""
    def visit_JoinedStr(self, n):
        parts, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts += v.value.replace("{", "{{").replace("}", "}}")
            elif v.format_spec is None and v.conversion == -1:
                parts += "{}"
                args.append(v.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(parts), "format", ast.Load()), args, [])


class Enumerate(ast.NodeTransformer):
    """for x in xs: -> for index_, x in enumerate(xs):"""
    def visit_For(self, n):
        self.generic_visit(n)
        return ast.For(ast.Tuple([ast.Name("index_", ast.Store()), n.target], ast.Store()),
                       ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], []), n.body, n.orelse)


class Lists(ast.NodeTransformer):
    """for x in xs: -> for x in list(xs): (comprehensions too)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute)):
            n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return n


class Keywords(ast.NodeTransformer):
    """keyword arguments in reverse order (all of them evaluated without effects)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords) and not any(isinstance(x, (ast.Call, ast.NamedExpr)) for k in n.keywords for x in ast.walk(k.value)):
            n.keywords = n.keywords[::-1]
        return n


KINDS = {k.__name__.lower(): k for k in (Commute, Locals, Negate, Comprehensions, Helpers, Arguments, Order, Rename, Temporaries, Subtract, Compare,
                                         Maxima, Guards, Walrus, Properties, Unpack, Augmented, Strings, Enumerate, Lists, Keywords)}


def main(out, kinds):
    warnings.simplefilter("ignore")
    if os.path.exists(out):
        shutil.rmtree(out)
    subprocess.check_call(["cp", "-a", "/repo", out])
    n = 0
    for f in subprocess.check_output(["git", "-C", out, "ls-files"], text=True).split():
        if not f.endswith(".py") or f.startswith(SKIP):
            continue
        p = os.path.join(out, f)
        src = open(p).read()
        old = ast.dump(ast.parse(src))
        for kind in kinds:
            tree = ast.fix_missing_locations(KINDS[kind]().visit(ast.parse(src)))
            new = ast.unparse(tree) + "\n"
            src = new
        if ast.dump(ast.parse(src)) != old:
            open(p, "w").write(src)
            n += 1
    print(out, kinds, n, "files")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:] or list(KINDS))
