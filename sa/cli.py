"""The command line program under abstract interpretation.

`Cli(model).command(argv)` interprets the program's own main function with an
argument vector whose entries may be symbols, up to the point where the command
would be executed, and returns the command object."""
from . import expr as X
from .expr import E, num, sym
from .heap import Reach, reach, same
from .scen import Sc
from .values import *

STUBS = ("argparse", "matplotlib", "_opaque")


class Rejected(Exception):
    """The command line is refused (SystemExit) or fails (other exception)."""

    def __init__(self, name, message=""):
        Exception.__init__(self, name)
        self.name, self.message = name, message


class Cli(Sc):
    def __init__(self, model, budget=8_000_000, stubs=STUBS, execute=False):
        Sc.__init__(self, model, budget, stubs)
        self.caught = []
        self.calls = []
        self.I.record = self.calls
        self.I.echo = []
        self.run("import argparse\nimport command\nimport core\nimport __cls1__ as program")
        if not execute:
            self.capture()

    def capture(self):
        def execute(I, a, k):
            self.caught.append(a[0])
            return None

        base = self.run("command.Command")
        for c in [base] + self.subclasses(base):
            if "execute" in c.ns:
                c.ns["execute"] = NFunc("execute", execute)

    def freeze(self):
        """Later commands start from here; the parsers the program builds are
        built once (their construction does not see the command line)."""
        I = self.I
        try:
            prog = self.run("program")
            cls = I.getattr(prog, "CustomArgumentParser")
            if isinstance(cls, Cls):
                built = []

                def build(I, a, k):
                    if built and not k and built[0][0] == list(a):
                        return built[0][1]
                    v = I.call(cls, list(a), k)
                    if not k and not built:
                        built.append((list(a), v))
                    return v

                I.setattr(prog, "CustomArgumentParser", NFunc("CustomArgumentParser", build))
                self.command(["test"])
        except (Rejected, PyRaise):
            self.reset()
        self.I.writes.clear()
        self.base = self.I.st.copy()

    def fresh(self):
        self.I.st = self.base.copy()

    def build(self, argv):
        """Command of an argument vector, from the state at the last freeze."""
        self.fresh()
        self.I.writes.clear()
        return self.command(argv)

    def effect(self, cmd):
        """Everything the command can see, and what building it did outside."""
        r = Reach(self)
        r.walk(cmd)
        for n, a, k in self.calls:
            r.out("call " + str(n))
            for x in a:
                r.walk(x, 1)
            for q in sorted(k):
                r.out(q)
                r.walk(k[q], 1)
        for o, n, v in self.I.writes:
            if o == "argparse":
                continue
            r.out("set %s.%s" % (o, n))
            r.walk(v, 1)
        for x in self.I.echo:
            r.walk(x, 1)
        return r

    def command(self, argv):
        """Command object built for a command line."""
        I = self.I
        self.reset()
        self.caught.clear()
        self.calls.clear()
        I.events.clear()
        I.echo.clear()
        try:
            self.run("argparse._ARGV = argv\nprogram.main()", argv=I.list(list(argv)))
        except PyRaise as e:
            self.reset()
            raise Rejected(I.exc_name(e.exc), self.message(e.exc))
        if not self.caught:
            raise Rejected("nothing executed")
        return self.caught[-1]

    def message(self, exc):
        I = self.I
        if not (isinstance(exc, Ref) and exc.id in I.st.heap):
            return ""
        a = I.rec(exc).attrs.get("args", ())
        out = []
        for x in a if isinstance(a, tuple) else ():
            out.append(x if isinstance(x, str) else repr(x))
        return " ".join(out)

    def instances(self, root, cls):
        """Objects of a class within the reachable graph, in order."""
        r = reach(self, root)
        out = []
        for v in r.seen:
            if isinstance(v, Ref) and v.kind == "obj" and self.I.rec(v).cls.is_sub(cls):
                out.append(v)
        return out, r

    def solvers(self, cmd):
        return self.instances(cmd, self.run("core.Solver"))[0]

    def parsers(self):
        """{command path: ArgumentParser} of the whole program."""
        out = {}
        root = self.run("""
            _root = argparse.ArgumentParser(prog="cls1")
            _sub = _root.add_subparsers(dest="command")
            for _p in command.PARSER_COMMANDS.values():
                _p.add_parser(_sub)
            _root
            """)

        def go(p, path):
            out[path] = p
            sub = self.I.getattr(p, "_subparsers")
            if sub is None:
                return
            m = self.I.rec(self.I.getattr(sub, "name_parser_map")).items
            for k, v in m.items():
                go(v, path + (k,))

        go(root, ())
        return out

    def actions(self, parser):
        out = []
        for a in self.items(self.I.getattr(parser, "_actions")):
            r = self.I.rec(a)
            d = dict(r.attrs)
            d["class"] = r.cls.name
            d["options"] = [x for x in self.items(d["option_strings"])]
            d["ref"] = a
            out.append(d)
        return out
