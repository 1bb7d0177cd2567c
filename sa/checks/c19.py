"""Commands that inspect data, networks and help pages show what they are asked for."""
from .. import expr as X
from .. import npmodel as NP
from ..expr import num, sym
from ..report import PROVED, REFUTED
from ..values import *
from . import c17
from ..cli import Cli
from .c17 import count, matrix, stage
from .outputs import text

ID = "C19"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation of analyze-data, analyze-curvature, delete-curvature, print-network, help and test with tables that are arrays of symbols, "
    "on interpreted models of pandas, matplotlib, skorch and torch that record what is read, drawn, printed and saved. Everything drawn is compared as "
    "normal forms with the columns it has to show and with the curvature of the averages in the same row.")
ASSUMPTIONS = ["pandas, matplotlib, skorch and torch behave as modelled in sa/stubs (subset of the documented behaviour)"]

TABLES = """
import core
import numpy as np
import pandas
import _opaque
import matplotlib.pyplot as plt
import command.analyze_curvature as ac
import command.analyze_data as ad
cols = pandas.MultiIndex.from_product([["U0", "U1", "U2", "U3", "G_1.5"], ["h", "q"]])
def table(values, path):
    pandas.DataFrame(values, columns=cols, index=[10 * k for k in range(len(values))]).to_csv(path)
"""
CURVE = """
def curve(u0, u1, u2):
    return abs(u0 - 2 * u1 + u2) * 2.0 / (4.0 + 0.25 * (u0 - u2) ** 2) ** (3 / 2)
def both(d, j):
    return (curve(d[:, j], d[:, 2 + j], d[:, 4 + j]) + curve(d[:, 2 + j], d[:, 4 + j], d[:, 6 + j])) / 2
"""


def column(S, v):
    """Entries of a series or array."""
    a = S.A(S.run("np.array(list(_v))", _v=v))
    return [NP.simp(S.I.E(a.fn((i,)))) for i in range(a.shape[0])]


def same(a, b):
    """Whether two terms are equal; None: unknown."""
    v = X.is_zero(num(a) - num(b))[0]
    return True if v == PROVED else False if v == REFUTED else None


def every(xs):
    xs = list(xs)
    return False if False in xs else None if None in xs else True


def match(S, got, wanted):
    """Which of the columns this is; None: none of them, (): unknown."""
    found = None
    for k, w in wanted.items():
        ok = every(same(a, b) for a, b in zip(got, w)) if len(got) == len(w) else False
        if ok:
            return k
        if ok is None:
            found = ()
    return found


def curvature_plots(c):
    """Curvature against subgrid fluxes."""
    where = "command/analyze_curvature.py:PlotCurvatureAgainstSubgridFlux"
    for save, show in ((True, True), (False, True), (True, False), (False, False)):
        name = "%s-%s" % ("saved" if save else "unsaved", "shown" if show else "hidden")
        S = stage(c, ("pandas", "_opaque", "matplotlib"))
        with c.part(name, S, where, raises=True):
            S.run(TABLES)
            S.run(CURVE)
            data = {"llf": matrix(S, "l", 2, 10), "es1": matrix(S, "e", 3, 10)}
            for k in data:
                S.run("table(D_, 'data/reduced-%s/data.csv')" % k, D_=data[k])
            want = {}
            for k in data:
                for j, q in enumerate("hq"):
                    want["k", k, q] = column(S, S.run("both(D_, %d)" % j, D_=data[k]))
                    want["G", k, q] = column(S, S.run("D_[:, %d]" % (8 + j), D_=data[k]))
            S.run("_opaque.LOG.clear()\nac.PlotCurvatureAgainstSubgridFlux(show=%s, save=%s).execute()" % (show, save))
            figures = S.items(S.run("[f for f in plt._FIGURES if any([len(a.points) > 0 for a in f.axes])]"))
            c.fact(name + "/figures", len(figures) == 4, where, "one figure for every pair of a curvature and a subgrid flux", str(len(figures)))
            pairs, labels = [], {}
            for n, f in enumerate(figures):
                S.bind(_f=f)
                axes = S.items(S.run("[a for a in _f.axes]"))
                key = "%s/%d" % (name, n)
                c.fact(key + "/axes", len(axes) == 2, where, "both models are shown in one figure", str(len(axes)))
                shown = []
                for a in axes:
                    S.bind(_a=a)
                    points = S.items(S.run("_a.points"))
                    c.fact(key + "/once", len(points) == 1, where, "data are drawn once", str(len(points)))
                    x, y = [match(S, column(S, S.items(p)[i]), want) for p in points[:1] for i in (0, 1)] or (None, None)
                    title = text(S.run("_a.texts.get('title')"))
                    lx, ly = text(S.run("_a.texts.get('xlabel')")), text(S.run("_a.texts.get('ylabel')"))
                    if () in (x, y):
                        c.unknown(key + "/data", where, "curvatures are drawn against the subgrid fluxes of the same model")
                        continue
                    good = x is not None and y is not None and x[0] == "k" and y[0] == "G" and x[1] == y[1]
                    c.fact(key + "/data", good, where, "curvatures are drawn against the subgrid fluxes of the same model", "%s against %s" % (y, x))
                    if not good:
                        continue
                    shown.append((x, y))
                    if title is not None:
                        c.fact(key + "/title", x[1].upper() == title.upper().strip(), where, "the axes are named after the model they show", "%s: %s" % (title, x[1]))
                    for axis, l in (("x", lx), ("y", ly)):
                        c.fact("%s/%s/%slabel" % (key, x[1], axis), S.run("_a.texts.get('%slabel') is not None" % axis), where, "the quantities shown are named")
                    for axis, l in ((x, lx), (y, ly)):
                        if l is not None:
                            labels.setdefault((axis[0], axis[2]), set()).add(l)
                    for q, col in (("x", 2 * "k"), ("y", 2 * "G")):
                        lim = S.run("_a.limits.get('%s')" % q)
                        if lim is None:
                            shared = S.run("_f.options.get('share%s', False) is not False" % q)
                            c.fact("%s/%s/%s-range" % (key, x[1], q), True if shared is True else False if shared is False else None, where, "both axes show the common range of the values", "no limits")
                            continue
                        lo, hi = S.items(lim)
                        which = (x, y)[q == "y"]
                        values = [v for k in data for v in want[which[0], k, which[2]]]
                        c.equal("%s/%s/%s-low" % (key, x[1], q), S.I.E(lo), X.fn('min', *values), where, "both axes show the common range of the values")
                        c.equal("%s/%s/%s-high" % (key, x[1], q), S.I.E(hi), X.fn('max', *values), where, "both axes show the common range of the values")
                if len(shown) == 2:
                    (a, b), (d, e) = shown
                    c.fact(key + "/models", {a[1], d[1]} == set(data), where, "both models are shown", str(shown))
                    c.fact(key + "/same", a[2] == d[2] and b[2] == e[2], where, "both models are shown with the same quantities", str(shown))
                    pairs.append((a[2], b[2]))
            if len(pairs) == 4:
                c.fact(name + "/pairs", len(set(pairs)) == 4, where, "every pair of a curvature and a subgrid flux is shown", str(pairs))
            for k, ls in labels.items():
                other = labels.get((k[0], "q" if k[1] == "h" else "h"), set())
                c.fact("%s/label-%s-%s" % ((name,) + k), len(ls) == 1 and not ls & other and k[1] in next(iter(ls)), where, "a quantity has its own label wherever it is shown", str(ls))
            files = [(f, text(p)) for f, p in [(S.items(e)[1], S.items(S.items(e)[2])[0]) for e in S.items(S.run("[e for e in _opaque.LOG if e[0] == 'savefig']"))]]
            c.fact(name + "/files", len(files) == (4 if save else 0) and len({p for _, p in files}) == len(files), where, "figures are saved if asked for, each under its own name", str([p for _, p in files]))
            if len(pairs) == 4 and len(figures) == 4:
                for n, f in enumerate(figures):
                    p = [p for g, p in files if g == f]
                    if save and len(p) == 1 and p[0] is not None:
                        stem = p[0].rsplit("/", 1)[-1]
                        k = "".join(ch for ch in stem.split(".")[0] if ch in "hq")
                        c.fact("%s/%d/file" % (name, n), k == "".join(pairs[n]), where, "files are named after what they show", "%s: %s" % (stem, pairs[n]))
            shows = count(S, "len([e for e in _opaque.LOG if e[0] == 'show'])")
            c.fact(name + "/show", (shows > 0) == show if shows is not None else None, where, "figures are shown unless they are hidden", str(shows))
        c.absorb(S)


def summaries(c):
    """Summary statistics and histograms."""
    where = "command/analyze_data.py:AnalyzeData"
    for n in (1, 2, 3):
        for histogram in (False, True):
            name = "%d-%s" % (n, "histogram" if histogram else "summary")
            S = stage(c, ("pandas", "_opaque", "matplotlib"))
            with c.part(name, S, where, raises=True):
                S.run(TABLES)
                paths = ["first/data.csv", "second/data.csv", "third.csv"][:n]
                data = {p: matrix(S, p, 2 + k, 10) for k, p in enumerate(paths)}
                for p in paths:
                    S.run("table(D_, '%s')" % p, D_=data[p])
                S.I.echo.clear()
                S.run("_opaque.LOG.clear()\nad.AnalyzeData(%r, histogram=%s).execute()" % (paths, histogram))
                for kind, times, rule in (("describe", n, "every file given is described once, in the order given"), ("hist", n if histogram else 0, "histograms are drawn for every file if asked for")):
                    frames = S.items(S.run("[e[1] for e in _opaque.LOG if e[0] == '%s']" % kind))
                    c.fact("%s/%s" % (name, kind), len(frames) == times, where, rule, "%d instead of %d" % (len(frames), times))
                    for p, f in zip(paths, frames):
                        got, want = S.A(S.run("_f.values", _f=f)), S.A(data[p])
                        ok = NP.shp(got.shape) == NP.shp(want.shape) and every(same(S.I.E(got.fn((i, j))), S.I.E(want.fn((i, j)))) for i in range(want.shape[0]) for j in range(want.shape[1]))
                        c.fact("%s/%s-%s" % (name, kind, p), ok, where, rule)
                descriptions = S.items(S.run("[e[2][0] for e in _opaque.LOG if e[0] == 'describe']"))
                said = [x for line in S.I.echo for x in line]
                at = [next((i for i, x in enumerate(said) if x == d), None) for d in descriptions]
                c.fact(name + "/printed", None not in at and at == sorted(at), where, "the description of every file is printed")
                begin = 0
                for p, i in zip(paths, at):
                    if i is not None:
                        before = [text(x) for x in said[begin:i] if text(x) is not None]
                        c.fact("%s/named-%s" % (name, p), any(p.upper() in b.upper() for b in before), where, "descriptions follow the names of their files", str(before))
                        begin = i
                log = [text(x) for x in S.items(S.run("[e[0] for e in _opaque.LOG if e[0] in ('hist', 'show')]"))]
                c.fact(name + "/shown", ("show" in log) == histogram and log[-1:] == (["show"] if histogram else []), where, "histograms are shown", str(log))
            c.absorb(S)


def networks(c):
    """Parameters of saved networks."""
    where = "command/print_network.py:PrintNetwork"
    S = Cli(c.model, 24_000_000, ("argparse", "pandas", "_opaque", "matplotlib", "skorch", "torch", "sklearn"), execute=True)
    S.I.eager = True
    S.I.ext_models["os.makedirs"] = lambda I, a, k: None
    S, stored, files = c17.networks(c, S)
    S.run("import command.print_network as pn")
    S.bind(X1=matrix(S, "x", 3, 8), Y1=matrix(S, "y", 3, 2))
    names = c17.names_of(S)
    with c.part("networks", S, where, raises=True):
        for k in names:
            S.run("net = sol.NETWORK_TYPES['%s'](warm_start=True)\nnet.fit(X1, Y1, epochs=2)\nnet.save_params()" % k)
        saved = {}
        for k in names:
            saved[k] = S.I.E(S.run("skorch.FILES[sol.NETWORK_TYPES['%s'].network_path][1]" % k))
        S.run("for k in sol.NETWORK_TYPES:\n    sol.NETWORK_TYPES[k]().fit(X1, Y1)")
        for k, how in [(k, how) for k in names for how in ("command", "line")]:
            S.I.echo.clear()
            if how == "command":
                S.run("pn.PrintNetwork(sol.NETWORK_TYPES['%s']()).execute()" % k)
            else:
                start(S, ["print-network", k])
            said = [x for line in S.I.echo for x in line if isinstance(x, Ref) and x.kind == "list"]
            c.fact("%s/%s/printed" % (k, how), len(said) > 0, where, "the parameters are printed")
            for x in said[-1:]:
                got = S.items(x)
                c.fact("%s/%s/number" % (k, how), len(got) == 1, where, "all parameters are printed", str(len(got)))
                for g in got[:1]:
                    c.equal("%s/%s/parameters" % (k, how), S.I.E(g), saved[k], where, "the parameters printed are those saved for this network")
    c.absorb(S)


def small(c):
    """Help pages and tests."""
    S = stage(c, ("_opaque",))
    where = "command/help.py:Help"
    with c.part("help", S, where, raises=True):
        S.run("""
import command.help as h
import command.test as t
PRINTED = []
class Page:
    def __init__(self, name): self.name = name
    def print_help(self, *args): PRINTED.append(self.name)
h.Help(Page('first')).execute()
other = h.Help(Page('second'))
h.Help(Page('third')).execute()
""")
        got = [text(x) for x in S.items(S.run("PRINTED"))]
        c.fact("help/page", got == ["first", "third"], where, "the page asked for is printed, when executed", str(got))
    where = "command/test.py:Test"
    for files in (None, [], ["mesh"], ["mesh", "norm"]):
        with c.part("test %s" % files, S, where, raises=True):
            calls = []
            for f in ("call", "run", "check_call", "Popen", "check_output"):
                S.I.ext_models["subprocess." + f] = lambda I, a, k: calls.append([text(x) for x in S.items(a[0])]) or num(0)
            S.run("t.Test(%s).execute()" % ("" if files is None else "file=%r" % files))
            c.fact("test %s/run" % files, len(calls) == 1 and calls[0][1:] == (files or []), where, "exactly the tests given are run", str(calls))
    c.absorb(S)


def program(c):
    S = Cli(c.model, 24_000_000, ("argparse", "pandas", "_opaque", "matplotlib"), execute=True)
    S.I.eager = True
    S.I.ext_models["os.makedirs"] = lambda I, a, k: None
    return S


def start(S, argv):
    S.reset()
    S.I.events.clear()
    S.I.echo.clear()
    S.run("argparse._ARGV = %r\nprogram.main()" % (argv,))


def lines(c):
    """What the options of these commands do."""
    where = "command/analyze_curvature.py:AnalyzeCurvatureParser"
    S = program(c)
    S.run(TABLES)
    for k in ("llf", "es1"):
        S.run("table(D_, 'data/reduced-%s/data.csv')" % k, D_=matrix(S, k, 2, 10))
    number = lambda kind: count(S, "len([e for e in _opaque.LOG if e[0] == '%s'])" % kind)
    for argv in ([], ["--hide"], ["--save"], ["--save", "--hide"]):
        name = " ".join(["analyze-curvature"] + argv)
        with c.part(name, S, where, raises=True):
            S.run("_opaque.LOG.clear()")
            start(S, ["analyze-curvature"] + argv)
            n = number("savefig")
            c.fact(name + "/files", None if n is None else n == (4 if "--save" in argv else 0), where, "plots are saved exactly if asked for", str(n))
            n = number("show")
            c.fact(name + "/shown", None if n is None else (n > 0) == ("--hide" not in argv), where, "plots are shown unless hidden", str(n))
    where = "command/analyze_data.py:AnalazyDataParser"
    for p in ("a.csv", "b.csv"):
        S.run("table(D_, '%s')" % p, D_=matrix(S, p, 2, 10))
    for argv in (["a.csv"], ["a.csv", "b.csv"], ["b.csv", "--histogram"], ["--histogram", "a.csv", "b.csv"]):
        name = " ".join(["analyze-data"] + argv)
        with c.part(name, S, where, raises=True):
            S.run("_opaque.LOG.clear()")
            start(S, ["analyze-data"] + argv)
            read = [text(x) for x in S.items(S.run("[e[2][0] for e in _opaque.LOG if e[0] == 'read_csv']"))]
            c.fact(name + "/read", None if None in read else read == [x for x in argv if x[0] != "-"], where, "the files given are described", str(read))
            n, h, w = number("describe"), number("hist"), number("show")
            c.fact(name + "/described", None if n is None else n == len(read), where, "the files given are described", str(n))
            c.fact(name + "/histograms", None if h is None else h == (len(read) if "--histogram" in argv else 0), where, "histograms are drawn if asked for", str(h))
            c.fact(name + "/shown", None if w is None else (w > 0) == ("--histogram" in argv), where, "histograms are shown", str(w))
    where = "command/delete_curvature.py:DeleteCurvatureParser"
    S.run("""
def formula(d, step, kh, kq):
    def curve(u0, u1, u2):
        return abs(u0 - 2 * u1 + u2) * step / (step**2 + 0.25 * (u0 - u2) ** 2) ** (3 / 2)
    both = [(curve(d[:, j], d[:, 2 + j], d[:, 4 + j]) + curve(d[:, 2 + j], d[:, 4 + j], d[:, 6 + j])) / 2 for j in range(2)]
    return (both[0] < kh) & (both[1] < kq)
""")
    D = matrix(S, "d", 3, 10)
    S.run("table(D_, 'source.csv')", D_=D)
    for argv, step, kh, kq in (([], 2.0, 0.25, 0.5), (["-s", "3.0"], 3.0, 0.25, 0.5), (["--kh", "0.375"], 2.0, 0.375, 0.5), (["--kq", "0.125"], 2.0, 0.25, 0.125),
                               (["--step-length", "4.0", "--kq", "0.75", "--kh", "0.625"], 4.0, 0.625, 0.75)):
        name = " ".join(["delete-curvature"] + argv)
        with c.part(name, S, where, raises=True):
            S.run("_opaque.LOG.clear()")
            start(S, ["delete-curvature", "source.csv", "target.csv"] + argv)
            log = S.items(S.run("[(e[1], e[2]) for e in _opaque.LOG if e[0] == 'to_csv']"))
            c.fact(name + "/written", len(log) == 1 and text(log[0][1][0]) == "target.csv", where, "the result is stored where asked for", str(len(log)))
            if len(log) == 1 and S.run("isinstance(_x, pandas.Selection)", _x=log[0][0]) is True:
                a = S.A(S.run("_x.mask"))
                b = S.A(S.run("formula(D_, %r, %r, %r)" % (step, kh, kq), D_=D))
                for i in range(3):
                    c.equal("%s/row%d" % (name, i), X.ite(a.fn((i,)), num(1), num(0)), X.ite(b.fn((i,)), num(1), num(0)), where, "step length and thresholds are those given")
    where = "command/test.py:TestParser"
    for argv in ([], ["mesh"], ["mesh", "norm"]):
        name = " ".join(["test"] + argv)
        with c.part(name, S, where, raises=True):
            calls = []
            for f in ("call", "run", "check_call", "Popen", "check_output"):
                S.I.ext_models["subprocess." + f] = lambda I, a, k: calls.append([text(x) for x in S.items(a[0])]) or num(0)
            start(S, ["test"] + argv)
            c.fact(name + "/run", len(calls) == 1 and calls[0][1:] == argv, where, "exactly the tests given are run", str(calls))
    where = "command/help.py:HelpParser"
    with c.part("help", S, where, raises=True):
        pages = {}
        S.run("""
PRINTED = []
def printed(self, file=None):
    PRINTED.append(self)
argparse.ArgumentParser.print_help = printed
""")
        for reg in ("SCALAR_SOLVER_PARSER", "SHALLOW_WATER_SOLVER_PARSER"):
            for k in S.items(S.run("from command.calculate import %s as _r\nlist(_r)" % reg)):
                pages.setdefault(text(k), []).append(S.run("_r[_k]", _k=k))
        for k in sorted(pages):
            try:
                start(S, ["help", k])
            except PyRaise as e:
                S.reset()
                c.fact("help %s/page" % k, False, where, "the page asked for is printed", S.message(e.exc))
                continue
            got = S.items(S.run("PRINTED"))
            S.run("PRINTED.clear()")
            c.fact("help %s/page" % k, len(got) == 1 and any(g == p for g in got for p in pages[k]), where, "the page asked for is printed", "%d pages" % len(got))
    c.absorb(S)


def scenarios(tier):
    return [("curvature plots", curvature_plots), ("deletion", c17.curvature), ("summaries", summaries), ("networks", networks), ("help and tests", small), ("command lines", lines)]
