"""Options of the command line reach the calculation."""
import re
from .. import expr as X
from ..cli import Cli, Rejected, reach, same
from ..expr import E, num, sym
from ..values import *

ID = "C16"
LEVEL = "other"
LIMIT = 240
EXPLANATION = (
    "Abstract interpretation of the program's main function (with an interpreted model of argparse) on command lines whose values are "
    "symbols. The commands, options, solvers and benchmarks are enumerated from the parsers the program builds. For every option the "
    "value given is traced by value-flow reachability through the abstract heap of the command that would be executed; flags and "
    "enumerated values must change that heap, defaults given explicitly must not; mesh, name, step, end time, time integrator and "
    "initial data of the solvers built are compared as terms with what was asked for.")
ASSUMPTIONS = ["the command is examined at the point where it would be executed; what the options do inside an executed command is covered by C14, C25",
               "argparse behaves as modelled in sa/stubs/argparse.py (subset of the documented behaviour)"]

SMALL = num(1) / 1000 + sym("s", "pos")
PROBLEMS = ("advection", "burgers", "swe")
GROUPS = {"advection": 4, "burgers": 4, "swe": 6}
DRIVERS = {"euler": (1, 1, 0, 0), "heun": (1, 1, num(1) / 2, 0), "ssp3": (1, 1, num(1) / 2, num(1) / 6)}
NETWORK_PARAMETER = "lr"
IGNORED = {"-h", "--help"}


def start(c):
    S = Cli(c.model)
    S.freeze()
    return S


def mesh_symbol(dest="mesh"):
    return 8 * symbol(dest)


def symbol(dest, k=""):
    return sym("opt_%s%s" % (dest, k), "len")


def solver_action(S, path):
    p = S.parsers().get(path)
    for a in S.actions(p) if p is not None else []:
        if "-s" in a["options"] and "--solver" in a["options"]:
            return a
    return None


def solver_keys(S, path):
    a = solver_action(S, path)
    if a is None:
        return [], None
    return S.items(S.run("list(_a.solver_parsers)", _a=a["ref"])), a


def tokens(a):
    """Candidate argument tokens of an option, most informative first."""
    d = a["dest"]
    if a.get("choices") is not None:
        try:
            return [x for x in a["choices"]]
        except TypeError:
            return []
    if a.get("type") is None:
        return ["tok_" + d]
    return [symbol(d), "tok_" + d, "3"]


def shows(r, tok):
    if not isinstance(tok, (E, str)) or isinstance(tok, str) and not tok.startswith("tok_"):
        return None
    if isinstance(tok, E):
        return ("opt_" in tok.args[0][0] if isinstance(tok.args[0], tuple) else True) and name(tok) in r.names
    return any(tok in s for s in r.strings)


def name(e):
    n = e.args[0]
    return n[0] if isinstance(n, tuple) else n


def valued(a):
    return a["class"] in ("_StoreAction", "_AppendAction", "_ExtendAction")


def count(a):
    n = a.get("nargs")
    return n if isinstance(n, int) else 1


def flag(a):
    return a["class"] in ("_StoreTrueAction", "_StoreFalseAction", "_StoreConstAction", "BooleanOptionalAction")


def attempt(S, argv):
    """(command, effects) or (None, rejection)."""
    try:
        c = S.build(argv)
    except Rejected as e:
        return None, e
    return c, S.effect(c)


def line(argv):
    return " ".join(x if isinstance(x, str) else "<%s>" % (name(x) if isinstance(x, E) and x.op == "sym" else X.show(x) if isinstance(x, E) else x) for x in argv)


def refused(e):
    return "%s %s" % (e.name, e.message)


# ---------------------------------------------------------------- one option
def check_option(c, S, key, base, argv_base, a, put, where, needed=True):
    """A valued option's value is visible, a flag changes something; `put`
    builds the argument vector from the option's own tokens."""
    o = a["options"][0] if a["options"] else None
    r0 = base
    if valued(a):
        done = False
        last = None
        for tok in tokens(a):
            args = [tok] if count(a) == 1 else [NETWORK_PARAMETER] + [symbol(a["dest"], i) for i in range(1, count(a))]
            cmd, r = attempt(S, put(([o] if o else []) + args))
            if cmd is None:
                last = r
                continue
            done = True
            for t in args:
                if t == NETWORK_PARAMETER:
                    continue
                ok = shows(r, t)
                if ok is None and same(r0, r) is False:
                    ok = True
                if ok is False and r.unknown and not same_known(r0, r):
                    ok = None
                c.fact("%s/reaches" % key, ok, where, "the value given with an option reaches the command", "%s of '%s' is not part of what is executed" % (
                    t if isinstance(t, str) else name(t), line(put(([o] if o else []) + args))))
            for alias in a["options"][1:]:
                cmd2, r2 = attempt(S, put([alias] + args))
                if cmd2 is None:
                    c.fact("%s/alias" % key, False, where, "all spellings of an option are accepted", "%s: %s" % (alias, refused(r2)))
                else:
                    c.fact("%s/alias" % key, same(r, r2), where, "all spellings of an option mean the same", "%s and %s differ" % (o, alias))
            if a.get("choices") is None:
                break
        if not done and needed:
            c.unknown("%s/accepted" % key, where, "a value is accepted", "no value found: %s" % (refused(last) if last else ""))
        if o and a.get("nargs") == "?":
            cmd, r = attempt(S, argv_base + [o])
            if cmd is None:
                c.fact("%s/constant" % key, False, where, "the value of the option is optional", "%s: %s" % (o, refused(r)))
        d = a.get("default")
        if o and isinstance(d, (int, E, str)) and not isinstance(d, bool) and d != "==SUPPRESS==":
            if not (isinstance(d, E) and X.const(d) is None):
                cmd, r = attempt(S, put([o, d if isinstance(d, (E, str)) else str(d)]))
                if cmd is None:
                    if not (d == 0 and a.get("nargs") == "?"):
                        c.fact("%s/default" % key, False, where, "the default value is accepted", "%s %s: %s" % (o, d, refused(r)))
                else:
                    c.fact("%s/default" % key, same(r0, r), where, "giving the default value changes nothing", "'%s' differs from '%s'" % (line(put([o, d])), line(argv_base)))
    elif flag(a):
        cmd, r = attempt(S, put([o]))
        if cmd is None:
            c.fact("%s/accepted" % key, False, where, "the option is accepted", "%s: %s" % (o, refused(r)))
        else:
            s = same(r0, r)
            if s is None and (r.classes != r0.classes or outside(r) != outside(r0)):
                s = False
            c.fact("%s/effect" % key, None if s is None else not s, where, "an option has an effect", "'%s' executes the same as '%s'" % (line(put([o])), line(argv_base)))
            for alias in a["options"][1:]:
                cmd2, r2 = attempt(S, put([alias]))
                c.fact("%s/alias" % key, False if cmd2 is None else same(r, r2), where, "all spellings of an option mean the same", "%s and %s differ" % (o, alias))


def outside(r):
    return sorted(x for x in r.print_ if isinstance(x, str) and x.startswith("call "))


def same_known(a, b):
    return same(a, b) is True


# ---------------------------------------------------------------- solvers
def length(S, s):
    return S.run("len(_s.solution.space.mesh)", _s=s)


def stepping(S, s):
    return S.instances(s, S.run("core.time_stepping.TimeStepping"))[0]


def growth(S, s):
    """Growth factor of the time integrator used by a solver on u' = z u, as coefficients."""
    z = sym("z", "real")
    cls = S.run("type(_s._ode_solver)", _s=s)
    u = S.run("""
        import numpy
        _m = _c(lambda t, u: z * u, numpy.array([1.0]))
        _m.execute(1.0)
        _m.solution
        """, _c=cls, z=z)
    v = S.at(u, 0)
    out = []
    for k in range(4):
        out.append(X.canon(v.subst({z: X.ZERO}) if hasattr(v, "subst") else X.subst(v, {z: X.ZERO})))
        v = X.canon((v - out[-1]) / z)
    return out, v


def solver_part(problem, group):
    def run(c):
        S = start(c)
        path = ("calculate", problem)
        with c.part("parsers", S, "command/calculate.py"):
            keys, act = solver_keys(S, path)
            S.freeze()
            for k in keys[group::GROUPS[problem]]:
                with c.part(k, S, "core/solver.py"):
                    one_solver(c, S, problem, k, act)
        c.absorb(S)
    return run


def one_solver(c, S, problem, k, act):
    N, T = mesh_symbol(), sym("opt_T", "pos")
    where = "core/solver.py"
    argv = ["calculate", problem, "-T", T, "-s", k, "+m", N]

    def put(extra):
        return argv + extra

    cmd, r0 = attempt(S, argv)
    if cmd is None:
        c.fact(k + "/built", False, where, "every solver can be selected", "'%s' fails: %s" % (line(argv), refused(r0)))
        return
    sol = S.solvers(cmd)
    c.fact(k + "/one", len(sol) == 1, where, "one solver is built per key", "%d solvers for '%s'" % (len(sol), line(argv)))
    if len(sol) != 1:
        return
    s = sol[0]
    parser = S.run("_a.solver_parsers[_k]", _a=act["ref"], _k=k)
    c.fact(k + "/class", S.run("type(_s) is _p.solver", _s=s, _p=parser) is True, where, "the solver selected is the one built", "")
    size = length(S, s)
    deg = [a["default"] for a in S.actions(parser) if a["dest"] == "coarsening_degree"]
    want = N
    if deg and isinstance(deg[0], int) and X.canon(S.I.E(size) - N) is not X.ZERO:
        want = S.run("_n // _d", _n=N, _d=deg[0])      # a solver that averages over cells of the mesh asked for
    c.equal(k + "/mesh", size, want, where, "the mesh has the number of cells asked for")
    c.fact(k + "/name", S.run("_s.name == _p.name and _s.short == _p.prog", _s=s, _p=parser) is True, where, "the solver carries the parser's name and key by default", "")
    S.run("_dx = _s.solution.space.mesh.step_length", _s=s)
    dx = S.get("_dx")
    ts = stepping(S, s)
    for i, t in enumerate(ts):
        with c.part("%s/end-value" % k, S, where):
            c.equal("%s/end-value" % k, S.run("_t._end_time", _t=t), T, where, "the end time given is the one used")
        c.fact("%s/end-time" % k, "opt_T" in reach(S, t).names, where, "the end time given reaches the time stepping", "-T is not part of the time stepping")
    fixed = "cfl"
    for a in S.actions(parser):
        if not a["options"] or a["options"][0] in IGNORED:
            continue
        key = "%s/%s" % (k, a["dest"])
        d = a["dest"]
        with c.part(key, S, where):
            if d == "mesh_size":
                cmd, r = attempt(S, ["calculate", problem, "-T", T, "-s", k, "++mesh-size", N]) if "++mesh-size" in a["options"] else (cmd, r0)
                c.fact(key + "/alias", False if cmd is None else same(r0, r), where, "all spellings of an option mean the same", "")
            elif d in ("name", "short"):
                for o in a["options"]:
                    for val in ("a b", "llf"):
                        cmd, r = attempt(S, put([o, val]))
                        if cmd is None:
                            c.fact(key + "/accepted", False, where, "names are accepted", "'%s': %s" % (line(put([o, val])), refused(r)))
                            continue
                        ss = S.solvers(cmd)
                        c.fact(key + "/value", len(ss) == 1 and S.run("_s.%s" % d, _s=ss[0]) == val, where, "the solver carries the %s given" % d,
                               "'%s' gives %s" % (line(put([o, val])), [S.run("_s.%s" % d, _s=q) for q in ss]))
            elif d == "ode_solver_type":
                for o in a["options"]:
                    for val, co in DRIVERS.items():
                        cmd, r = attempt(S, put([o, val]))
                        if cmd is None:
                            c.fact(key + "/accepted", False, where, "the time integrators are accepted", "'%s': %s" % (line(put([o, val])), refused(r)))
                            continue
                        got, rest = growth(S, S.solvers(cmd)[0])
                        for i in range(4):
                            c.equal("%s/%s-%d" % (key, val, i), got[i], num(co[i]), where, "the solver uses the time integrator given with '%s %s'" % (o, val))
                        c.zero("%s/%s-rest" % (key, val), rest, where, "the solver uses the time integrator given with '%s %s'" % (o, val))
            elif d == "cfl_number":
                C = SMALL / (dx * size / N)
                L = SMALL * 5 / 2
                for o in a["options"]:
                    argv2 = ["calculate", problem, "-T", L, "-s", k, "+m", N, o, C]
                    cmd, r = attempt(S, argv2)
                    if cmd is None:
                        c.fact(key + "/accepted", False, where, "the CFL number is accepted", "'%s': %s" % (line(argv2), refused(r)))
                        continue
                    ss = S.solvers(cmd)
                    tss = stepping(S, ss[0])
                    seen = ["s" in reach(S, t).names for t in tss]
                    c.fact(key + "/reaches", all(seen) and bool(seen), where, "the CFL number given reaches the time stepping", "")
                    gen = S.run("core.time_stepping.TimeStepGenerator")
                    with c.part(key + "/linear", S, where):
                        gs = S.instances(ss[0], gen)[0]
                        v = S.I.E(S.run("_g()", _g=gs[0]))
                        one, rr = attempt(S, argv2[:-1] + ["1"])
                        u = S.I.E(S.run("_g()", _g=S.instances(S.solvers(one)[0], gen)[0][0]))
                        c.equal(key + "/linear", v, C * u, where, "time steps are proportional to the CFL number given")
                        cmd, r = attempt(S, argv2)
                        ss = S.solvers(cmd)
                        tss = stepping(S, ss[0])
                    if problem == "swe" or k in ("llf", "central", "mcl-fv"):
                        steps = [S.I.E(x) for x in S.items(S.run("_o = []\nfor _d in _t:\n    _o.append(_d)\n_o", _t=tss[0]))]
                        c.fact(key + "/steps", len(steps) == 3, where, "a CFL number c and end time T give steps of c*dx up to T", "%d steps instead of 3" % len(steps))
                        tot = X.ZERO
                        for i, x in enumerate(steps):
                            tot = tot + x
                        if len(steps) == 3:
                            c.equal(key + "/step", steps[0], SMALL, where, "the time step is the CFL number given times the cell size")
                            c.equal(key + "/duration", tot, L, where, "the steps end at the end time given")
            elif d == "flux_getter":
                fl = S.items(S.run("list(_p._flux_getter)", _p=parser))
                prints = {}
                for f in fl:
                    cmd, r = attempt(S, put(["+f", f]))
                    if cmd is None:
                        c.fact("%s/%s" % (key, f), False, where, "the fluxes listed are accepted", "'%s': %s" % (line(put(["+f", f])), refused(r)))
                        continue
                    prints[f] = r
                    mine = S.run("_p._flux_getter[_k]", _p=parser, _k=f)
                    getter = S.I.rec(mine).cls.name if isinstance(mine, Ref) and mine.kind == "obj" else None
                    flux = built(S, mine, cmd)
                    if flux is not None:
                        c.fact("%s/%s/used" % (key, f), flux <= r.classes, where, "the flux given is the one used", "%s does not use %s" % (line(put(["+f", f])), sorted(flux - r.classes)))
                        S.fresh()
                names = list(prints)
                for i in range(len(names)):
                    for j in range(i):
                        e = same(prints[names[i]], prints[names[j]])
                        c.fact("%s/%s-%s" % (key, names[j], names[i]), None if e is None else not e, where, "different fluxes give different calculations",
                               "'%s' and '%s' execute the same" % (line(put(["+f", names[i]])), line(put(["+f", names[j]]))))
            elif d == "adaptive" and flag(a):
                gen = S.run("core.time_stepping.TimeStepGenerator")
                for o, want in ((None, False), (a["options"][0], True)):
                    cmd, r = attempt(S, argv if o is None else put([o]))
                    if cmd is None:
                        c.fact(key + "/accepted", False, where, "the option is accepted", "%s: %s" % (o, refused(r)))
                        continue
                    for g in S.instances(S.solvers(cmd)[0], gen)[0]:
                        c.fact(key + "/effect", S.run("_g.adaptive", _g=g) is want, where, "the time stepping is adaptive exactly when asked for", "'%s'" % line(argv if o is None else put([o])))
            elif not (flag(a) and problem == "advection"):     # a linear flux: approximate and exact treatment may coincide
                check_option(c, S, key, r0, argv, a, put, where)
    with c.part(k + "/together", S, where):
        together(c, S, problem, k, parser, N, want)
    for bad in (["+m", "0"], ["+m", "-3"], ["++cfl", "0"], ["++cfl", "-0.5"], ["+m", "x"], ["++nonsense", "1"], ["+m", "1.5"]):
        cmd, r = attempt(S, put(bad))
        c.fact("%s/invalid" % k, cmd is None, where, "meaningless values and unknown options are refused", "'%s' is accepted" % line(put(bad)))


def together(c, S, problem, k, parser, N, want):
    """All options at once: each keeps its meaning whatever the others are."""
    where = "core/solver.py"
    T = sym("opt_T", "pos")
    acts = [a for a in S.actions(parser) if a["options"] and a["options"][0] not in IGNORED]
    by = {a["dest"]: a for a in acts}
    flags = [a for a in acts if flag(a)]
    gen = S.run("core.time_stepping.TimeStepGenerator")
    n = 0
    for cfl in ("0.01", "3", sym("opt_cfl", "pos")):
        for integrator in ("euler", "ssp3") if "ode_solver_type" in by else (None,):
            for on in (False, True) if flags else (False,):
                argv = ["calculate", problem, "-T", T, "-s", k, "+m", N, "+n", "some name", "+s", "key", "++cfl", cfl]
                if integrator:
                    argv += ["+o", integrator]
                extra = [a for a in acts if valued(a) and a["dest"] not in ("mesh_size", "name", "short", "cfl_number", "ode_solver_type", "flux_getter")]
                for a in extra:
                    argv += [a["options"][0], symbol(a["dest"]) if a["dest"] != "coarsening_degree" else "4"]
                if "flux_getter" in by:
                    argv += ["+f", "low-order"]
                if on:
                    argv += [a["options"][0] for a in flags]
                cmd, r = attempt(S, argv)
                key = "%s/together-%d" % (k, n)
                n += 1
                if cmd is None:
                    c.fact(key, False, where, "options can be combined", "'%s': %s" % (line(argv), refused(r)))
                    continue
                ss = S.solvers(cmd)
                if len(ss) != 1:
                    c.fact(key, False, where, "options can be combined", "'%s' gives %d solvers" % (line(argv), len(ss)))
                    continue
                s = ss[0]
                c.fact(key + "/name", S.run("_s.name == 'some name' and _s.short == 'key'", _s=s) is True, where, "the solver carries the names given", line(argv))
                size = N if "coarsening_degree" not in by else want if want is N else N / 4
                c.equal(key + "/mesh", length(S, s), size, where, "the mesh has the number of cells asked for")
                for a in extra:
                    if a["dest"] != "coarsening_degree":
                        c.fact("%s/%s" % (key, a["dest"]), name(symbol(a["dest"])) in r.names or None if r.unknown else name(symbol(a["dest"])) in r.names, where,
                               "the value given with an option reaches the solver", line(argv))
                if integrator:
                    got, rest = growth(S, s)
                    for i in range(4):
                        c.equal("%s/integrator-%d" % (key, i), got[i], num(DRIVERS[integrator][i]), where, "the solver uses the time integrator given: '%s'" % line(argv))
                for g in S.instances(s, gen)[0]:
                    ad = S.run("_g.adaptive", _g=g)
                    asked = on and "adaptive" in by
                    c.fact(key + "/adaptive", None if not isinstance(ad, bool) else ad is asked, where, "the time stepping is adaptive exactly when asked for", "'%s'" % line(argv))
                for t in stepping(S, s):
                    with c.part(key + "/end", S, where):
                        c.equal(key + "/end", S.run("_t._end_time", _t=t), T, where, "the end time given is the one used")


def built(S, getter, cmd):
    """Classes of the numerical flux a getter builds."""
    try:
        f = S.run("_g(_b, _s.solution.space)", _g=getter, _b=S.run("import benchmark.shallow_water as _sw\n_sw.RandomOscillationNoTopographyBenchmark(seed=1)"), _s=S.solvers(cmd)[0])
    except PyRaise:
        S.reset()
        return None
    if not (isinstance(f, Ref) and f.kind == "obj"):
        return None
    return {S.I.rec(f).cls.name}


# ---------------------------------------------------------------- several solvers
def selection(problem):
    def run(c):
        S = start(c)
        where = "core/solver.py"
        N1, N2 = mesh_symbol("first"), mesh_symbol("second")
        A, B = ("llf", "mcl-fv") if problem != "swe" else ("llf", "es")
        with c.part("two", S, where, raises=True):
            argv = ["calculate", problem, "-s", A, "+m", N1, "++cfl", sym("opt_cfl", "pos"), "+n", "one", B, "+m", N2]
            cmd, r = attempt(S, argv)
            if cmd is None:
                c.fact("two/accepted", False, where, "several solvers can be selected", "'%s': %s" % (line(argv), refused(r)))
            else:
                ss = S.solvers(cmd)
                c.fact("two/number", len(ss) == 2, where, "one solver is built per key", "'%s' builds %d" % (line(argv), len(ss)))
                if len(ss) == 2:
                    c.equal("two/mesh-1", length(S, ss[0]), N1, where, "options belong to the solver they follow")
                    c.equal("two/mesh-2", length(S, ss[1]), N2, where, "options belong to the solver they follow")
                    c.fact("two/name-1", S.run("_s.name == 'one'", _s=ss[0]) is True, where, "options belong to the solver they follow", "")
                    c.fact("two/name-2", S.run("_s.name != 'one'", _s=ss[1]) is True, where, "options belong to the solver they follow", "")
                    r1, r2 = reach(S, ss[0]), reach(S, ss[1])
                    c.fact("two/cfl-1", "opt_cfl" in r1.names, where, "options belong to the solver they follow", "")
                    c.fact("two/cfl-2", "opt_cfl" not in r2.names, where, "options of one solver do not affect another", "++cfl of the first solver is part of the second")
                    c.fact("two/mesh-leak", "opt_second" not in r1.names and "opt_first" not in r2.names, where, "options of one solver do not affect another", "")
                # each solver is the one built alone
                for i, part in enumerate((argv[3:10], argv[10:])):
                    S1 = S
                    alone, ra = attempt(S1, ["calculate", problem, "-s"] + part)
                    if alone is None:
                        continue
                    one = reach(S1, S1.solvers(alone)[0])
                    both, rb = attempt(S1, argv)
                    two = reach(S1, S1.solvers(both)[i]) if both is not None and len(S1.solvers(both)) == 2 else None
                    if two is not None:
                        c.fact("two/alone-%d" % i, same(one, two), where, "selecting a further solver does not change a solver", "solver %d of '%s' differs from '%s'" % (i + 1, line(argv), line(["-s"] + part)))
        with c.part("same", S, where, raises=True):
            argv = ["calculate", problem, "-s", A, "+m", N1, A, "+m", N2, B, "+m", N1]
            cmd, r = attempt(S, argv)
            ss = S.solvers(cmd) if cmd is not None else []
            c.fact("same/number", len(ss) == 3, where, "a solver may be selected several times", "'%s' gives %s" % (line(argv), refused(r) if cmd is None else len(ss)))
            if len(ss) == 3:
                for i, n in enumerate((N1, N2, N1)):
                    c.equal("same/mesh-%d" % i, length(S, ss[i]), n, where, "solvers are built in the order given, each with its own options")
                c.fact("same/independent", S.run("_a.solution is not _b.solution and _a._ode_solver is not _b._ode_solver and _a._right_hand_side is not _b._right_hand_side", _a=ss[0], _b=ss[1]) is True,
                       where, "solvers selected together share no state", "")
        with c.part("order", S, where, raises=True):
            T = sym("opt_T", "pos")
            a, ra = attempt(S, ["calculate", problem, "-T", T, "-s", A, "+m", N1])
            b, rb = attempt(S, ["calculate", problem, "-s", A, "+m", N1, "-T", T])
            c.fact("order/same", False if a is None or b is None else same(ra, rb), "command/calculate.py", "the order of the options does not matter", "")
        with c.part("key-like", S, where, raises=True):
            for o in ("+n", "++name", "+s", "++short"):
                argv = ["calculate", problem, "-s", A, "+m", N1, o, B, B, "+m", N2]
                cmd, r = attempt(S, argv)
                ss = S.solvers(cmd) if cmd is not None else []
                c.fact("key-like/%s" % o, len(ss) == 2, where, "the name of a solver may be a key", "'%s' gives %s" % (line(argv), refused(r) if cmd is None else "%d solvers" % len(ss)))
        with c.part("unknown", S, where):
            for argv in (["calculate", problem, "-s", "nonsense"], ["calculate", problem, "-s", A, "+o", "nonsense"], ["calculate", problem, "-s"], ["calculate"], ["nonsense"],
                         ["calculate", "nonsense"], ["calculate", problem, "-T", "0", "-s", A, "+m", N1], ["calculate", problem, "-T", "-1", "-s", A, "+m", N1]):
                cmd, r = attempt(S, argv)
                c.fact("unknown/%s" % " ".join(map(str, argv[1:])), cmd is None, where, "unknown keys, missing and meaningless values are refused", "'%s' is accepted" % line(argv))
        c.absorb(S)
    return run


# ---------------------------------------------------------------- benchmarks
def benchmarks(problem):
    def run(c):
        S = start(c)
        where = "command/calculate.py"
        N = mesh_symbol()
        with c.part("list", S, where):
            mod = "shallow_water" if problem == "swe" else problem
            S.run("import benchmark.%s as _bm\nimport finite_volume" % mod)
            keys = S.items(S.run("list(_bm.BENCHMARKS)"))
            S.freeze()
            for k in keys:
                with c.part(k, S, where):
                    argv = ["calculate", problem, "-b", k, "-s", "llf", "+m", N]
                    cmd, r = attempt(S, argv)
                    if cmd is None:
                        c.fact(k + "/accepted", False, where, "the benchmarks listed are accepted", "'%s': %s" % (line(argv), refused(r)))
                        continue
                    s = S.solvers(cmd)[0]
                    S.run("_b = _bm.BENCHMARKS[_k]()\n_ref = finite_volume.get_finite_volume_solution(_b, _n)", _k=k, _n=N)
                    i = sym("i", ("idx", N))
                    got, want = S.run("_s.solution.value", _s=s), S.run("_ref.value")
                    sh1, sh2 = S.shape(got), S.shape(want)
                    c.fact(k + "/shape", len(sh1) == len(sh2), where, "the initial data are those of the benchmark given", "")
                    for j in range(2 if len(sh2) > 1 else 1):
                        ix = (S.generic(N, "i"),) + ((j,) if len(sh2) > 1 else ())
                        c.equal("%s/data-%d" % (k, j), S.at(got, *ix), S.at(want, *ix), where, "the initial data are those of the benchmark given")
                    c.equal(k + "/time", S.run("_s.solution.time", _s=s), S.run("_b.start_time"), where, "the calculation starts at the benchmark's start time")
                    for t in stepping(S, s):
                        end = S.run("_b.end_time")
                        c.equal(k + "/end", S.run("_t._end_time", _t=t), end, where, "without -T the benchmark's end time is used")
        c.absorb(S)
    return run


# ---------------------------------------------------------------- commands
def base_line(S, path, parsers, both=True):
    """A short command line of a subcommand."""
    argv = list(path)
    acts = S.actions(parsers[path])
    tail = []
    for a in acts:
        if not a["options"] and valued(a) and a.get("nargs") not in ("?", "*"):
            t = tokens(a)
            tail += [t[0]] * count(a) if t else []
    s = [a for a in acts if "--solver" in a["options"]]
    if s:
        n = mesh_symbol()
        pre = []
        for a in acts:
            if "--mesh-size" in a["options"]:
                pre = ["--mesh-size", n]
        tail += pre + ["-s", "llf", "+m", n] + (["central", "+m", n] if both else [])
    return argv + tail


def command_part(path):
    def run(c):
        S = start(c)
        where = "command/"
        with c.part("parsers", S, where):
            parsers = S.parsers()
            if path not in parsers:
                c.unknown("path", where, "the subcommand exists", " ".join(path))
                c.absorb(S)
                return
            acts = S.actions(parsers[path])
            S.freeze()
            argv = base_line(S, path, parsers)
            cmd, r0 = attempt(S, argv)
            if cmd is None:
                argv = base_line(S, path, parsers, False)
                cmd, r0 = attempt(S, argv)
            if cmd is None:
                # positionals with converted values (keys) are tried one by one
                if path == ("help",):
                    argv = ["help", "llf"]
                    cmd, r0 = attempt(S, argv)
                if cmd is None:
                    c.fact("accepted", False if not ("unknown" in refused(r0)) else None, where, "every subcommand can be executed", "'%s': %s" % (line(argv), refused(r0)))
                    c.absorb(S)
                    return
            c.fact("accepted", True, where, "every subcommand can be executed", "")
            n = len(path)

            def put(extra):
                return argv + extra

            again, r1 = attempt(S, argv)
            c.fact("deterministic", same(r0, r1), where, "the same command line executes the same", "")
            for a in acts:
                key = a["dest"] + ("" if not a["options"] else a["options"][0])
                if not valued(a) and not flag(a):
                    continue
                with c.part(key, S, where):
                    if not a["options"]:
                        # positional: a different value is another command
                        for t in tokens(a)[:3]:
                            if a.get("nargs") in ("?", "*"):
                                cmd, r = attempt(S, argv[:n] + [t] + argv[n:])
                            else:
                                cmd, r = attempt(S, argv)
                            if cmd is not None and a.get("choices") is None:
                                c.fact(key + "/reaches", shows(r, t) or (None if r.unknown else path == ("help",)), where, "the value given reaches the command", "%s of '%s' is not part of what is executed" % (t, line(argv)))
                        if a.get("choices") is not None:
                            prints = []
                            for t in tokens(a):
                                cmd, r = attempt(S, [x if x != tokens(a)[0] else t for x in argv])
                                if cmd is None:
                                    c.fact(key + "/choice", False, where, "the values listed are accepted", "%s: %s" % (t, refused(r)))
                                else:
                                    prints.append((t, r))
                            for i in range(1, len(prints)):
                                e = same(prints[0][1], prints[i][1])
                                c.fact("%s/%s" % (key, prints[i][0]), None if e is None else not e, where, "different values execute differently", "")
                        continue
                    o = a["options"][0]
                    if o in IGNORED or "--solver" in a["options"]:
                        continue
                    if a["dest"] == "benchmark" and "--benchmark" in a["options"]:
                        continue
                    if a["dest"] == "mesh_size":
                        M = symbol("size")
                        rest = [x for j, x in enumerate(argv) if not (x == "--mesh-size" or (j and argv[j - 1] == "--mesh-size"))]
                        for q in a["options"]:
                            cmd, r = attempt(S, rest[:n] + [q, M] + rest[n:])
                            c.fact(key + "/reaches", False if cmd is None else shows(r, M) or (None if r.unknown else False), where, "the value given with an option reaches the command", "%s" % q)
                        continue
                    check_option(c, S, key, r0, argv, a, put, where)
                    if valued(a) and isinstance(a.get("type"), Func) and "positive" in a["type"].name:
                        for bad in ("0", "-1", "x"):
                            cmd, r = attempt(S, put([o, bad]))
                            c.fact(key + "/invalid", cmd is None, where, "meaningless values are refused", "'%s' is accepted" % line(put([o, bad])))
            if any("--random-benchmark" in a["options"] for a in acts):
                cmd, r = attempt(S, put(["-b", "nonsense"]))
                c.fact("benchmark/unknown", cmd is None, where, "unknown benchmarks are refused", "")
            cmd, r = attempt(S, put(["--nonsense"]))
            c.fact("unknown-option", cmd is None, where, "unknown options are refused", "'%s' is accepted" % line(put(["--nonsense"])))
            # the solvers selected are the ones the command works with
            if any("--solver" in a["options"] for a in acts) and path[0] != "eoc":
                cmd, r = attempt(S, argv)
                ss = S.solvers(cmd)
                kinds = [S.I.rec(s).cls.name for s in ss]
                keys, act = solver_keys(S, path)
                if keys:
                    want = [S.run("_a.solver_parsers[_k].solver.__name__", _a=act["ref"], _k=k) for k in ("llf", "central")]
                    c.fact("solvers", [k for k in kinds if k in want] == want[:len([k for k in argv if k in ("llf", "central")])], where, "the command works with the solvers selected, in order", "%s instead of %s" % (kinds, want))
                    for s in ss:
                        if S.I.rec(s).cls.name in want:
                            c.equal("solvers/mesh", length(S, s), mesh_symbol(), where, "the command works with the solvers selected") if path[0] not in ("generate-data",) else None
                # without solvers the command does not fail while it is set up
        c.absorb(S)
    return run


PATHS = [("calculate", p) for p in PROBLEMS] + [("plot", p) for p in PROBLEMS] + [("animate", p) for p in PROBLEMS] + [("eoc", "advection"), ("eoc", "burgers")] + [
    (x,) for x in ("analyze-curvature", "analyze-data", "delete-curvature", "generate-data", "help", "parameter-variation-test", "plot-error-evolution", "print-network", "test", "train-network")]


def texts(c):
    """Help texts can be printed."""
    S = start(c)
    where = "command/"
    with c.part("texts", S, where):
        parsers = dict(S.parsers())
        for reg in ("SCALAR_SOLVER_PARSER", "SHALLOW_WATER_SOLVER_PARSER"):
            for k in S.items(S.run("from command.calculate import %s as _r\nlist(_r)" % reg)):
                parsers[("solver", reg[:3].lower(), k)] = S.run("_r[_k]", _k=k)
        for path, p in parsers.items():
            seen = {}
            for a in S.actions(p):
                h = a.get("help")
                key = "%s/%s" % ("-".join(path) or "cls1", a["options"][0] if a["options"] else a["dest"])
                if isinstance(h, str):
                    try:
                        h % {k: v for k, v in list(a.items()) + [("prog", "x")]}
                        ok, why = True, ""
                    except Exception as e:
                        ok, why = False, "%s: %s in %r" % (type(e).__name__, e, h)
                    c.fact(key + "/help", ok, where, "the help text of every option can be printed", why)
                for o in a["options"]:
                    c.fact(key + "/" + o, o not in seen, where, "an option means one thing", "%s is used twice" % o)
                    seen[o] = 1
        # every subcommand of the program is registered under the name it is called by
        names = S.items(S.run("list(command.PARSER_COMMANDS)"))
        for n in names:
            c.fact("registered/" + n, (n,) in parsers, "command/__init__.py", "every command is registered under its own name", n)
        for path in parsers:
            if len(path) == 1:
                c.fact("dispatched/" + path[0], path[0] in names, "command/__init__.py", "every subcommand has its command", path[0])
    c.absorb(S)


def numbers(c):
    """Validators of option values."""
    S = start(c)
    where = "core/type.py"
    pos = {"positive_float": ("0", "-1", "-0.5", "-1e-30", "x", ""), "positive_int": ("0", "-1", "-7", "1.5", "x", "")}
    good = {"positive_float": ("1", "0.5", "1e-3", "7"), "positive_int": ("1", "7", "400")}
    for f in pos:
        with c.part(f, S, where):
            for v in pos[f]:
                r = S.run("""
                    import core.type as _ty
                    try:
                        _v = _ty.%s(_x)
                        _r = "accepted"
                    except (ValueError, TypeError):
                        _r = "refused"
                    _r
                    """ % f, _x=v)
                c.fact("%s/%s" % (f, v), r == "refused", where, "%s refuses other values" % f, "%r is accepted" % v)
            for v in good[f]:
                c.equal("%s/%s" % (f, v), S.run("_ty.%s(_x)" % f, _x=v), num(__import__("fractions").Fraction(v)), where, "%s is the value given" % f)
            x = symbol("x")
            c.equal(f + "/generic", S.run("_ty.%s(_x)" % f, _x=x), x, where, "%s is the value given" % f)
    c.absorb(S)


def details(c):
    """Several solvers at once, seeds, derived paths."""
    S = start(c)
    with c.part("parsers", S, "parser"):
        S.parsers()
        S.freeze()
    rand = None
    with c.part("benchmarks", S, "benchmark"):
        rand = S.run("import benchmark.shallow_water as _bs\n_bs.RandomOscillationNoTopographyBenchmark")
    for seed in (0, 17):
        key = "seed-%d" % seed
        with c.part(key, S, "command/calculate.py"):
            cmd, r = attempt(S, ["plot", "swe", "-r", str(seed), "-s", "llf"])
            found = S.instances(cmd, rand)[0] if cmd is not None else []
            got = [S.run("_b.seed", _b=b) for b in found]
            c.fact(key, None if not found else all(x == seed if isinstance(x, int) else X.is_zero(S.I.E(x) - seed)[0] == "proved" for x in got), "command/calculate.py", "the seed given is the one used", str(got))
    for path, want in (("a.b/c.d.png", "a.b/c.d.pkl"), ("results.v2/plot", "results.v2/plot.pkl")):
        key = "data-" + path
        with c.part(key, S, "command/plot.py"):
            cmd, r = attempt(S, ["plot", "burgers", "-s", "llf", "--save", path])
            c.fact(key, None if cmd is None else any(want in x for x in r.strings) or (None if r.unknown else False), "command/plot.py", "plot data is saved next to the plot unless another file is given", "no '%s'" % want)
            c.fact(key + "/plot", None if cmd is None else any(path in x for x in r.strings) or (None if r.unknown else False), "command/plot.py", "the plot is saved in the file given", path)
            cmd, r = attempt(S, ["plot", "burgers", "-s", "llf", "--save", path, "--save-data", "u.v/w.pkl"])
            c.fact(key + "/given", None if cmd is None else any("u.v/w.pkl" in x for x in r.strings) or (None if r.unknown else False), "command/plot.py", "plot data is saved in the file given", "")
    for problem in PROBLEMS:
        ks = {"swe": ("llf", "central", "low-order", "es1")}.get(problem, ("llf", "central", "cg", "cg-low"))
        for number in (3,):
            key = "several/%s-%d" % (problem, number)
            with c.part(key, S, "command/animate.py"):
                argv = ["animate", problem, "-s"]
                for k in ks[:number]:
                    argv += [k, "+m", "8"]
                cmd, r = attempt(S, argv)
                if cmd is None:
                    c.unknown(key, "command/animate.py", "several solvers can be animated", refused(r))
                    continue
                ss = S.solvers(cmd)
                hist = [S.run("hasattr(_s.solution, 'value_history')", _s=s) for s in ss]
                c.fact(key + "/count", len(ss) == number, "command/calculate.py", "every solver given is built", "%d solvers of '%s'" % (len(ss), line(argv)))
                c.fact(key + "/history", all(hist) if all(isinstance(h, bool) for h in hist) else None, "command/animate.py", "solutions to be animated keep their history", str(hist))
    c.absorb(S)
    S = Cli(c.model, execute=True)
    with c.part("calculate", S, "command/calculate.py"):
        S.run("""
            import core, command
            CALLS = []
            class Recorded(core.Solver):
                def __init__(self, k): self.k = k
                def solve(self, **kwargs): CALLS.append((self.k, kwargs))
            """)
        for number in (0, 1, 2, 3):
            S.run("del CALLS[:]\ncommand.Calculate(%s, disable=True, leave=False).execute()" % ("Recorded(0)" if number == 0 else "[%s]" % ", ".join("Recorded(%d)" % k for k in range(number))))
            c.fact("calculate-%d/each" % number, S.run("[x[0] for x in CALLS] == list(range(%d))" % max(number, 1)), "command/calculate.py", "every solver is executed once, in order", "")
            c.fact("calculate-%d/options" % number, S.run("all([x[1] == {'disable': True, 'leave': False} for x in CALLS])"), "command/calculate.py", "the display options reach every solver", "")
    c.absorb(S)


def scenarios(tier):
    out = [("help texts", texts), ("numbers", numbers), ("details", details)]
    for p in PROBLEMS:
        for g in range(GROUPS[p]):
            out.append(("solver %s %d" % (p, g), solver_part(p, g)))
        out.append(("selection " + p, selection(p)))
        out.append(("benchmark " + p, benchmarks(p)))
    for p in PATHS:
        out.append(("command " + " ".join(p), command_part(p)))
    return out
