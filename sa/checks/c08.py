"""Semantics of one and several Runge-Kutta steps."""
from .. import expr as X, ode
from .. import npmodel as NP
from ..expr import num, sym

ID = "C08"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation of every Runge-Kutta stepper for vectors of arbitrary length with an opaque right hand side: recorded stage "
    "values and stage times are exactly the arguments of the evaluations, a step advances time and value, the next step continues from "
    "there, re-initialisation equals a new stepper, and no array is shared with the caller or with an earlier step.")
ASSUMPTIONS = ["the right hand side is a deterministic function that returns a new array"]


def stepper(name):
    def run(c):
        S = ode.make(c.model)
        where = name
        I = S.I
        g = S.generic(S.N, "g")
        DT, DT2, T0, T2 = sym("dt", "pos"), sym("dt2", "pos"), sym("t", "real"), sym("t2", "real")
        calls = S.rec.calls
        with c.part("step", S, where, raises=True):
            cls = [k for k in ode.classes(S) if k.name == name][0]
            S.bind(C=cls)
            S.run("y_in = Y.copy()\no = C(F, y_in, T0)")
            c.equal("initial-time", S.run("o.time"), T0, where, "a new stepper starts at the initial time")
            c.equal("initial-value", S.at(S.run("o.solution"), g), sym(("y", g), "real"), where, "a new stepper starts at the initial value")
            S.run("o.execute(DT)")
            first = list(calls)
            c.equal("time", S.run("o.time"), T0 + DT, where, "a step advances the time by the step")
            sv, tn = S.items(S.run("o.stage_values")), S.items(S.run("o.time_nodes"))
            c.fact("stages", len(sv) == len(tn) == len(first), where, "one recorded stage value and time per evaluation",
                   "%d values, %d times, %d evaluations" % (len(sv), len(tn), len(first)))
            for i, (t, y) in enumerate(first):
                c.equal("stage-value-%d" % i, S.at(sv[i], g), y.fn((g,)), where, "recorded stage value is the argument of the evaluation")
                c.equal("stage-time-%d" % i, I.E(tn[i]), t, where, "recorded stage time is the argument of the evaluation")
            c.equal("input-kept", S.at(S.run("y_in"), g), sym(("y", g), "real"), where, "the initial value array is left alone")
            # a second step continues where the first one ended
            y1 = S.at(S.run("o.solution"), g)
            vals = [NP.simp(S.A(v).fn((g,))) for v in sv]
            S.bind(SV=sv)
            S.run("kept_values, kept_times = o.stage_values, o.time_nodes\no.execute(DT2)")
            kv, kt = S.items(S.run("kept_values")), S.items(S.run("kept_times"))
            c.fact("records-kept", len(kv) == len(vals) and len(kt) == len(tn), where, "the records of a step are not changed by the next one",
                   "%d values and %d times of %d" % (len(kv), len(kt), len(vals)))
            for i, (v, w, t, u) in enumerate(zip(kv, vals, kt, [a for a, _ in first])):
                c.equal("record-value-%d" % i, NP.simp(S.A(v).fn((g,))), w, where, "the records of a step are not changed by the next one")
                c.equal("record-time-%d" % i, I.E(t), u, where, "the records of a step are not changed by the next one")
            second = calls[len(first):]
            c.fact("same-stages", len(second) == len(first), where, "every step has the same number of evaluations")
            t, y = second[0]
            c.equal("continue-time", t, T0 + DT, where, "the next step starts at the new time")
            c.equal("continue-value", y.fn((g,)), y1, where, "the next step starts at the new value")
            c.equal("two-steps-time", S.run("o.time"), T0 + DT + DT2, where, "time accumulates the steps")
            n2 = len(S.items(S.run("o.stage_values")))
            c.fact("stages-reset", n2 == len(second), where, "stage records are those of the last step", "%d records" % n2)
            for i, v in enumerate(vals):
                c.equal("stage-kept-%d" % i, NP.simp(S.A(sv[i]).fn((g,))), v, where, "recorded stage values are not changed later")
            # two steps = the one-step map composed (shifted slopes)
            y2 = S.at(S.run("o.solution"), g)
            s = len(first)
            inc1 = y1 - sym(("y", g), "real")
            back = {sym(("k", s + i, g), "real"): sym(("k", i, g), "real") for i in range(s)}
            back[DT2] = DT
            inc2 = X.subst(X.canon(y2 - y1), back)
            c.equal("same-map", inc2, inc1, where, "every step applies the same method")
        with c.part("reinitialize", S, where, raises=True):
            calls.clear()
            S.run("z_in = Y2.copy()\no.reinitialize(z_in, T2)")
            c.equal("re-time", S.run("o.time"), T2, where, "re-initialisation sets the time")
            c.equal("re-value", S.at(S.run("o.solution"), g), sym(("z", g), "real"), where, "re-initialisation sets the value")
            S.run("o.execute(DT)")
            old_calls = list(calls)
            otn = S.items(S.run("o.time_nodes"))
            a = NP.simp(S.A(S.run("o.solution")).fn((g,)))
            c.equal("re-kept", S.at(S.run("z_in"), g), sym(("z", g), "real"), where, "the array given on re-initialisation is left alone")
            calls.clear()
            S.run("f = C(F, Y2.copy(), T2)\nf.execute(DT)")
            b = NP.simp(S.A(S.run("f.solution")).fn((g,)))
            c.equal("re-fresh", a, b, where, "a re-initialised stepper behaves like a new one")
            c.fact("re-evaluations", len(calls) == len(old_calls), where, "a re-initialised stepper behaves like a new one")
            for i, ((t, y), (u, z)) in enumerate(zip(old_calls, calls)):
                c.equal("re-stage-time-%d" % i, t, u, where, "a re-initialised stepper evaluates at the times of a new one")
                c.equal("re-stage-record-%d" % i, I.E(otn[i]), u, where, "a re-initialised stepper records the times of a new one")
                c.equal("re-stage-value-%d" % i, y.fn((g,)), z.fn((g,)), where, "a re-initialised stepper evaluates at the values of a new one")
            c.equal("re-fresh-time", S.run("o.time"), S.run("f.time"), where, "a re-initialised stepper behaves like a new one")
        with c.part("independent", S, where, raises=True):
            calls.clear()
            S.run("p = C(F, Y.copy(), T0)\nq = C(F, Y2.copy(), T2)\np.execute(DT)")
            keep = NP.simp(S.A(S.run("p.solution")).fn((g,)))
            tn = S.items(S.run("p.time_nodes"))
            S.run("q.execute(DT2)")
            c.equal("other-value", S.at(S.run("p.solution"), g), keep, where, "steppers do not influence each other")
            c.equal("other-time", S.run("p.time"), T0 + DT, where, "steppers do not influence each other")
            tn2 = S.items(S.run("p.time_nodes"))
            c.fact("other-records", len(tn) == len(tn2), where, "steppers do not influence each other")
        with c.part("scalar", S, where):
            calls.clear()
            S.run("o = C(F, YS, T0)\no.execute(DT)", YS=sym("ys", "real"))
            v = I.E(S.run("o.solution"))
            w = X.subst(inc1, {sym(("k", i, g), "real"): sym(("k", i), "real") for i in range(len(calls))})
            c.equal("value", v, sym("ys", "real") + w, where, "scalar equations take the same step")
        with c.part("matrix", S, where):
            calls.clear()
            S.run("y_in = YM.copy()\no = C(F, y_in, T0)\no.execute(DT)\nz_in = YM.copy()\np = C(F, YM.copy(), T0)\np.reinitialize(z_in, T0)\np.execute(DT)", YM=S.swe(S.N))
            for q in (0, 1):
                for given in ("y_in", "z_in"):
                    c.equal("kept-%s-%d" % (given, q), S.at(S.run(given), g, q), [sym(("h", g), "pos"), sym(("q", g), "real")][q], where, "the array given is left alone")
            for q in (0, 1):
                v = S.at(S.run("o.solution"), g, q)
                w = X.subst(inc1, {sym(("k", i, g), "real"): sym(("k", i, g, num(q)), "real") for i in range(s)})
                c.equal("value-%d" % q, v, [sym(("h", g), "pos"), sym(("q", g), "real")][q] + w, where, "systems take the same step in every component")
        c.absorb(S)
    return run


def scenarios(tier):
    from ..model import Model
    S = ode.make(Model())
    return [(cls.name, stepper(cls.name)) for cls in ode.classes(S)]
