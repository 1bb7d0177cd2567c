"""Order of the Runge-Kutta methods."""
from .. import expr as X, fe, ode
from .. import npmodel as NP
from ..expr import num, sym

ID = "C07"
LEVEL = "other"
EXPLANATION = (
    "The Butcher tableau of every stepper is extracted from the source by abstract interpretation of one step with opaque slopes "
    "(coefficient of every slope in every stage and in the result). Row sums, explicitness and all order conditions (one per rooted tree "
    "up to order 8, 200 trees for the eighth order method) are evaluated in exact arithmetic over Q(sqrt(21)).")
ASSUMPTIONS = ["decimal approximations of a coefficient are accepted up to 1e-10"]
ORDERS = {"ForwardEuler": 1, "Heun": 2, "StrongStabilityPreservingRungeKutta3": 3, "RungeKutta8": 8}
TOL = 1e-10


def vanish(c, key, p, where, rule):
    p = X.nf(X.canon_p(p)) if p else {}
    if not p:
        return c.fact(key, True, where, rule)
    v = X.closed_p(p)
    if v is None:
        return c.unknown(key, where, rule, "residual %s" % X.show(X.canon_p(p))[:120])
    c.fact(key, abs(float(v)) < TOL, where, rule, "residual %.3e" % float(v))


def order(c, S, cls, p, key):
    T = ode.Tableau(S, cls)
    where = "%s" % cls.name
    c.zero(key + "/update", T.res_y1, where, "the result is the old value plus the weighted slopes")
    for i in range(T.s):
        c.zero("%s/stage-%d" % (key, i), T.res_stage[i], where, "a stage is the old value plus weighted slopes")
        for j in range(i, T.s):
            vanish(c, "%s/explicit-%d-%d" % (key, i, j), X.nf(T.a[i][j]), where, "a stage only uses earlier slopes")
        r = T.c[i]
        for j in range(T.s):
            r = r - T.a[i][j]
        vanish(c, "%s/node-%d" % (key, i), X.nf(X.canon(r)), where, "the node of a stage is the sum of its row")
    C = ode.Conditions(T.a, T.b)
    for q in range(1, p + 1):
        for n, t in enumerate(ode.trees(q)):
            vanish(c, "%s/order-%d/tree-%d" % (key, q, n), C.residual(t), where, "order condition of the rooted tree %s" % (t,))
    return T


def stepper(name):
    def run(c):
        S = ode.make(c.model)
        with c.part(name, S, name):
            for cls in ode.classes(S):
                if cls.name == name:
                    order(c, S, cls, ORDERS.get(name, 1), name)
        c.absorb(S)
    return run


def optimal(p):
    def run(c):
        S = ode.make(c.model)
        with c.part("degree-%d" % p, S, "degree %d" % p):

            cls = S.run("class Space:\n    polynomial_degree = %d\nC = finite_element.build_optimal_ode_solver(Space())\nC" % p)
            order(c, S, cls, min(p + 1, 8), "degree-%d" % p)
        c.absorb(S)
        S = fe.make(c.model, "advection", p)
        for k in fe.keys(S) if p < 4 else ["cg"] if p == 4 else []:
            where = "finite element solver %r, degree %d" % (k, p)
            with c.part("solver/%s" % k, S, where, raises=True):
                m = S.run("sol.SOLVER_PARSER[%r].solver(bench, mesh_size=N, polynomial_degree=%d).as_dict()['ode_solver']" % (k, p))
                S.bind(m=m)
                c.zero("solver/%s/time" % k, S.I.E(S.run("m.time")) - S.I.E(S.run("bench.start_time")), where, "the integrator of a solver starts at the start time")
        c.absorb(S)
    return run


def scenarios(tier):
    from ..model import Model
    S = ode.make(Model())
    out = [("stepper/" + cls.name, stepper(cls.name)) for cls in ode.classes(S)]
    for p in range(1, 8):
        out.append(("optimal/%d" % p, optimal(p)))
    return out
