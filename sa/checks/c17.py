"""Training data, training and learned networks fit together."""
from .. import expr as X
from .. import npmodel as NP
from ..expr import E, num, sym
from ..cli import Cli
from ..scen import Sc
from ..values import *
from .outputs import text

ID = "C17"
LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation of generate-data, train-network and the learned solvers with fine solutions that are arrays of symbols, "
    "numerical fluxes, networks and scalers that are opaque functions of everything they depend on, and interpreted models of pandas, skorch, torch and "
    "scikit-learn that record what is written, read and fitted. Tables are compared entry by entry as normal forms with the coarse averages and subgrid "
    "fluxes they have to hold, and predictions of reloaded networks with those of the network saved.")
ASSUMPTIONS = ["pandas, skorch, torch, pickle and scikit-learn behave as modelled in sa/stubs (subset of the documented behaviour)",
               "the accuracy a network attains is not considered"]

GENERATE = """
import numpy as np
import core, finite_volume, pandas
import _opaque
import benchmark.shallow_water as sw
class Drawn:
    def __init__(self, seed, end_time):
        self.seed = seed
        self.start_time = 0.0
        self.end_time = end_time
        self.domain = core.Interval(0, 10)
        self.height_average, self.height_amplitude, self.height_wave_number, self.height_phase_shift = [PARAM(seed, k) for k in range(4)]
        self.velocity_average, self.velocity_amplitude, self.velocity_wave_number, self.velocity_phase_shift = [PARAM(seed, k) for k in range(4, 8)]
    def bathymetry(self, x): return 0.0
GENERATORS = []
class Generator:
    def __init__(self, seed=None, end_time=None, **kwargs):
        self.seed, self.end_time, self.kwargs = seed, end_time, kwargs
        self.drawn = []
        GENERATORS.append(self)
    def __call__(self, seed=None):
        b = Drawn(100 + len(self.drawn) if seed is None else seed, self.end_time)
        self.drawn.append(b)
        return b
sw.RandomBenchmarkGenerator = Generator
import command.generate_data as gd
gd.shallow_water.RandomBenchmarkGenerator = Generator
class Flux(finite_volume.NumericalFlux):
    def __init__(self, space, width):
        self.space = space
        self.input_dimension = width
    def __call__(self, *values):
        assert len(values) == self.input_dimension
        return FLUX(self.space, 0, values), FLUX(self.space, 1, values)
class Fine(core.Solver):
    def __init__(self, space, width, value):
        self.flux_getter = lambda benchmark, space, bathymetry=None: Flux(space, width)
        self.solution = core.DiscreteSolution(value, 0.0, space)
        self.name = "fine"
        self.short = "llf"
        self.count = 0
    def reinitialize(self, benchmark):
        self.benchmark = benchmark
        self.count += 1
        self.solution.set_value(VALUE(self.count, 0), benchmark.start_time)
    def solve(self, **kwargs):
        for k in (1, 2):
            self.solution.update(1.5 * k, VALUE(self.count, k))
"""


def stage(c, stubs):
    S = Sc(c.model, 16_000_000, stubs)
    S.I.eager = True
    S.I.echo = []
    S.I.ext_models["os.makedirs"] = lambda I, a, k: None
    return S


def generator(c, radius, degree, node, width, number, overwrite):
    S = stage(c, ("pandas", "_opaque"))
    cells = degree * (node + max(radius, width) + 1)

    def flux(I, a, k):
        side = a[1]
        n = X.const(I.E(S.run("len(_sp.mesh)", _sp=a[0])))
        vs = [NP.asarr(I, v) for v in S.items(a[2])]

        def fn(i):
            return X.app("flux%d" % side, num(n), num(i[-1]), *[NP.simp(I.E(v.fn(tuple(i[:-1]) + (j,)))) for v in vs for j in range(2)])
        return NP.mk_arr(I, NP.A(vs[0].shape, NP.memo(fn)))

    def value(I, a, k):
        tag = tuple(int(X.const(I.E(x))) for x in a)
        return NP.new_arr(I, (cells, 2), lambda ix: sym(("w",) + tag + (X.canon(num(ix[0])), X.canon(num(ix[1]))), "pos"))

    S.bind(FLUX=S.native("flux", flux), VALUE=S.native("value", value), PARAM=S.native("param", lambda I, a, k: sym(("p",) + tuple(X.canon(I.E(x)) for x in a), "pos")))
    S.run(GENERATE)
    S.run("space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 10), %d))\nsolver = Fine(space, %d, VALUE(0, 0))" % (cells, width))
    S.run("command = gd.GenerateData(solver, 'dir', solution_number=%d, end_time=7, seed=5, coarsening_degree=%d, input_radius=%d, node_index=%d, overwrite=%s, print_output=False)" % (
        number, degree, radius, node, overwrite))
    return S, cells


def generate(c):
    """Rows of the training data."""
    where = "command/generate_data.py:GenerateData"
    for radius, degree, node, width, number, overwrite in ((1, 2, 1, 2, 1, False), (1, 1, 1, 2, 1, True), (1, 3, 1, 2, 2, False), (2, 4, 2, 2, 2, True), (2, 2, 3, 4, 1, True), (3, 3, 3, 2, 3, False), (1, 5, 4, 2, 2, True)):
        name = "radius%d-degree%d-node%d" % (radius, degree, node)
        with c.part(name, None, where, raises=True):
            S, cells = generator(c, radius, degree, node, width, number, overwrite)
            S.run("command.execute()")
            files = S.run("pandas.FILES")
            paths = [text(p) for p in S.items(S.run("list(_f)", _f=files))]
            c.fact(name + "/files", sorted(map(str, paths)) == ["dir/benchmark.csv", "dir/data.csv"], where, "data and benchmarks are saved in the directory asked for", str(paths))
            if sorted(map(str, paths)) != ["dir/benchmark.csv", "dir/data.csv"]:
                continue
            if not overwrite:
                modes = [text(x) for x in S.items(S.run("[e[2][1] for e in _opaque.LOG if e[0] == 'to_csv']"))]
                c.fact(name + "/append", all(m == "a" for m in modes), where, "existing data is kept when appending", str(modes))
            head = "[r for r in pandas.FILES['dir/%s.csv'] if r[0] == 'header']"
            rows = "[r for r in pandas.FILES['dir/%s.csv'] if r[0] == 'row']"
            n = count(S, "len(%s)" % (rows % "data"))
            c.fact(name + "/rows", n == 3 * number, where, "every recorded time of every solution gives one row", "%s rows" % n)
            for f in ("data", "benchmark"):
                k = count(S, "len(%s)" % (head % f))
                c.fact("%s/%s-header" % (name, f), k == (1 if overwrite else 0), where, "columns are named once, at the top", "%s headers" % k)
            if overwrite:
                cols = [tuple(text(x) for x in S.items(col)) for col in S.items(S.run("(%s)[0][1]" % (head % "data")))]
                want = [("U%d" % i, q) for i in range(node - radius, node + radius) for q in "hq"] + [("G_%s" % (node - 0.5), q) for q in "hq"]
                c.fact(name + "/columns", cols == want, where, "columns are the coarse cells around the node and the subgrid flux", str(cols))
                cols = [tuple(text(x) for x in S.items(col)) for col in S.items(S.run("(%s)[0][1]" % (head % "benchmark")))]
            if n != 3 * number:
                continue
            for s in range(number):
                for k in range(3):
                    row = S.run("(%s)[%d]" % (rows % "data", 3 * s + k))
                    _, at, vals = row
                    key = "%s/solution%d.%d" % (name, s, k)
                    c.equal(key + "/time", S.I.E(at), num((0, 1.5, 4.5)[k]), where, "rows are indexed by their time")
                    vals = S.items(vals)
                    w = lambda i, j: sym(("w", s + 1, k, X.canon(num(i)), X.canon(num(j))), "pos")
                    avg = lambda i, j: sum((w(degree * i + l, j) for l in range(degree)), num(0)) / num(degree)
                    ok = len(vals) == 4 * radius + 2
                    c.fact(key + "/length", ok, where, "rows hold one state per cell and one flux", str(len(vals)))
                    if not ok:
                        continue
                    for i in range(2 * radius):
                        for j in range(2):
                            c.equal("%s/state%d,%d" % (key, i, j), S.I.E(vals[2 * i + j]), avg(node - radius + i, j), where, "the inputs are the averages over the coarse cells around the node")
                    half = width // 2
                    if half > radius:
                        continue
                    for j in range(2):
                        fine = X.app("flux1", num(cells), num(j), *[w(degree * node + i, m) for i in range(-half, half) for m in range(2)])
                        coarse = X.app("flux1", num(cells // degree), num(j), *[X.canon(avg(node + i, m)) for i in range(-half, half) for m in range(2)])
                        got = S.I.E(vals[4 * radius + j])
                        want = fine - coarse
                        same_flux(c, "%s/flux%d" % (key, j), got, want, where)
            made = count(S, "len(%s)" % (rows % "benchmark"))
            c.fact(name + "/benchmarks", made == number, where, "every solution's benchmark is listed", "%s benchmarks" % made)
            if made == number:
                for s in range(number):
                    vals = S.items(S.run("(%s)[%d][2]" % (rows % "benchmark", s)))
                    drawn = S.run("GENERATORS[0].drawn[len(GENERATORS[0].drawn) - %d + %d]" % (number, s))
                    wants = S.items(S.run("[_b.seed, _b.height_average, _b.height_amplitude, _b.height_wave_number, _b.height_phase_shift, _b.velocity_average, _b.velocity_amplitude, _b.velocity_wave_number, _b.velocity_phase_shift]", _b=drawn))
                    named = {"seed": 0}
                    for i, q in enumerate(("average", "amplitude", "wave_number", "phase_shift")):
                        named["height", q], named["velocity", q] = 1 + i, 5 + i
                    c.fact("%s/benchmark%d/length" % (name, s), len(vals) == 9, where, "a benchmark is listed with its parameters")
                    if overwrite and len(vals) == 9 and len(cols) == 9:
                        for col, v in zip(cols, vals):
                            i = named.get("seed" if col[0] == "seed" else col)
                            if i is None:
                                c.fact("%s/benchmark%d/%s" % (name, s, col), False, where, "parameters are listed under their name", str(col))
                            else:
                                c.equal("%s/benchmark%d/%s" % (name, s, " ".join(col).strip()), S.I.E(v), S.I.E(wants[i]), where, "parameters are listed under their name")
                c.fact(name + "/order", S.run("[b for b in GENERATORS[0].drawn if b is solver.benchmark][0] is GENERATORS[0].drawn[-1]"), where, "the solutions belong to the benchmarks listed")
            c.fact(name + "/seed", S.run("len(GENERATORS) == 1 and GENERATORS[0].seed == 5 and GENERATORS[0].end_time == 7"), where, "seed and end time are those asked for")
            c.absorb(S)


def same_flux(c, key, got, want, where):
    """Fluxes are opaque functions: their arguments are compared, too."""
    def norm(e):
        m = {}
        for t in apps(e):
            m[t] = X.app(t.args[0], *[X.canon(x) if isinstance(x, E) else x for x in t.args[1:]])
        return X.subst(e, m) if m else e
    c.equal(key, norm(got), norm(want), where, "the output is the fine minus the coarse flux into the cell right of the node")


def apps(e):
    out, seen, stack = [], set(), [e]
    while stack:
        t = stack.pop()
        if not isinstance(t, E) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "app":
            out.append(t)
        else:
            stack.extend(X.kids(t))
    return out


def count(S, src):
    v = X.const(S.I.E(S.run(src)))
    return None if v is None else int(v)


def refused(c):
    """Nodes that are too close to the boundary."""
    where = "command/generate_data.py:SubgridFluxDataBuilder"
    for radius, node, good in ((3, 2, False), (2, 2, True), (2, 1, False), (2, 5, True)):
        key = "radius%d-node%d" % (radius, node)
        raised = None
        try:
            generator(c, radius, 2, node, 2, 1, True)
            raised = False
        except PyRaise:
            raised = True
        except Abort:
            pass
        c.fact(key, None if raised is None else raised != good, where, "nodes with too few cells to their left are refused", "accepted" if not raised else "refused")


NETWORKS = """
import numpy as np
import core, defaults, pandas, skorch, sklearn
import _opaque
import finite_volume.shallow_water.solver as sol
import finite_volume.shallow_water.solver.reduced_model as rm
"""


def networks(c, S=None):
    S = S or stage(c, ("pandas", "_opaque", "skorch", "torch", "sklearn"))
    S.I.single_exact = True     # networks work in single precision
    stored = {}
    keys = {}

    def path_of(f):
        return f.tag if isinstance(f, Unk) else None

    def dump(I, a, k):
        o, p = a[0], path_of(a[1] if len(a) > 1 else k["file"])
        stored[p] = (I.rec(o).cls, dict(I.rec(o).attrs)) if isinstance(o, Ref) and o.kind == "obj" else o

    def load(I, a, k):
        p = path_of(a[0] if a else k["file"])
        if p not in stored:
            I.raise_("FileNotFoundError", str(p))
        return I.obj(stored[p][0], dict(stored[p][1])) if isinstance(stored[p], tuple) else stored[p]

    def opened(I, a, k):
        p = a[0] if a else k.get("file")
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        p = text(p)
        if isinstance(mode, str) and "r" in mode and p not in stored:
            I.raise_("FileNotFoundError", str(p))
        return Unk("file", p)

    def moments(I, a, k):
        x = NP.asarr(I, a[0])
        ids = tuple(X.canon(I.E(x.fn((i, j)))).id for i in range(x.shape[0]) for j in range(x.shape[1]))
        n = keys.setdefault(ids, len(keys))
        return (NP.new_arr(I, (x.shape[1],), lambda ix: X.app("mean", num(n), num(ix[0]))),
                NP.new_arr(I, (x.shape[1],), lambda ix: sym(("deviation", n, X.canon(num(ix[0]))), "pos")))

    def network(I, a, k):
        x = NP.asarr(I, a[2])
        par = I.E(a[1])
        return NP.new_arr(I, (x.shape[0], 2), lambda ix: X.app("network", par, num(ix[1]), *[X.canon(I.E(x.fn((ix[0], j)))) for j in range(x.shape[1])]))

    S.I.ext_models.update({"pickle.dump": dump, "pickle.load": load})
    S.run(NETWORKS)
    S.run("skorch.NETWORK = N_\nsklearn.preprocessing.MOMENTS = M_\nrm.open = O_", N_=S.native("network", network), M_=S.native("moments", moments), O_=S.native("open", opened))
    files = lambda: {text(p) for p in S.items(S.run("list(skorch.FILES)"))} | set(stored) | {text(p) for p in S.items(S.run("list(pandas.FILES)"))}
    S.I.ext_models["os.path.isfile"] = S.I.ext_models["os.path.exists"] = lambda I, a, k: text(a[0]) in files()
    return S, stored, files


def matrix(S, name, rows, cols):
    return NP.new_arr(S.I, (rows, cols), lambda ix: sym((name, X.canon(num(ix[0])), X.canon(num(ix[1]))), "pos"))


def names_of(S):
    return [text(x) for x in S.items(S.run("list(sol.NETWORK_TYPES)"))]


def same_array(c, S, key, got, want, where, rule):
    a, b = S.A(got), S.A(want)
    ok = len(a.shape) == len(b.shape) and all(NP.dim_eq(x, y) for x, y in zip(a.shape, b.shape))
    c.fact(key + "/shape", ok, where, rule, "%s instead of %s" % (NP.shp(a.shape), NP.shp(b.shape)))
    if not ok:
        return
    import itertools
    for ix in itertools.product(*[range(d) for d in a.shape]):
        c.equal("%s%s" % (key, list(ix)), norm_apps(S.I.E(a.fn(ix))), norm_apps(S.I.E(b.fn(ix))), where, rule)


def norm_apps(e):
    m = {t: X.app(t.args[0], *[X.canon(x) if isinstance(x, E) else x for x in t.args[1:]]) for t in apps(e)}
    return X.subst(e, m) if m else e


def network(c):
    """Fitting, predicting, saving and loading."""
    where = "finite_volume/shallow_water/solver/reduced_model.py:ReducedNetwork"
    S, stored, files = networks(c)
    X1, Y1, Z = matrix(S, "x", 3, 8), matrix(S, "y", 3, 2), matrix(S, "z", 2, 8)
    X2, Y2 = matrix(S, "xx", 2, 8), matrix(S, "yy", 2, 2)
    S.bind(X1=X1, Y1=Y1, Z=Z, X2=X2, Y2=Y2)
    for name in names_of(S):
        with c.part(name, S, where, raises=True):
            S.run("_opaque.LOG.clear()\nnet = sol.NETWORK_TYPES['%s'](warm_start=True)\nnet.fit(X1, Y1, epochs=4)" % name)
            fits = S.items(S.run("[e for e in _opaque.LOG if e[0] == 'fit' and e[1] is net]"))
            c.fact(name + "/fitted", len(fits) == 1, where, "fitting trains the network once", str(len(fits)))
            if len(fits) == 1:
                _, _, data, kwargs = fits[0]
                same_array(c, S, name + "/inputs", data[0], S.run("(X1 - _m) / _s", **dict(zip(("_m", "_s"), S.run("MOMENTS_(X1)", MOMENTS_=S.run("sklearn.preprocessing.MOMENTS"))))), where, "the network is trained with inputs scaled by their own moments")
                same_array(c, S, name + "/outputs", data[1], S.run("(Y1 - _m) / _s", **dict(zip(("_m", "_s"), S.run("MOMENTS_(Y1)")))), where, "the network is trained with outputs scaled by their own moments")
                c.fact(name + "/epochs", S.run("_k.get('epochs') == 4", _k=kwargs), where, "the number of epochs is the one asked for")
            want = expected(S, "net", "X1", "Y1", "Z")
            same_array(c, S, name + "/predict", S.run("net.predict(Z)"), want, where, "a prediction scales inputs and outputs as in the training")
            S.run("net.save_params()")
            # another network of each kind trained afterwards, never saved
            S.run("others = [sol.NETWORK_TYPES[k]() for k in sol.NETWORK_TYPES]\nfor o in others:\n    o.fit(X2, Y2)")
            for load in ("load_params()", "load_params(load_history=True)"):
                S.run("new = sol.NETWORK_TYPES['%s'](warm_start=True)\nnew.%s" % (name, load))
                key = name + ("/history" if "True" in load else "/loaded")
                same_array(c, S, key + "/predict", S.run("new.predict(Z)"), want, where, "a network loaded predicts as the network saved")
                if "True" in load:
                    c.fact(key + "/kept", S.run("new.history == net.history and new.optimizer == net.optimizer"), where, "training resumes with optimizer and history of the network saved")
                else:
                    c.fact(key + "/fresh", S.run("new.history == []"), where, "the history is loaded only on demand")
    with c.part("separate", S, where, raises=True):
        names = names_of(S)
        for name in names:
            S.run("n_%s = sol.NETWORK_TYPES['%s']()\nn_%s.fit(%s)\nn_%s.save_params()" % (name, name, name, ("X1, Y1", "X2, Y2")[names.index(name) % 2], name))
        for name in names:
            S.run("l_%s = sol.NETWORK_TYPES['%s']()\nl_%s.load_params()" % (name, name, name))
            same_array(c, S, "separate/" + name, S.run("l_%s.predict(Z)" % name), S.run("n_%s.predict(Z)" % name), where, "networks of different kinds are stored apart")
    with c.part("solver", S, where, raises=True):
        # the networks of the solvers are those trained
        S.run("import finite_volume.shallow_water.solver.reduced_llf as r1\nimport finite_volume.shallow_water.solver.reduced_llf_2 as r2")
        for key, solver, name in (("reduced-llf", "reduced-llf", "llf"), ("reduced-llf-2", "reduced-llf-2", "llf2")):
            got = S.run("sol.SHALLOW_WATER_FLUX_GETTER['%s']" % solver)
            sub = S.run("_g(BENCH, SPACE)", _g=got, BENCH=bench(S), SPACE=S.run("import finite_volume\nfinite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), 8))"))
            left = states(S, 4)
            out = S.run("_f(*_v)", _f=sub, _v=left)
            base = S.run("sol.LaxFriedrichsFluxGetter()(BENCH, SPACE)(*_v[1:3])", _v=left)
            pred = S.run("n_%s.predict(np.concatenate(_v, axis=1))" % name, _v=left)
            same_array(c, S, "solver/%s/left" % key, S.run("_o[0]", _o=out), S.run("_b[0] - _p", _b=base, _p=pred), where, "a learned flux is the flux corrected by the prediction of its saved network")
            same_array(c, S, "solver/%s/right" % key, S.run("_o[1]", _o=out), S.run("_b[1] + _p", _b=base, _p=pred), where, "a learned flux is the flux corrected by the prediction of its saved network")
    c.absorb(S)


def bench(S):
    S.run("""
import finite_volume
from benchmark.shallow_water import ShallowWaterBenchmark
class Flat(ShallowWaterBenchmark):
    domain = core.Interval(0, 1)
    problem = "swe"
    start_time = 0.0
    end_time = 1.0
    def __init__(self): pass
    def bathymetry(self, x): return 0.0
    def initial_data(self, x): return np.array([1.0, 0.0])
""")
    return S.run("Flat()")


def states(S, n):
    vs = [NP.new_arr(S.I, (2, 2), lambda ix, i=i: sym(("s%d" % i, X.canon(num(ix[0])), X.canon(num(ix[1]))), "pos")) for i in range(n)]
    return S.I.list(vs)


def expected(S, net, x, y, z):
    S.run("_mx, _sx = MOMENTS_(%s)\n_my, _sy = MOMENTS_(%s)" % (x, y), MOMENTS_=S.run("sklearn.preprocessing.MOMENTS"))
    return S.run("NET_(0, %s.parameters, (%s - _mx) / _sx) * _sy + _my" % (net, z), NET_=S.run("skorch.NETWORK"))


def missing(c):
    """Files that are not there."""
    where = "finite_volume/shallow_water/solver/reduced_model.py:ReducedNetwork.load_params"
    for load in ("load_params()", "load_params(load_history=True)"):
        S, stored, files = networks(c)
        S.bind(X1=matrix(S, "x", 3, 8), Y1=matrix(S, "y", 3, 2), Z=matrix(S, "z", 2, 8))
        for name in names_of(S):
            key = "%s/%s" % (name, "history" if "True" in load else "plain")
            with c.part(key, S, where, raises=True):
                S.run("net = sol.NETWORK_TYPES['%s'](warm_start=True)\nnet.%s" % (name, load))
                c.fact(key + "/initialized", S.run("net.initialized_ == True"), where, "without files an untrained network is used")
                S.run("net.fit(X1, Y1)")
                want = expected(S, "net", "X1", "Y1", "Z")
                same_array(c, S, key + "/predict", S.run("net.predict(Z)"), want, where, "training continues from an untrained network")
        c.absorb(S)


def paths(c):
    """Generated data, training and networks use the same files and sizes."""
    where = "command/train_network.py:TrainNetwork"
    S, stored, files = networks(c)
    with c.part("directories", S, where, raises=True):
        S.run("import command.generate_data as gd\nimport os")
        for name in names_of(S):
            if count(S, "1 if '%s' in gd.DIRECTORIES else 0" % name) != 1:
                c.unknown("directories/" + name, where, "data is generated in a directory of its own")
                continue
            data = text(S.run("sol.NETWORK_TYPES['%s'].data_path" % name))
            made = text(S.run("os.path.join(gd.DIRECTORIES['%s'], 'data.csv')" % name))
            c.fact("directories/" + name, data == made, where, "networks are trained with the data generated for them", "%s, %s" % (data, made))
    with c.part("sizes", S, where, raises=True):
        for name in names_of(S):
            out = S.run("sol.NETWORK_TYPES['%s'].module_type()(('batch', 4 * defaults.INPUT_RADIUS))" % name)
            c.fact("sizes/" + name, S.run("_o == ('batch', 2)", _o=out), where, "networks map the states of the cells around a node to a flux", str(out))
    for skip, seed, epochs in ((1, None, 3), (2, 7, 5), (3, 1, 1)):
        for name in names_of(S):
            key = "train%d/%s" % (skip, name)
            with c.part(key, S, where, raises=True):
                rows = 8
                D = matrix(S, "d", rows, 10)
                S.run("""
                    import command.train_network as tn
                    net = sol.NETWORK_TYPES['%s'](warm_start=True)
                    cols = pandas.MultiIndex.from_product([["U0", "U1", "U2", "U3", "G_1.5"], ["h", "q"]])
                    pandas.DataFrame(D_, columns=cols, index=[10 * k for k in range(%d)]).to_csv(sol.NETWORK_TYPES['%s'].data_path)
                    _opaque.LOG.clear()
                    tn.TrainNetwork(net, epochs=%d, skip=%d, seed=%s, confirm=True).execute()
                    """ % (name, rows, name, epochs, skip, seed), D_=D)
                log = S.run("[(e[0], e[1] is net, e[2], e[3]) for e in _opaque.LOG if e[0] in ('fit', 'torch.manual_seed', 'initialize')]")
                log = S.items(log)
                fits = [e for e in log if e[0] == "fit"]
                c.fact(key + "/fitted", len(fits) == 1, where, "the network is trained once", str(len(fits)))
                if len(fits) == 1:
                    S.run("_x, _y = D_[::%d, :8], D_[::%d, 8:]\n_mx, _sx = MOMENTS_(_x)\n_my, _sy = MOMENTS_(_y)" % (skip, skip), MOMENTS_=S.run("sklearn.preprocessing.MOMENTS"))
                    same_array(c, S, key + "/inputs", fits[0][2][0], S.run("(_x - _mx) / _sx"), where, "inputs are the states in every SKIP-th row")
                    same_array(c, S, key + "/outputs", fits[0][2][1], S.run("(_y - _my) / _sy"), where, "outputs are the subgrid fluxes in every SKIP-th row")
                    c.fact(key + "/epochs", S.run("_k.get('epochs') == %d" % epochs, _k=fits[0][3]), where, "the number of epochs is the one asked for")
                kinds = [e[0] for e in log]
                if seed is not None:
                    seeds = [e for e in log if e[0] == "torch.manual_seed"]
                    ok = len(seeds) > 0 and S.run("_s == %d" % seed, _s=seeds[-1][2][0]) is True and "initialize" in kinds and kinds.index("torch.manual_seed") < kinds.index("initialize")
                    c.fact(key + "/seed", ok, where, "the network is initialised and trained with the seed asked for", str(kinds))
                saved = files()
                p = text(S.run("net.network_path"))
                c.fact(key + "/saved", p in saved, where, "a confirmed training is saved", str(p))
    # what is kept of a training
    for name, confirm, answers, kept in (("unasked", False, [], True), ("yes", True, ["y"], True), ("YES", True, ["YES"], True), ("no", True, ["n"], False), ("No", True, ["No"], False),
                                         ("unclear", True, ["what", "no"], False), ("unclear-yes", True, ["what", "yes"], True)):
        with c.part("keep-" + name, S, where, raises=True):
            S.run("ANSWERS, ASKED = %r, []\nskorch.FILES.clear()\ndef answer(*a):\n    ASKED.append(1)\n    return ANSWERS[len(ASKED) - 1]\ntn.input = answer" % answers)
            stored.clear()
            S.run("net = sol.NETWORK_TYPES['llf'](warm_start=True)\ntn.TrainNetwork(net, epochs=1, skip=1, confirm=%s).execute()" % confirm)
            c.fact("keep-%s/asked" % name, count(S, "len(ASKED)") == len(answers), where, "a confirmation is asked for until it is given, and only if demanded", "asked %s times" % count(S, "len(ASKED)"))
            saved = [k for k in ("network_path", "input_scaler_path", "output_scaler_path") if text(S.run("net.%s" % k)) in files()]
            c.fact("keep-%s/files" % name, len(saved) == (3 if kept else 0), where, "a training is saved exactly if it is confirmed", str(saved))
    c.absorb(S)


CURVE = """
import command.delete_curvature as dc
import core
import numpy as np
import pandas
import _opaque
"""


def curvature(c):
    """Deleting data of large curvature."""
    where = "command/delete_curvature.py:DeleteCurvature"
    S = stage(c, ("pandas", "_opaque"))
    S.run(CURVE)
    D = matrix(S, "d", 5, 10)
    for name, kwargs, step, kh, kq in (("default", "", 2.0, 0.25, 0.5), ("given", ", step_length=STEP, curvature_height_threshold=KH, curvature_discharge_threshold=KQ", None, None, None)):
        with c.part(name, S, where, raises=True):
            S.bind(STEP=sym("step", "pos") if step is None else num(step), KH=sym("kh", "pos") if kh is None else num(kh), KQ=sym("kq", "pos") if kq is None else num(kq))
            S.run("""
                cols = pandas.MultiIndex.from_product([["U0", "U1", "U2", "U3", "G_1.5"], ["h", "q"]])
                pandas.DataFrame(D_, columns=cols, index=[10 * k for k in range(5)]).to_csv("source.csv")
                _opaque.LOG.clear()
                dc.DeleteCurvature("source.csv", "target.csv"%s).execute()
                """ % kwargs, D_=D)
            log = S.items(S.run("[(e[1], e[2]) for e in _opaque.LOG if e[0] == 'to_csv']"))
            c.fact(name + "/written", len(log) == 1 and text(log[0][1][0]) == "target.csv", where, "the result is stored where asked for", str(len(log)))
            if len(log) != 1:
                continue
            S.bind(_x=log[0][0])
            if count(S, "1 if isinstance(_x, pandas.Selection) else 0") != 1:
                c.unknown(name + "/mask", where, "rows are kept if both curvatures are below their thresholds")
                continue
            mask = S.run("_x.mask")
            want = S.run("""
def curve(u0, u1, u2):
    return abs(u0 - 2 * u1 + u2) * STEP / (STEP**2 + 0.25 * (u0 - u2) ** 2) ** (3 / 2)
both = [(curve(D_[:, j], D_[:, 2 + j], D_[:, 4 + j]) + curve(D_[:, 2 + j], D_[:, 4 + j], D_[:, 6 + j])) / 2 for j in range(2)]
(both[0] < KH) & (both[1] < KQ)
""", D_=D)
            a, b = S.A(mask), S.A(want)
            c.fact(name + "/rows", a.shape == b.shape, where, "every row is decided", NP.shp(a.shape))
            for i in range(5 if a.shape == b.shape else 0):
                c.equal("%s/row%d" % (name, i), X.ite(a.fn((i,)), num(1), num(0)), X.ite(b.fn((i,)), num(1), num(0)), where, "rows are kept if the curvatures of height and discharge are below their thresholds")
    c.absorb(S)


def lines(c):
    """What the options of train-network do to the training."""
    where = "command/train_network.py:TrainNetworkParser"
    S = Cli(c.model, 24_000_000, ("argparse", "pandas", "_opaque", "matplotlib", "skorch", "torch", "sklearn"), execute=True)
    S.I.eager = True
    S.I.ext_models["os.makedirs"] = lambda I, a, k: None
    S, stored, files = networks(c, S)
    rows = 8
    D = matrix(S, "d", rows, 10)
    S.run("""
import command.train_network as tn
for k in sol.NETWORK_TYPES:
    pandas.DataFrame(D_, columns=pandas.MultiIndex.from_product([["U0", "U1", "U2", "U3", "G_1.5"], ["h", "q"]])).to_csv(sol.NETWORK_TYPES[k].data_path)
ASKED = []
def answer(*a):
    ASKED.append(1)
    return "n"
tn.input = answer
""", D_=D)
    names = names_of(S)
    with c.part("saved", S, where, raises=True):
        S.bind(X1=matrix(S, "x", 3, 8), Y1=matrix(S, "y", 3, 2))
        for k in names:
            S.run("net = sol.NETWORK_TYPES['%s'](warm_start=True)\nnet.fit(X1, Y1, epochs=2)\nnet.save_params()" % k)
    S.run("KEPT = dict(skorch.FILES)")
    kept = dict(stored)
    cases = [([], {}, {}), (["--skip", "3"], {"skip": 3}, {}), (["-e", "4"], {"epochs": 4}, {}), (["--epochs", "6", "--skip", "2"], {"epochs": 6, "skip": 2}, {}),
             (["--seed", "5"], {"seed": 5}, {}), (["--confirm"], {}, {}), (["-p", "lr", "0.5"], {}, {"lr": 0.5}),
             (["-p", "lr", "0.5", "--parameter", "optimizer__weight_decay", "0.25"], {}, {"lr": 0.5, "optimizer__weight_decay": 0.25}),
             (["-p", "lr", "0.5", "-p", "lr", "0.125"], {}, {"lr": 0.125}),
             (["--resume"], {}, {}), (["--resume", "-p", "lr", "0.5"], {}, {"lr": 0.5}), (["--resume", "-e", "4", "--confirm"], {"epochs": 4}, {})]
    for name in names:
        other = [k for k in names if k != name]
        for argv, want, params in cases:
            key = " ".join(["train-network", name] + argv)
            with c.part(key, S, where, raises=True):
                S.reset()
                S.I.events.clear()
                stored.clear()
                stored.update(kept)
                S.run("skorch.FILES.clear()\nskorch.FILES.update(KEPT)\n_opaque.LOG.clear()\nASKED.clear()\nargparse._ARGV = %r\nprogram.main()" % (["train-network", name] + argv,))
                fits = S.items(S.run("[e for e in _opaque.LOG if e[0] == 'fit']"))
                c.fact(key + "/fitted", len(fits) == 1, where, "the network is trained once", str(len(fits)))
                if len(fits) != 1:
                    continue
                S.bind(NET=fits[0][1])
                c.fact(key + "/kind", S.run("isinstance(NET, sol.NETWORK_TYPES['%s'])" % name), where, "the network named is trained")
                skip = want.get("skip")
                skip = str(skip) if skip else "defaults.SKIP"
                x = S.A(fits[0][2][0])
                c.fact(key + "/rows", S.run("len(D_[::%s]) == R_" % skip, D_=D, R_=NP.simp(x.shape[0])), where, "every SKIP-th row is used", str(x.shape))
                c.fact(key + "/epochs", S.run("_k.get('epochs') == %s" % want.get("epochs", "defaults.EPOCHS"), _k=fits[0][3]), where, "the number of epochs is the one asked for")
                c.fact(key + "/settings", S.run("all(NET.trained_with[0][3].get(k) == v for k, v in _p.items())", _p=S.run(repr(params))), where, "the network is trained with the parameters given", str(params))
                resumed = "--resume" in argv
                was = S.run("NET.trained_with[0][:3] == (KEPT[NET.network_path][1], KEPT[NET.optimizer_path][1], KEPT[NET.history_path][1])")
                c.fact(key + "/start", None if was not in (True, False) else was == resumed, where, "a resumed training starts from the parameters, optimizer and history saved, others from scratch", str(was))
                seeds = S.items(S.run("[e[2][0] for e in _opaque.LOG if e[0] == 'torch.manual_seed']"))
                c.fact(key + "/seed", (S.run("_s == %d" % want["seed"], _s=seeds[-1]) if seeds else False) if "seed" in want else not seeds, where, "the training uses the seed given", str(len(seeds)))
                c.fact(key + "/asked", count(S, "len(ASKED)") == (1 if "--confirm" in argv else 0), where, "saving is confirmed if demanded")
                if "--confirm" in argv:
                    same = S.run("skorch.FILES == KEPT")
                    c.fact(key + "/kept", same, where, "a training that is not confirmed leaves the saved network as it was")
                else:
                    c.fact(key + "/saved", S.run("skorch.FILES[NET.network_path][1] == NET.parameters and skorch.FILES[NET.optimizer_path][1] == NET.optimizer and skorch.FILES[NET.history_path][1] == NET.history"), where,
                           "the trained network is saved")
                    for o in other:
                        c.fact(key + "/others-" + o, S.run("skorch.FILES[sol.NETWORK_TYPES['%s'].network_path] == KEPT[sol.NETWORK_TYPES['%s'].network_path]" % (o, o)), where, "other networks are left alone")
    # some files are there, others not
    where = "finite_volume/shallow_water/solver/reduced_model.py:ReducedNetwork.load_params"
    for name in names:
        for gone in (("history_path",), ("optimizer_path",), ("history_path", "optimizer_path")):
            key = "partial/%s/%s" % (name, "+".join(gone))
            with c.part(key, S, where, raises=True):
                stored.clear()
                stored.update(kept)
                S.run("skorch.FILES.clear()\nskorch.FILES.update(KEPT)")
                for g in gone:
                    S.run("del skorch.FILES[sol.NETWORK_TYPES['%s'].%s]" % (name, g))
                S.run("new = sol.NETWORK_TYPES['%s'](warm_start=True)\nnew.load_params(load_history=True)" % name)
                c.fact(key + "/parameters", S.run("new.parameters == KEPT[new.network_path][1]"), where, "a network whose history is not there is loaded without it")
                c.fact(key + "/scalers", S.run("new._input_scaler is not None and hasattr(new._input_scaler, 'mean_') and hasattr(new._output_scaler, 'mean_')"), where, "the scalers are loaded")
    c.absorb(S)


def scenarios(tier):
    return [("lines", lines), ("generate", generate), ("refused", refused), ("network", network), ("missing", missing), ("training", paths)]
