"""Neural-network and scaler externals: deterministic opaque functions.

predict(X) is an uninterpreted function of the row of X, the network object and
its parameter state; a scaler maps columns affinely."""
from . import expr as X
from . import npmodel as NP
from .expr import num
from .values import *


def rowapp(I, x, name, cols):
    a = NP.asarr(I, x)
    if len(a.shape) != 2 or not isinstance(a.shape[1], int):
        raise NP.NotArray()

    def fn(i):
        return X.app(name, num(i[1]), *[I.E(a.fn((i[0], c))) for c in range(a.shape[1])])

    return NP.mk_arr(I, NP.A((a.shape[0], cols), NP.memo(fn)))


def predict(I, a, k):
    return rowapp(I, a[1], "net", 2)


SCALER = Native("StandardScaler", (), {})


def sc_new(I, a, k):
    o = I.obj(SCALER, {})
    I.setattr(o, "_id", None)
    I.event("scaler-new", o.id)
    return o


def identity(I, o):
    """What a scaler's parameters depend on: the file it was read from, or the
    object itself; scalers never fitted are all alike."""
    v = I.rec(o).attrs.get("_id")
    return X.app("parameters", v) if isinstance(v, str) else num(o.id if v else 0)


def sc_map(kind):
    @NP.guard
    def f(I, a, k):
        o, x = a[0], NP.asarr(I, a[1])
        if kind == "fit_transform":
            I.event("scaler-fit", o.id)
            I.setattr(o, "_id", 1)
        me = identity(I, o)

        def fn(i):
            m = X.app("mean", me, num(i[-1]))
            s = X.sym(("scale", me, num(i[-1])), "pos")
            v = I.E(x.fn(i))
            return v * s + m if kind == "inverse_transform" else (v - m) / s

        return NP.mk_arr(I, NP.A(x.shape, NP.memo(fn)))

    return f


def sc_fit(I, a, k):
    I.event("scaler-fit", a[0].id)
    I.setattr(a[0], "_id", 1)
    return a[0]


SCALER.methods.update({
    "__new__": sc_new, "fit": sc_fit, "transform": sc_map("transform"), "fit_transform": sc_map("fit_transform"),
    "inverse_transform": sc_map("inverse_transform"),
})


def unpickle(I, a, k):
    """The only pickled objects of the numerical core are column scalers."""
    o = sc_new(I, [], {})
    path = getattr(a[0], "tag", None) if isinstance(a[0], Unk) else None
    I.setattr(o, "_id", "file %s" % path if isinstance(path, str) else 1)
    return o


EXT = {
    "pickle.load": unpickle,
    "skorch.NeuralNetRegressor.predict": NP.guard(predict),
    "skorch.regressor.NeuralNetRegressor.predict": NP.guard(predict),
    "sklearn.preprocessing.StandardScaler": SCALER,
}
