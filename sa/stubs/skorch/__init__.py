"""A network is known by the training its parameters went through."""
from _opaque import LOG

FILES = {}
STATE = {"number": 0}


def fresh():
    STATE["number"] = STATE["number"] + 1
    return STATE["number"]


class NeuralNet:
    def __init__(self, module, *args, callbacks=None, warm_start=False, **kwargs):
        self.module = module
        self.callbacks = callbacks
        self.warm_start = warm_start
        self.initialized_ = False
        self.kwargs = kwargs
        self.effective = {}
        self.trained_with = []

    def initialize(self):
        self.module_ = self.module()
        self.module_._net = self
        self.parameters = fresh()
        self.optimizer = fresh()
        self.history = []
        self.effective = dict(self.kwargs)
        self.initialized_ = True
        LOG.append(("initialize", self, (), {}))
        return self

    def set_params(self, **kwargs):
        LOG.append(("set_params", self, (), kwargs))
        self.kwargs.update(kwargs)
        self.effective.update(kwargs)
        return self

    def partial_fit(self, X, y=None, classes=None, **fit_params):
        if not self.initialized_:
            self.initialize()
        LOG.append(("fit", self, (X, y), fit_params))
        self.trained_with.append((self.parameters, self.optimizer, list(self.history), dict(self.effective)))
        self.parameters = fresh()
        self.optimizer = fresh()
        self.history = self.history + [self.parameters]
        return self

    def fit(self, X, y=None, **fit_params):
        if not self.warm_start or not self.initialized_:
            self.initialize()
        return self.partial_fit(X, y, **fit_params)

    def predict(self, X):
        if not self.initialized_:
            raise RuntimeError("This network is not initialized yet.")
        return NETWORK(self.module, self.parameters, X)

    def forward(self, X, **kwargs):
        return self.predict(X)

    def save_params(self, f_params=None, f_optimizer=None, f_criterion=None, f_history=None, **kwargs):
        if f_params is not None:
            FILES[f_params] = ("parameters", self.parameters)
        if f_optimizer is not None:
            FILES[f_optimizer] = ("optimizer", self.optimizer)
        if f_history is not None:
            FILES[f_history] = ("history", list(self.history))

    def load_params(self, f_params=None, f_optimizer=None, f_criterion=None, f_history=None, **kwargs):
        if not self.initialized_:
            raise RuntimeError("Cannot load parameters of an un-initialized model.")
        if f_history is not None:
            self.history = self.read(f_history, "history")
        if f_params is not None:
            self.parameters = self.read(f_params, "parameters")
        if f_optimizer is not None:
            self.optimizer = self.read(f_optimizer, "optimizer")
            for key in list(self.effective):
                if key == "lr" or key.startswith("optimizer__"):
                    del self.effective[key]

    def read(self, path, kind):
        if path not in FILES:
            raise FileNotFoundError(path)
        found, value = FILES[path]
        if found != kind:
            raise RuntimeError("The file contains no " + kind)
        return value


class NeuralNetRegressor(NeuralNet):
    pass
