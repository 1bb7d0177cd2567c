class Module:
    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)

    _net = None

    def parameters(self):
        if self._net is None:
            return iter([])
        return iter([self._net.parameters])


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        self.in_features = in_features
        self.out_features = out_features

    def forward(self, x):
        if x[-1] != self.in_features:
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        return x[:-1] + (self.out_features,)


class LeakyReLU(Module):
    def forward(self, x):
        return x


ReLU = Tanh = Sigmoid = ELU = GELU = SiLU = Softplus = Identity = Dropout = LeakyReLU


class Sequential(Module):
    def __init__(self, *layers):
        self.layers = list(layers)

    def forward(self, x):
        for layer in self.layers:
            x = layer(x)
        return x
