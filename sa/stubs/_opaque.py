"""Objects of libraries that are only observed: every call is written down."""

LOG = []


class Opaque:
    """An object nothing is known about, except how it came about."""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Opaque(self._name + "." + name)

    def __call__(self, *args, **kwargs):
        LOG.append((self._name, self, args, kwargs))
        return Opaque(self._name + "()")
