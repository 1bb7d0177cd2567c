from _opaque import LOG, Opaque


class FuncAnimation:
    def __init__(self, fig, func, frames=None, **kwargs):
        self.fig = fig
        self.func = func
        self.frames = frames
        self.kwargs = kwargs
        LOG.append(("animation", self, (fig, func), {}))

    def save(self, filename, **kwargs):
        LOG.append(("save", self, (filename, self.fig.content()), kwargs))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Opaque("animation." + name)
