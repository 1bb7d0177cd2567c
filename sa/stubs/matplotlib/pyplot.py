"""Figures as far as their content is observed: which values are drawn in which
axes, with which label, and what is saved where."""
from _opaque import LOG, Opaque


class Line:
    def __init__(self, axes, args, kwargs):
        self.axes = axes
        self.args = args
        self.kwargs = kwargs
        self.label = kwargs.get("label")
        self.x = args[0]
        self.y = args[1] if len(args) > 1 else None

    def get_label(self):
        return self.label

    def get_xdata(self, *args, **kwargs):
        return self.x

    def get_ydata(self, *args, **kwargs):
        return self.y

    def set_label(self, s):
        self.label = s

    def set_ydata(self, y):
        self.y = y
        LOG.append(("ydata", self, (y,), {}))

    def set_data(self, *args):
        if len(args) == 2:
            self.x = args[0]
            self.y = args[1]
        LOG.append(("data", self, args, {}))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Opaque("line." + name)


class Axes:
    def __init__(self, figure, index):
        self.figure = figure
        self.index = index
        self.lines = []
        self.has_legend = False
        self.texts = {}
        self.fills = []
        self.points = []
        self.limits = {}
        self.transAxes = Opaque("transAxes")

    def plot(self, *args, **kwargs):
        line = Line(self, args, kwargs)
        self.lines.append(line)
        LOG.append(("plot", self, args, kwargs))
        return [line]

    def legend(self, *args, **kwargs):
        self.has_legend = True
        LOG.append(("legend", self, args, kwargs))
        return Opaque("legend")

    def fill_between(self, x, y1, y2=0, **kwargs):
        self.fills.append((x, y1, y2))
        LOG.append(("fill", self, (x, y1, y2), kwargs))

    def scatter(self, x, y, *args, **kwargs):
        self.points.append((x, y, kwargs.get("label")))
        LOG.append(("scatter", self, (x, y), kwargs))
        return Opaque("points")

    def set_xlim(self, left=None, right=None, **kwargs):
        self.limits["x"] = left if right is None else (left, right)

    def set_ylim(self, bottom=None, top=None, **kwargs):
        self.limits["y"] = bottom if top is None else (bottom, top)

    def get_ylim(self):
        return (0.0, 1.0)

    def get_xlim(self):
        return (0.0, 1.0)

    def get_lines(self):
        return self.lines

    def get_legend_handles_labels(self):
        return (list(self.lines), [x.label for x in self.lines if x.label is not None])

    def set_xlabel(self, text, **kwargs):
        self.texts["xlabel"] = text

    def set_ylabel(self, text, **kwargs):
        self.texts["ylabel"] = text

    def set_title(self, text, **kwargs):
        self.texts["title"] = text

    def text(self, x, y, s, **kwargs):
        return Text(s)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Opaque("axes." + name)


class Text:
    def __init__(self, s):
        self.s = s

    def set_text(self, s):
        self.s = s
        LOG.append(("text", self, (s,), {}))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Opaque("text." + name)


class Figure:
    def __init__(self, num=None):
        self.num = num
        self.axes = []
        self.closed = False
        self.title = None
        self.options = {}

    def suptitle(self, text, **kwargs):
        self.title = text
        LOG.append(("suptitle", self, (text,), kwargs))

    def savefig(self, path, **kwargs):
        if path is None:
            raise TypeError("a path or a file is expected")
        LOG.append(("savefig", self, (path, self.content()), kwargs))

    def content(self):
        """What is to be seen in each of the axes."""
        return [[(x.x, x.y, x.label) for x in a.lines] for a in self.axes]

    def legends(self):
        return [a.has_legend for a in self.axes]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Opaque("figure." + name)


_FIGURES = []
_CURRENT = []


def figure(num=None, **kwargs):
    if num is not None:
        for f in _FIGURES:
            if f.num == num and not f.closed:
                _CURRENT.append(f)
                return f
    f = Figure(num)
    _FIGURES.append(f)
    _CURRENT.append(f)
    return f


def subplots(nrows=1, ncols=1, num=None, **kwargs):
    f = figure(num)
    f.options = kwargs
    out = []
    # a figure of that name which is still open keeps its axes
    for i in range(nrows * ncols):
        out.append(Axes(f, i))
    for a in out:
        f.axes.append(a)
    if nrows * ncols == 1:
        return (f, out[0])
    if nrows == 1 or ncols == 1:
        return (f, out)
    return (f, [[out[i * ncols + j] for j in range(ncols)] for i in range(nrows)])


def gcf():
    if len(_CURRENT) == 0:
        return figure()
    return _CURRENT[-1]


def gca():
    f = gcf()
    if len(f.axes) == 0:
        f.axes.append(Axes(f, 0))
    return f.axes[-1]


def plot(*args, **kwargs):
    return gca().plot(*args, **kwargs)


def legend(*args, **kwargs):
    return gca().legend(*args, **kwargs)


def suptitle(text, **kwargs):
    gcf().suptitle(text, **kwargs)


def savefig(path, **kwargs):
    gcf().savefig(path, **kwargs)


def xlabel(text, **kwargs):
    gca().set_xlabel(text)


def ylabel(text, **kwargs):
    gca().set_ylabel(text)


def show(*args, **kwargs):
    LOG.append(("show", None, [f.content() for f in _CURRENT], kwargs))


def close(fig=None):
    LOG.append(("close", fig, (), {}))
    if fig is None:
        if len(_CURRENT) > 0:
            f = _CURRENT.pop()
            f.closed = True
    elif fig == "all":
        for f in _FIGURES:
            f.closed = True
        _CURRENT.clear()
    elif isinstance(fig, Figure):
        fig.closed = True
        if fig in _CURRENT:
            _CURRENT.remove(fig)
