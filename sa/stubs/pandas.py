"""Tables as far as they are filled, stored, formatted and printed."""
import numpy as np
from _opaque import LOG, Opaque

FILES = {}


class Index:
    def __init__(self, data=None, name=None, **kwargs):
        self.values = list(data)
        self.name = name

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, key):
        return self.values[key]

    def tolist(self):
        return self.values


class MultiIndex(Index):
    def from_product(iterables, **kwargs):
        out = [()]
        for it in iterables:
            out = [p + (x,) for p in out for x in it]
        return MultiIndex(out)

    def from_tuples(tuples, **kwargs):
        return MultiIndex([tuple(t) for t in tuples])


class Series:
    def __init__(self, data):
        self.data = data

    @property
    def values(self):
        return list(self.data)

    def apply(self, f, **kwargs):
        return Series([f(x) for x in self.values])

    def map(self, f, **kwargs):
        return Series([f(x) for x in self.values])

    def to_numpy(self):
        return np.array(self.data)

    def __array__(self):
        return np.array(self.data)

    def tolist(self):
        return self.values

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, key):
        return self.values[key]


class Rows:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        return self.frame[key]

    def __setitem__(self, key, row):
        self.frame.put(key, row)


class Positions:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        if isinstance(key, tuple):
            return self.frame.rows(key[0]).cut(key[1])
        return self.frame.rows(key)


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, **kwargs):
        self.columns = [] if columns is None else list(columns)
        self.index = [] if index is None else list(index)
        self.data = {}
        if data is None:
            for c in self.columns:
                self.data[c] = []
        elif isinstance(data, dict):
            for key in data:
                self[key] = data[key]
        else:
            data = np.array(data)
            if columns is None:
                self.columns = list(range(data.shape[1]))
            if index is None:
                self.index = list(range(data.shape[0]))
            if data.shape[1] != len(self.columns) or data.shape[0] != len(self.index):
                raise ValueError("Shape of passed values does not fit")
            for k in range(len(self.columns)):
                self.data[self.columns[k]] = [data[i, k] for i in range(data.shape[0])]

    def key(self, key):
        if not isinstance(key, tuple):
            for c in self.columns:
                if isinstance(c, tuple) and c[0] == key and all([x == "" for x in c[1:]]):
                    return c
        return key

    def __setitem__(self, key, value):
        key = self.key(key)
        if key not in self.columns:
            self.columns.append(key)
        value = list(value)
        if len(self.index) > 0 and len(value) != len(self.index):
            raise ValueError("Length of values does not match length of index")
        self.data[key] = value
        if len(self.index) == 0:
            self.index = list(range(len(self.data[key])))

    def __getitem__(self, key):
        if isinstance(key, (str, tuple, int)):
            return Series(self.data[self.key(key)])
        if isinstance(key, list):
            return self.reindex(columns=key)
        return Selection(self, key)

    @property
    def loc(self):
        return Rows(self)

    @property
    def iloc(self):
        return Positions(self)

    def put(self, key, row):
        row = list(row)
        if len(row) != len(self.columns):
            raise ValueError("cannot set a row with mismatched columns")
        if key in self.index:
            k = self.index.index(key)
            for c, x in zip(self.columns, row):
                self.data[c][k] = x
        else:
            self.index.append(key)
            for c, x in zip(self.columns, row):
                self.data[c].append(x)

    def rows(self, key):
        out = DataFrame(columns=self.columns, index=self.index[key])
        for c in self.columns:
            out.data[c] = self.data[c][key]
        return out

    def cut(self, key):
        cols = self.columns[key]
        out = DataFrame(columns=cols, index=self.index)
        for c in cols:
            out.data[c] = self.data[c]
        return out

    def reindex(self, columns=None, **kwargs):
        out = DataFrame(columns=columns, index=self.index)
        for c in out.columns:
            out.data[c] = self.data[c]
        return out

    def insert(self, loc, column, value, **kwargs):
        self.columns.insert(loc, column)
        self.data[column] = list(value)

    @property
    def values(self):
        return np.array([[self.data[c][k] for c in self.columns] for k in range(len(self.index))])

    def to_numpy(self, *args, **kwargs):
        return self.values

    @property
    def shape(self):
        return (len(self.index), len(self.columns))

    def copy(self, *args, **kwargs):
        return self.rows(slice(None))

    def __len__(self):
        return len(self.index)

    def describe(self, *args, **kwargs):
        out = Opaque("description")
        LOG.append(("describe", self, (out,), kwargs))
        return out

    def hist(self, *args, **kwargs):
        LOG.append(("hist", self, args, kwargs))

    def to_csv(self, path, mode="w", header=True, **kwargs):
        if mode == "w":
            FILES[path] = []
        elif path not in FILES:
            FILES[path] = []
        if header:
            FILES[path].append(("header", list(self.columns)))
        for k in range(len(self.index)):
            FILES[path].append(("row", self.index[k], [self.data[c][k] for c in self.columns]))
        LOG.append(("to_csv", self, (path, mode, header), kwargs))


class Selection:
    """The rows of a table chosen by a condition."""

    def __init__(self, frame, mask):
        self.frame = frame
        self.mask = mask

    def copy(self, *args, **kwargs):
        return self

    @property
    def values(self):
        return self.frame.values[self.mask]

    def to_csv(self, path, mode="w", header=True, **kwargs):
        LOG.append(("to_csv", self, (path, mode, header), kwargs))


def concat(frames, axis=0, **kwargs):
    frames = [f for f in frames if f is not None]
    out = frames[0].copy()
    for f in frames[1:]:
        if f.columns != out.columns:
            raise ValueError("columns differ")
        out.index = out.index + f.index
        for c in out.columns:
            out.data[c] = out.data[c] + f.data[c]
    return out


def read_csv(path, header=0, index_col=None, **kwargs):
    LOG.append(("read_csv", None, (path, header, index_col), kwargs))
    if path not in FILES:
        raise FileNotFoundError(path)
    lines = FILES[path]
    if len(lines) == 0 or lines[0][0] != "header":
        raise ValueError("no header")
    rows = lines[1:]
    if any([r[0] == "header" for r in rows]):
        raise ValueError("a header in between")
    columns = lines[0][1]
    levels = len(columns[0]) if isinstance(columns[0], tuple) else 1
    given = len(header) if isinstance(header, list) else 1
    if levels != given:
        raise ValueError("the header has %d lines" % levels)
    if isinstance(header, list) and header != list(range(levels)):
        raise ValueError("the header is in the first %d lines" % levels)
    if index_col is None:
        columns = [("index",) * levels if levels > 1 else "index"] + columns
        out = DataFrame(columns=columns, index=list(range(len(rows))))
        for k in range(len(columns)):
            out.data[columns[k]] = [r[1] if k == 0 else r[2][k - 1] for r in rows]
        return out
    out = DataFrame(columns=columns, index=[r[1] for r in rows])
    for k in range(len(columns)):
        out.data[columns[k]] = [r[2][k] for r in rows]
    return out
