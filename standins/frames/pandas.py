"""Stand-in for the parts of pandas (absent here) that the experiment scripts use or could use.

Files are written row by row; ON_ROW, if set, is called with the path and the number of lines written so far,
which is where crashes are injected.
"""
import csv
import io
import os

import numpy as np

ON_ROW = None
STATS = {"to_csv": 0, "read_csv": 0, "rows_written": 0}


def _column(values):
    if isinstance(values, Series):
        values = values.values
    if isinstance(values, np.ndarray) and values.ndim == 1:
        return values.copy()
    values = list(values)
    if values and all(isinstance(v, (bool, np.bool_)) for v in values):
        return np.array(values, dtype=bool)
    if values and all(isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) for v in values):
        try:
            return np.array([int(v) for v in values], dtype=np.int64)
        except OverflowError:
            return np.array([int(v) for v in values], dtype=object)
    if values and all(isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_)) for v in values):
        return np.array([float(v) for v in values])
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    return out


def _scalar(v):
    return isinstance(v, (str, bytes, int, float, np.generic)) or v is None


class _ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, Series):
            return o.values[k] if isinstance(k, (int, np.integer)) else Series(o.values[k], o.index[k], o.name)
        if isinstance(k, (int, np.integer)):
            return {c: o._d[c][k] for c in o._d}
        if isinstance(k, tuple):
            r, c = k
            return o[o.columns[c]].iloc[r]
        return o._take(np.arange(len(o))[k])


class Series:
    def __init__(self, data=None, index=None, name=None):
        self.values = _column([] if data is None else data)
        self.index = np.arange(len(self.values)) if index is None else np.asarray(index)
        self.name = name

    shape = property(lambda s: s.values.shape)
    size = property(lambda s: s.values.size)
    dtype = property(lambda s: s.values.dtype)
    empty = property(lambda s: len(s.values) == 0)
    iloc = property(_ILoc)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values.tolist())

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.values, dtype=dtype)

    def unique(self):
        out, seen = [], set()
        for v in self.values.tolist():
            k = "nan" if v != v else v
            if k not in seen:
                seen.add(k)
                out.append(v)
        return _column(out)

    def nunique(self, dropna=True):
        return len([v for v in self.unique() if not (dropna and v != v)])

    def to_list(self):
        return self.values.tolist()

    tolist = to_list

    def to_numpy(self):
        return self.values.copy()

    def isna(self):
        return Series([v is None or v != v for v in self.values.tolist()], self.index)

    isnull = isna

    def dropna(self):
        m = ~self.isna().values.astype(bool)
        return Series(self.values[m], self.index[m], self.name)

    def isin(self, what):
        what = set(what)
        return Series(np.array([v in what for v in self.values.tolist()], dtype=bool), self.index)

    def _num(self):
        return np.array([float(v) for v in self.dropna().values])

    def mean(self):
        a = self._num()
        return float(a.mean()) if len(a) else float("nan")

    def std(self, ddof=1):
        a = self._num()
        return float(a.std(ddof=ddof)) if len(a) > ddof else float("nan")

    def sum(self):
        return self.values.sum()

    def max(self):
        return self.values.max()

    def min(self):
        return self.values.min()

    def __getitem__(self, k):
        if isinstance(k, Series):
            k = k.values
        if isinstance(k, (int, np.integer)):
            hit = np.nonzero(self.index == k)[0]
            if not len(hit):
                raise KeyError(k)
            return self.values[hit[0]]
        k = np.asarray(k)
        return Series(self.values[k], self.index[k], self.name)

    def _bin(self, o, f):
        return Series(f(self.values, o.values if isinstance(o, Series) else o), self.index, self.name)


def _ops():
    import operator as op
    for n in ("eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "mul", "truediv", "and_", "or_"):
        f = getattr(op, n)
        setattr(Series, "__%s__" % n.rstrip("_"), (lambda f: lambda s, o: s._bin(o, f))(f))
    Series.__invert__ = lambda s: Series(~s.values.astype(bool), s.index)
    Series.__hash__ = None


_ops()


class DataFrame:
    def __init__(self, data=None, index=None, columns=None):
        self._d = {}
        n = None
        if isinstance(data, DataFrame):
            self._d = {c: v.copy() for c, v in data._d.items()}
            self.index = data.index.copy()
            return
        if data is None:
            data = []
        if isinstance(data, dict):
            lens = {len(v) for v in data.values() if not _scalar(v)}
            if len(lens) > 1:
                raise ValueError("All arrays must be of the same length")
            n = lens.pop() if lens else (1 if data else 0)
            for c, v in data.items():
                self._d[c] = _column([v] * n if _scalar(v) else v)
            if columns is not None:
                self._d = {c: self._d.get(c, _column([float("nan")] * n)) for c in columns}
        else:
            rows = list(data)
            n = len(rows)
            if rows and isinstance(rows[0], dict):
                cols = list(columns) if columns is not None else list(dict.fromkeys(c for r in rows for c in r))
                for c in cols:
                    self._d[c] = _column([r.get(c, float("nan")) for r in rows])
            else:
                rows = [tuple(r) for r in rows]
                w = len(rows[0]) if rows else len(columns or [])
                cols = list(columns) if columns is not None else list(range(w))
                if any(len(r) != len(cols) for r in rows):
                    raise ValueError("%d columns passed, passed data had %d columns"
                                     % (len(cols), next(len(r) for r in rows if len(r) != len(cols))))
                for i, c in enumerate(cols):
                    self._d[c] = _column([r[i] for r in rows])
        self.index = np.arange(n) if index is None else np.asarray(index)

    iloc = property(_ILoc)

    @property
    def columns(self):
        return list(self._d)

    @property
    def shape(self):
        return (len(self.index), len(self._d))

    @property
    def empty(self):
        return 0 in self.shape

    @property
    def values(self):
        out = np.empty(self.shape, dtype=object)
        for j, c in enumerate(self._d):
            out[:, j] = self._d[c]
        return out

    def to_numpy(self):
        return self.values

    def __len__(self):
        return len(self.index)

    def __contains__(self, c):
        return c in self._d

    def __iter__(self):
        return iter(self._d)

    def _take(self, pos):
        out = DataFrame()
        out._d = {c: v[pos] for c, v in self._d.items()}
        out.index = self.index[pos]
        return out

    def __getitem__(self, k):
        if isinstance(k, Series) or (isinstance(k, np.ndarray) and k.dtype == bool):
            return self._take(np.asarray(k, dtype=bool))
        if isinstance(k, list):
            if k and isinstance(k[0], (bool, np.bool_)):
                return self._take(np.asarray(k, dtype=bool))
            out = DataFrame()
            out._d = {c: self._d[c].copy() for c in k}
            out.index = self.index.copy()
            return out
        if isinstance(k, slice):
            return self._take(np.arange(len(self))[k])
        return Series(self._d[k], self.index, k)

    def __getattr__(self, k):
        if not k.startswith("_") and k in self.__dict__.get("_d", {}):
            return self[k]
        raise AttributeError(k)

    def __setitem__(self, k, v):
        n = len(self.index)
        if _scalar(v):
            v = [v] * n
        v = _column(v)
        if self._d and len(v) != n:
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), n))
        if not self._d and n == 0:
            self.index = np.arange(len(v))
        self._d[k] = v

    def assign(self, **kw):
        out = self.copy()
        for k, v in kw.items():
            out[k] = v(out) if callable(v) else v
        return out

    def copy(self, deep=True):
        return DataFrame(self)

    def tail(self, n=5):
        return self._take(np.arange(len(self))[max(0, len(self) - n):] if n >= 0 else np.arange(len(self))[-n:])

    def head(self, n=5):
        return self._take(np.arange(len(self))[:n])

    def reset_index(self, drop=False):
        out = self.copy()
        out.index = np.arange(len(out))
        return out

    def sort_values(self, by, ascending=True, kind=None, ignore_index=False):
        by = [by] if isinstance(by, str) else by
        order = sorted(range(len(self)), key=lambda i: tuple(self._d[c][i] for c in by), reverse=not ascending)
        out = self._take(np.array(order, dtype=int))
        return out.reset_index() if ignore_index else out

    def drop_duplicates(self, subset=None, keep="first"):
        subset = [subset] if isinstance(subset, str) else subset or self.columns
        seen, pos = set(), []
        rng = range(len(self)) if keep == "first" else reversed(range(len(self)))
        for i in rng:
            k = tuple("nan" if self._d[c][i] != self._d[c][i] else self._d[c][i] for c in subset)
            if k not in seen:
                seen.add(k)
                pos.append(i)
        return self._take(np.array(sorted(pos), dtype=int))

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [{c: self._d[c].tolist()[i] for c in self._d} for i in range(len(self))]
        if orient == "list":
            return {c: v.tolist() for c, v in self._d.items()}
        return {c: dict(zip(self.index.tolist(), v.tolist())) for c, v in self._d.items()}

    def iterrows(self):
        for i in range(len(self)):
            yield self.index[i], {c: self._d[c][i] for c in self._d}

    def to_csv(self, path_or_buf=None, sep=",", na_rep="", float_format=None, columns=None, header=True, index=True, index_label=None, mode="w", **kw):
        STATS["to_csv"] += 1
        if columns is not None:
            return self[list(columns)].to_csv(path_or_buf, sep, na_rep, float_format, None, header, index, index_label, mode)
        text = lambda v: _text(v, na_rep, float_format)     # noqa: E731
        if path_or_buf is None:
            f = io.StringIO()
        elif hasattr(path_or_buf, "write"):
            f = path_or_buf
        else:
            f = open(os.fspath(path_or_buf), mode, newline="")
        try:
            w = csv.writer(f, lineterminator="\n", delimiter=sep)
            lines = ([([index_label or ""] if index else []) + self.columns] if header else [])
            for i in range(len(self)):
                lines.append(([text(self.index[i])] if index else []) + [text(self._d[c][i]) for c in self._d])
            for k, line in enumerate(lines):
                w.writerow(line)
                STATS["rows_written"] += 1
                if ON_ROW is not None:
                    f.flush()
                    ON_ROW(path_or_buf, k + 1)
            return f.getvalue() if path_or_buf is None else None
        finally:
            if f is not path_or_buf and path_or_buf is not None:
                f.close()


def _text(v, na_rep="", float_format=None):
    if v is None or v != v:
        return na_rep
    if isinstance(v, (float, np.floating)):
        if float_format is not None:
            return float_format(float(v)) if callable(float_format) else float_format % float(v) if "%" in float_format else float_format.format(float(v))
        return repr(float(v))
    return str(v)


class errors:
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass


def read_csv(filepath_or_buffer, sep=",", index_col=None, usecols=None, nrows=None, **kw):
    STATS["read_csv"] += 1
    if hasattr(filepath_or_buffer, "read"):
        rows = list(csv.reader(filepath_or_buffer, delimiter=sep))
    else:
        with open(os.fspath(filepath_or_buffer), newline="") as f:
            rows = list(csv.reader(f, delimiter=sep))
    rows = [r for r in rows if r]
    if not rows:
        raise errors.EmptyDataError("No columns to parse from file")
    head, rows = rows[0], rows[1:]
    if nrows is not None:
        rows = rows[:nrows]
    if any(len(r) > len(head) for r in rows):
        raise errors.ParserError("Error tokenizing data")
    rows = [r + [""] * (len(head) - len(r)) for r in rows]
    cols = {}
    for j, c in enumerate(head):
        name = base = c if c else "Unnamed: %d" % j
        k = 0
        while name in cols or not c and name in head:      # names are made different, as pandas does
            k += 1
            name = "%s.%d" % (base, k)
        cols[name] = _parse([r[j] for r in rows])
    if usecols is not None:
        cols = {c: v for j, (c, v) in enumerate(cols.items()) if (usecols(c) if callable(usecols) else c in usecols or j in usecols)}
    out = DataFrame()
    if index_col is None:
        out._d, out.index = cols, np.arange(len(rows))
    else:
        key = list(cols)[index_col] if isinstance(index_col, int) else index_col
        out.index = cols.pop(key)
        out._d = cols
    return out


def _parse(texts):
    na = {"", "nan", "NaN", "NA", "N/A", "null", "NULL", "None", "n/a", "<NA>", "-nan", "#N/A"}
    if all(t in na for t in texts):
        return np.full(len(texts), np.nan)
    try:
        if not any(t in na for t in texts):
            return np.array([int(t) for t in texts], dtype=np.int64)
    except (ValueError, OverflowError):
        pass
    try:
        return np.array([np.nan if t in na else float(t) for t in texts])
    except ValueError:
        pass
    if set(texts) <= {"True", "False"}:
        return np.array([t == "True" for t in texts])
    out = np.empty(len(texts), dtype=object)
    for i, t in enumerate(texts):
        out[i] = float("nan") if t in na else t
    return out


def concat(objs, axis=0, ignore_index=False, **kw):
    objs = [o for o in (objs.values() if isinstance(objs, dict) else objs) if o is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    if axis not in (0, "index"):
        raise NotImplementedError
    cols = list(dict.fromkeys(c for o in objs for c in o._d))
    out = DataFrame()
    for c in cols:
        vals = []
        for o in objs:
            vals += o._d[c].tolist() if c in o._d else [float("nan")] * len(o)
        out._d[c] = _column(vals)
    out.index = np.arange(sum(map(len, objs))) if ignore_index else np.concatenate([o.index for o in objs])
    return out


def isna(v):
    if isinstance(v, (Series,)):
        return v.isna()
    return v is None or v != v


isnull = isna
NA = float("nan")
