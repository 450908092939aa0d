"""Stand-in for the small part of pandas the experiment scripts use: columns are numpy arrays, an index, csv in and out.
HOOK(when, path) is called before and after every file is written."""
import csv as _csv, io, os
import numpy as np
from stubgap import StubGap, module_getattr

__getattr__ = module_getattr("pandas")
__version__ = "2.0.2"
HOOK = [None]
NA = nan = float("nan")


def _isna(x):
    return x is None or (isinstance(x, (float, np.floating)) and x != x)


def isna(x):
    if isinstance(x, Series):
        return Series([_isna(v) for v in x.arr], x.index, x.name)
    if np.ndim(x):
        return np.array([_isna(v) for v in np.asarray(x, dtype=object).ravel()])
    return _isna(x)
isnull = isna
def notna(x):
    r = isna(x)
    return ~r if not isinstance(r, bool) else not r
notnull = notna


def _arr(xs):
    if isinstance(xs, Series):
        return xs.arr.copy()
    if isinstance(xs, np.ndarray) and xs.ndim == 1:
        return xs.copy()
    xs = list(xs)
    if any(isinstance(x, (str, bytes, list, tuple, dict)) for x in xs):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a
    xs = [np.nan if x is None else x for x in xs]
    if not xs:
        return np.array([], dtype=object)
    return np.array(xs)


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index = list(data) if index is None else index
            data = list(data.values())
        self.arr = _arr([] if data is None else data)
        if dtype is not None:
            self.arr = self.arr.astype(dtype)
        self.index = list(range(len(self.arr))) if index is None else list(index)
        self.name = name
    values = property(lambda s: s.arr)
    array = values
    shape = property(lambda s: s.arr.shape)
    size = property(lambda s: s.arr.size)
    dtype = property(lambda s: s.arr.dtype)
    empty = property(lambda s: s.arr.size == 0)
    def __len__(self): return len(self.arr)
    def __iter__(self): return iter(self.arr.tolist())
    def __array__(self, dtype=None): return self.arr if dtype is None else self.arr.astype(dtype)
    def to_numpy(self, *a, **k): return self.arr.copy()
    def to_list(self): return self.arr.tolist()
    tolist = to_list
    def items(self): return zip(self.index, self.arr.tolist())
    def copy(self, *a, **k): return Series(self.arr, self.index, self.name)
    def unique(self): return self._uniq()
    def _uniq(self):
        seen, out = set(), []
        for i, v in enumerate(self.arr.tolist()):
            key = "nan" if _isna(v) else v
            if key not in seen:
                seen.add(key); out.append(self.arr[i])
        return _arr(out)
    def nunique(self, dropna=True): return len([v for v in self._uniq().tolist() if not (dropna and _isna(v))])
    def drop_duplicates(self, keep="first", **k): return Series(self._uniq(), name=self.name)
    def value_counts(self, **k):
        d = {}
        for v in self.arr.tolist():
            d[v] = d.get(v, 0) + 1
        ks = sorted(d, key=lambda v: -d[v])
        return Series([d[v] for v in ks], ks, self.name)
    def dropna(self):
        k = [i for i, v in enumerate(self.arr) if not _isna(v)]
        return Series(self.arr[k], [self.index[i] for i in k], self.name)
    def _num(self): return np.array([v for v in self.arr.tolist() if not _isna(v)], dtype=float)
    def mean(self): return float(self._num().mean()) if len(self._num()) else NA
    def std(self, ddof=1): return float(self._num().std(ddof=ddof)) if len(self._num()) > ddof else NA
    def sum(self): return self._num().sum() if self.arr.dtype.kind == "f" else self.arr.sum()
    def min(self): return self._num().min() if len(self._num()) else NA
    def max(self): return self._num().max() if len(self._num()) else NA
    def median(self): return float(np.median(self._num())) if len(self._num()) else NA
    def count(self): return len(self._num())
    def isna(self): return isna(self)
    isnull = isna
    def notna(self): return Series([not _isna(v) for v in self.arr], self.index, self.name)
    def isin(self, xs):
        xs = list(xs)
        return Series([v in xs for v in self.arr.tolist()], self.index, self.name)
    def astype(self, t): return Series(self.arr.astype(t), self.index, self.name)
    def apply(self, f): return Series([f(v) for v in self.arr.tolist()], self.index, self.name)
    map = apply
    def all(self): return bool(np.all(self.arr.astype(bool)))
    def any(self): return bool(np.any(self.arr.astype(bool)))
    def head(self, n=5): return Series(self.arr[:n], self.index[:n], self.name)
    def tail(self, n=5): return Series(self.arr[-n:] if n else self.arr[:0], self.index[-n:] if n else [], self.name)
    def reset_index(self, drop=False): return Series(self.arr, name=self.name)
    def _op(self, o, f):
        o = o.arr if isinstance(o, Series) else o
        return Series(f(self.arr, o), self.index, self.name)
    def __eq__(self, o): return self._op(o, lambda a, b: np.array([x == y for x, y in zip(a, b)]) if isinstance(b, np.ndarray) else np.array([x == b for x in a.tolist()], dtype=bool))
    def __ne__(self, o): return ~(self == o)
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __and__(self, o): return self._op(o, lambda a, b: a & b)
    def __or__(self, o): return self._op(o, lambda a, b: a | b)
    def __invert__(self): return Series(~self.arr.astype(bool), self.index, self.name)
    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    __radd__, __rmul__ = __add__, __mul__
    __hash__ = None
    def __getitem__(self, k):
        if isinstance(k, (Series, np.ndarray)) and np.asarray(k).dtype == bool:
            m = np.flatnonzero(np.asarray(k))
            return Series(self.arr[m], [self.index[i] for i in m], self.name)
        if isinstance(k, slice):
            return Series(self.arr[k], self.index[k], self.name)
        return self.arr[self.index.index(k)]
    @property
    def iloc(self): return _At(lambda k: Series(self.arr[k], self.index[k], self.name) if isinstance(k, slice) else self.arr[k])
    @property
    def loc(self): return _At(self.__getitem__)


class _At:
    def __init__(self, f): self.f = f
    def __getitem__(self, k): return self.f(k)


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        self._c = {}
        n = None
        if isinstance(data, DataFrame):
            self._c = {k: v.copy() for k, v in data._c.items()}
            index = data.index if index is None else index
            n = len(data)
        elif isinstance(data, dict):
            lens = {len(v) for v in data.values() if np.ndim(v) or isinstance(v, (list, tuple, Series))}
            if len(lens) > 1:
                raise ValueError("All arrays must be of the same length")
            n = lens.pop() if lens else (len(index) if index is not None else 0)
            for k, v in data.items():
                self._c[k] = _arr(v) if (np.ndim(v) or isinstance(v, (list, tuple, Series))) else _arr([v] * n)
            if columns is not None:
                self._c = {k: self._c.get(k, _arr([np.nan] * n)) for k in columns}
        elif data is not None and len(data):
            rows = list(data)
            n = len(rows)
            if isinstance(rows[0], dict):
                keys = list(columns) if columns is not None else list(dict.fromkeys(k for r in rows for k in r))
                for k in keys:
                    self._c[k] = _arr([r.get(k, np.nan) for r in rows])
            else:
                w = max(len(r) for r in rows)
                cols = list(columns) if columns is not None else list(range(w))
                if w != len(cols):
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(cols), w))
                for i, k in enumerate(cols):
                    self._c[k] = _arr([r[i] if i < len(r) else None for r in rows])
        else:
            n = len(index) if index is not None else 0
            for k in columns if columns is not None else []:
                self._c[k] = _arr([np.nan] * n) if n else _arr([])
        self.index = list(range(n or 0)) if index is None else list(index)
    # ---- shape
    columns = property(lambda s: _Cols(s._c), lambda s, v: s._rename(v))
    shape = property(lambda s: (len(s.index), len(s._c)))
    size = property(lambda s: len(s.index) * len(s._c))
    empty = property(lambda s: not s.index or not s._c)
    values = property(lambda s: s.to_numpy())
    dtypes = property(lambda s: Series([v.dtype for v in s._c.values()], list(s._c)))
    def _rename(self, v):
        v = list(v)
        if len(v) != len(self._c):
            raise ValueError("Length mismatch")
        self._c = dict(zip(v, self._c.values()))
    def __len__(self): return len(self.index)
    def __iter__(self): return iter(self._c)
    def __contains__(self, k): return k in self._c
    def keys(self): return list(self._c)
    def items(self): return [(k, self[k]) for k in self._c]
    def copy(self, *a, **k): return DataFrame(self)
    def to_numpy(self, *a, **k):
        return np.array([[c[i] for c in self._c.values()] for i in range(len(self))], dtype=object)
    def to_dict(self, orient="dict", **k):
        if orient == "records":
            return [{c: v[i].item() if hasattr(v[i], "item") else v[i] for c, v in self._c.items()} for i in range(len(self))]
        if orient == "list":
            return {c: v.tolist() for c, v in self._c.items()}
        return {c: dict(zip(self.index, v.tolist())) for c, v in self._c.items()}
    # ---- access
    def __getitem__(self, k):
        if isinstance(k, (Series, np.ndarray)) and np.asarray(k).dtype == bool:
            return self._take(np.flatnonzero(np.asarray(k)))
        if isinstance(k, DataFrame):
            raise StubGap("DataFrame[DataFrame]")
        if isinstance(k, slice):
            return self._take(range(len(self))[k])
        if isinstance(k, (list, _Cols)):
            d = DataFrame(index=self.index)
            d._c = {c: self._c[c].copy() for c in k}
            return d
        if k not in self._c:
            raise KeyError(k)
        return Series(self._c[k], self.index, k)
    def __getattr__(self, k):
        if k.startswith("_") or k not in self.__dict__.get("_c", {}):
            if k.startswith("__") or k == "_c":
                raise AttributeError(k)
            raise StubGap("DataFrame.%s" % k)
        return self[k]
    def __setitem__(self, k, v):
        if not self._c and not self.index and (np.ndim(v) or isinstance(v, (list, tuple, Series))):
            self.index = list(range(len(v)))
        if np.ndim(v) or isinstance(v, (list, tuple, Series)):
            if len(v) != len(self.index):
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), len(self.index)))
            self._c[k] = _arr(v)
        else:
            self._c[k] = _arr([v] * len(self.index))
    def assign(self, **kw):
        d = self.copy()
        for k, v in kw.items():
            d[k] = v(d) if callable(v) else v
        return d
    def insert(self, loc, column, value, **k):
        self[column] = value
        ks = [c for c in self._c if c != column]
        ks.insert(loc, column)
        self._c = {c: self._c[c] for c in ks}
    def _take(self, ix):
        ix = [int(i) for i in ix]
        d = DataFrame(index=[self.index[i] for i in ix])
        d._c = {c: v[ix] for c, v in self._c.items()}
        return d
    def head(self, n=5): return self._take(range(len(self))[:n])
    def tail(self, n=5): return self._take(range(len(self))[-n:] if n else [])
    def _row(self, i): return Series([v[i] for v in self._c.values()], list(self._c), self.index[i])
    @property
    def iloc(self):
        def f(k):
            if isinstance(k, tuple):
                r, c = k
                return list(self._c.values())[c][r] if isinstance(r, (int, np.integer)) and isinstance(c, (int, np.integer)) else Series(list(self._c.values())[c][r])
            if isinstance(k, (int, np.integer)):
                return self._row(k)
            return self._take(range(len(self))[k] if isinstance(k, slice) else k)
        return _At(f)
    @property
    def loc(self):
        def f(k):
            if isinstance(k, tuple):
                return self.loc[k[0]][k[1]]
            if isinstance(k, (Series, np.ndarray)) and np.asarray(k).dtype == bool:
                return self[k]
            ix = [i for i, v in enumerate(self.index) if v == k]
            if not ix:
                raise KeyError(k)
            return self._row(ix[0]) if len(ix) == 1 else self._take(ix)
        return _At(f)
    def iterrows(self):
        for i in range(len(self)):
            yield self.index[i], self._row(i)
    def itertuples(self, index=True, name="Pandas"):
        from collections import namedtuple
        try:
            t = namedtuple(name, (["Index"] if index else []) + [str(c) for c in self._c])
        except ValueError:
            t = lambda *a: a
        for i in range(len(self)):
            yield t(*(([self.index[i]] if index else []) + [v[i] for v in self._c.values()]))
    # ---- transformations
    def reset_index(self, drop=False, inplace=False, **k):
        d = self.copy()
        d.index = list(range(len(self)))
        if not drop:
            d._c = {"index": _arr(self.index), **d._c}
        if inplace:
            self._c, self.index = d._c, d.index
            return None
        return d
    def drop_duplicates(self, subset=None, keep="first", **k):
        subset = list(self._c) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
        seen = {}
        for i in range(len(self)):
            key = tuple("nan" if _isna(self._c[c][i]) else self._c[c][i] for c in subset)
            if key not in seen or keep == "last":
                seen[key] = i
        return self._take(sorted(seen.values()))
    def drop(self, labels=None, axis=0, columns=None, errors="raise", **k):
        cols = columns if columns is not None else labels if axis in (1, "columns") else None
        if cols is None:
            ls = labels if isinstance(labels, (list, tuple)) else [labels]
            return self._take([i for i, v in enumerate(self.index) if v not in ls])
        cols = [cols] if isinstance(cols, str) else list(cols)
        d = self.copy()
        for c in cols:
            d._c.pop(c, None) if errors == "ignore" else d._c.pop(c)
        return d
    def sort_values(self, by, ascending=True, **k):
        by = [by] if isinstance(by, str) else list(by)
        ix = sorted(range(len(self)), key=lambda i: tuple(self._c[c][i] for c in by), reverse=not ascending)
        return self._take(ix)
    def rename(self, columns=None, **k):
        d = self.copy()
        d._c = {(columns or {}).get(c, c): v for c, v in d._c.items()}
        return d
    def groupby(self, by, **k):
        by_ = [by] if isinstance(by, str) else list(by)
        g = {}
        for i in range(len(self)):
            key = tuple(self._c[c][i] for c in by_)
            g.setdefault(key[0] if isinstance(by, str) else key, []).append(i)
        return [(key, self._take(ix)) for key, ix in g.items()]
    def dropna(self, **k): return self._take([i for i in range(len(self)) if not any(_isna(v[i]) for v in self._c.values())])
    def isna(self):
        d = self.copy()
        d._c = {c: np.array([_isna(x) for x in v]) for c, v in self._c.items()}
        return d
    def nunique(self): return Series([self[c].nunique() for c in self._c], list(self._c))
    def mean(self, **k): return Series([self[c].mean() for c in self._c], list(self._c))
    def append(self, other, ignore_index=False, **k): raise AttributeError("'DataFrame' object has no attribute 'append'")
    def equals(self, o): return list(self._c) == list(o._c) and self.to_csv() == o.to_csv()
    def __repr__(self): return "DataFrame(%d x %d)" % self.shape
    # ---- files
    def to_csv(self, path=None, index=True, header=True, mode="w", sep=",", **k):
        b = io.StringIO()
        w = _csv.writer(b, delimiter=sep, lineterminator="\n")
        if header:
            w.writerow(([""] if index else []) + list(self._c))
        cols = list(self._c.values())
        for i in range(len(self)):
            w.writerow(([self.index[i]] if index else []) + ["" if _isna(c[i]) else _text(c[i]) for c in cols])
        if path is None:
            return b.getvalue()
        if hasattr(path, "write"):
            path.write(b.getvalue())
            return None
        if HOOK[0]:
            HOOK[0]("before", str(path))
        with open(path, mode) as f:
            f.write(b.getvalue())
        if HOOK[0]:
            HOOK[0]("after", str(path))
        return None


class _Cols:
    def __init__(self, c): self.c = list(c)
    def __iter__(self): return iter(self.c)
    def __len__(self): return len(self.c)
    def __getitem__(self, i): return self.c[i]
    def __contains__(self, k): return k in self.c
    def __eq__(self, o): return self.c == list(o)
    def __add__(self, o): return self.c + list(o)
    __hash__ = None
    def tolist(self): return list(self.c)
    to_list = tolist
    def difference(self, o): return [c for c in self.c if c not in list(o)]
    def __repr__(self): return "Index(%r)" % self.c


def _text(x):
    if isinstance(x, (np.bool_, bool)):
        return str(bool(x))
    if isinstance(x, (np.integer, int)):
        return str(int(x))
    if isinstance(x, (np.floating, float)):
        return repr(float(x))
    return x


def concat(objs, ignore_index=False, axis=0, **k):
    objs = [o for o in (objs.values() if isinstance(objs, dict) else objs) if o is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    if axis not in (0, "index"):
        raise StubGap("concat axis")
    if isinstance(objs[0], Series):
        return Series([v for o in objs for v in o.arr], [i for o in objs for i in o.index] if not ignore_index else None)
    cols = list(dict.fromkeys(c for o in objs for c in o._c))
    d = DataFrame(index=[i for o in objs for i in o.index])
    d._c = {c: _arr([v for o in objs for v in (o._c[c] if c in o._c else [np.nan] * len(o))]) for c in cols}
    if ignore_index:
        d.index = list(range(len(d)))
    return d


class errors:
    class EmptyDataError(ValueError):
        pass
EmptyDataError = errors.EmptyDataError


def read_csv(path, index_col=None, sep=",", **k):
    with (path if hasattr(path, "read") else open(path, newline="")) as f:
        rows = list(_csv.reader(f, delimiter=sep))
    if not rows:
        raise errors.EmptyDataError("No columns to parse from file")
    head, rows = rows[0], [r for r in rows[1:] if r]
    head = [h if h != "" else "Unnamed: %d" % i for i, h in enumerate(head)]
    cols = {h: [r[i] if i < len(r) else "" for r in rows] for i, h in enumerate(head)}
    out = {h: _parse(v) for h, v in cols.items()}
    index = None
    if index_col is not None and index_col is not False:
        name = head[index_col] if isinstance(index_col, int) else index_col
        index = out.pop(name).tolist()
    d = DataFrame(index=index if index is not None else range(len(rows)))
    d._c = out
    return d


def _parse(v):
    full = [x for x in v if x not in ("", "nan", "NaN", "NA")]
    for f in (int, float):
        try:
            p = [f(x) for x in full]
        except ValueError:
            continue
        if len(full) == len(v):
            return np.array(p) if v else np.array([], dtype=object)
        it = iter(p)
        return np.array([float(next(it)) if x not in ("", "nan", "NaN", "NA") else np.nan for x in v])
    if full and set(full) <= {"True", "False"} and len(full) == len(v):
        return np.array([x == "True" for x in v])
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x if x not in ("", "nan", "NaN", "NA") else np.nan
    return a
