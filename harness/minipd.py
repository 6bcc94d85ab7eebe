"""A small stand-in for the parts of pandas which the Probe package uses
(pandas is not installed here): columns of Python values, an index of labels."""
import collections as _coll
import csv as _csv
import datetime as _dt
import gzip as _gzip
import math as _math
import operator as _op
import os as _os
import types as _types

nan = float("nan")
NaN = NA = nan


class Lacks(BaseException):
    """This stand-in does not know what pandas can do."""


# what pandas has, known here or not
_NAMES = set("""T abs add agg aggregate align all any append apply applymap asfreq asof assign astype at at_time attrs axes between
between_time bfill bool boxplot cat clip combine combine_first compare convert_dtypes copy corr corrwith count cov cummax cummin cumprod
cumsum describe diff div divide dot drop drop_duplicates droplevel dropna dtypes duplicated eq equals eval ewm expanding explode ffill
fillna filter first first_valid_index floordiv from_dict from_records ge get groupby gt head hist iat idxmax idxmin iloc infer_objects
info insert interpolate isin isna isnull items iteritems iterrows itertuples join kurt kurtosis last last_valid_index le loc lookup lt
mad map mask max mean median melt memory_usage merge min mod mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad
pct_change pipe pivot pivot_table plot pop pow prod product quantile query radd rank rdiv reindex rename rename_axis reorder_levels
replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes sem set_axis set_flags set_index
shift skew slice_shift sort_index sort_values sparse squeeze stack std style sub subtract sum swapaxes swaplevel tail take to_clipboard
to_csv to_dict to_excel to_feather to_hdf to_html to_json to_latex to_list tolist to_markdown to_numpy to_parquet to_period to_pickle
to_records to_sql to_stata to_string to_timestamp to_xarray transform transpose truediv truncate unstack update value_counts var view
where xs argmax argmin argsort factorize hasnans is_monotonic is_unique item nbytes ravel repeat searchsorted str dt unique""".split())


def _unknown(what, k):
    if k in _NAMES:
        raise Lacks("pandas %s.%s" % (what, k))
    raise AttributeError("'%s' object has no attribute %r" % (what, k))


def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    raise Lacks("pandas." + k)


def _rows_of(m):
    return [i for i, x in enumerate(m) if x]


def isna(x):
    if isinstance(x, Series):
        return x._map(isna)
    return x is None or (isinstance(x, float) and x != x)


isnull = isna


def notna(x):
    return ~isna(x) if isinstance(x, Series) else not isna(x)


notnull = notna


def _div(a, b):
    if b == 0:
        return nan if a == 0 or a != a else _math.copysign(float("inf"), a)
    return a / b


class _Seq(list):
    """A plain array: what unique() and an index are."""
    def tolist(self): return list(self)
    to_list = tolist
    def copy(self): return _Seq(self)
    def to_numpy(self): return self
    @property
    def values(self): return self
    @property
    def size(self): return len(self)


class _Str:
    def __init__(self, s):
        self.s = s

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k not in ("contains", "get", "len", "slice") and not hasattr("", k):
            raise Lacks("pandas Series.str." + k)
        def f(*a, **kw):
            kw.pop("regex", None)
            n = kw.pop("n", -1)
            if k in ("split", "rsplit"):
                if kw.pop("expand", False):
                    raise Lacks("pandas Series.str.split(expand)")
                return self.s._map(lambda x: getattr(x, k)(*((a or (kw.get("pat"),)) + ((n,) if n > 0 else ()))))
            if k == "get":
                return self.s._map(lambda x: x[a[0]] if -len(x) <= a[0] < len(x) else nan)
            if k == "len":
                return self.s._map(len)
            if k == "slice":
                return self.s._map(lambda x: x[slice(*a)])
            if k == "contains":
                low = not kw.get("case", True)
                return self.s._map(lambda x: (a[0].lower() in x.lower()) if low else a[0] in x)
            return self.s._map(lambda x: getattr(x, k)(*a))
        return f


def _str_item(self, k):
    return self.s._map(lambda x: x[k] if isinstance(k, slice) or -len(x) <= k < len(x) else nan)


_Str.__getitem__ = _str_item


class _Dates:
    def __init__(self, s):
        self.s = s

    def __getattr__(self, k):
        return self.s._map(lambda x: getattr(x, k)) if not callable(getattr(_dt.datetime, k)) else lambda *a: self.s._map(lambda x: getattr(x, k)(*a))


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index, name, data = data.index if index is None else index, data.name if name is None else name, data._v
        elif isinstance(data, dict):
            index, data = list(data.keys()), list(data.values())
        elif data is not None and (isinstance(data, str) or not hasattr(data, "__iter__")):
            data = [data] * (len(index) if index is not None else 1)
        self._v = list(data if data is not None else [])
        self.index = _Seq(index if index is not None else range(len(self._v)))
        self.name = name

    def _like(self, v):
        return Series(v, list(self.index), self.name)

    def _map(self, f):
        return self._like([f(x) for x in self._v])

    def _with(self, o, f):
        if isinstance(o, Series):
            if o.index != self.index:
                at = dict(zip(o.index, o._v))
                return self._like([f(x, at[i]) if i in at else nan for i, x in zip(self.index, self._v)])
            o = o._v
        elif not isinstance(o, (list, tuple)):
            return self._like([f(x, o) for x in self._v])
        return self._like([f(x, y) for x, y in zip(self._v, o)])

    def __add__(s, o): return s._with(o, _op.add)
    def __sub__(s, o): return s._with(o, _op.sub)
    def __mul__(s, o): return s._with(o, _op.mul)
    def __truediv__(s, o): return s._with(o, _div)
    def __floordiv__(s, o): return s._with(o, _op.floordiv)
    def __mod__(s, o): return s._with(o, _op.mod)
    def __pow__(s, o): return s._with(o, _op.pow)
    def __radd__(s, o): return s._with(o, lambda a, b: b + a)
    def __rsub__(s, o): return s._with(o, lambda a, b: b - a)
    def __rmul__(s, o): return s._with(o, lambda a, b: b * a)
    def __rtruediv__(s, o): return s._with(o, lambda a, b: _div(b, a))
    def __neg__(s): return s._map(_op.neg)
    def __abs__(s): return s._map(abs)
    def __eq__(s, o): return s._with(o, _op.eq)
    def __ne__(s, o): return s._with(o, _op.ne)
    def __lt__(s, o): return s._with(o, _op.lt)
    def __le__(s, o): return s._with(o, _op.le)
    def __gt__(s, o): return s._with(o, _op.gt)
    def __ge__(s, o): return s._with(o, _op.ge)
    def __and__(s, o): return s._with(o, lambda a, b: a and b if isinstance(a, bool) else a & b)
    def __or__(s, o): return s._with(o, lambda a, b: a or b if isinstance(a, bool) else a | b)
    def __xor__(s, o): return s._with(o, _op.xor)
    def __invert__(s): return s._map(lambda a: not a if isinstance(a, bool) else ~a)
    __hash__ = None
    add, sub, mul, truediv, div, eq, ne, lt, le, gt, ge = __add__, __sub__, __mul__, __truediv__, __truediv__, __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def __len__(self): return len(self._v)
    def __iter__(self): return iter(self._v)
    def __contains__(self, k): return k in self.index
    def __bool__(self): raise ValueError("The truth value of a Series is ambiguous.")
    def __repr__(self): return "Series(%r)" % self._v

    def __getitem__(self, k):
        if isinstance(k, Series) or isinstance(k, list) and all(isinstance(x, bool) for x in k):
            return Series([x for x, m in zip(self._v, k) if m], [i for i, m in zip(self.index, k) if m], self.name)
        if isinstance(k, list):
            return Series([self[x] for x in k], k, self.name)
        if isinstance(k, slice):
            return Series(self._v[k], self.index[k], self.name)
        if k not in self.index:
            raise KeyError(k)
        return self._v[self.index.index(k)]

    def __setitem__(self, k, v):
        if isinstance(k, Series):
            self._v = [v if m else x for x, m in zip(self._v, k)]
        else:
            self._v[self.index.index(k)] = v

    def __getattr__(self, k):
        if k in ("join", "merge", "columns", "iterrows", "itertuples", "assign", "set_index", "insert", "query", "select_dtypes", "applymap", "pivot", "melt", "stack", "to_feather"):
            raise AttributeError("'Series' object has no attribute %r" % k)
        _unknown("Series", k)

    def add(s, o, **k): return s + o
    def sub(s, o, **k): return s - o
    def mul(s, o, **k): return s * o
    def div(s, o, **k): return s / o
    subtract, multiply, divide, truediv = sub, mul, div, div
    def floordiv(s, o): return s // o
    def mod(s, o): return s % o
    def pow(s, o): return s ** o
    def eq(s, o): return s == o
    def ne(s, o): return s != o
    def lt(s, o): return s < o
    def le(s, o): return s <= o
    def gt(s, o): return s > o
    def ge(s, o): return s >= o
    def tolist(self): return list(self._v)
    def to_numpy(self, *a, **k): return list(self._v)
    def item(self): return self._v[0]
    def equals(self, o): return self._v == o._v and self.index == o.index
    def pipe(self, f, *a, **k): return f(self, *a, **k)
    def agg(self, f): return getattr(self, f)() if isinstance(f, str) else f(self)
    aggregate = agg
    def idxmax(self): return self.index[self._v.index(self.max())]
    def idxmin(self): return self.index[self._v.index(self.min())]
    def argmax(self): return self._v.index(self.max())
    def argmin(self): return self._v.index(self.min())
    def clip(self, lower=None, upper=None): return self._map(lambda x: lower if lower is not None and x < lower else upper if upper is not None and x > upper else x)
    def replace(self, a, b=None): return self._map(lambda x: a.get(x, x) if isinstance(a, dict) else b if (x in a if isinstance(a, list) else x == a) else x)
    def duplicated(self): return self._like([x in self._v[:i] for i, x in enumerate(self._v)])
    def drop(self, l): return self[self._like([i not in (l if isinstance(l, (list, tuple, set)) else [l]) for i in self.index])]
    def shift(self, n=1): return self._like(([nan] * n + self._v)[:len(self._v)] if n >= 0 else self._v[-n:] + [nan] * min(-n, len(self._v)))
    def diff(self): return self - self.shift()
    def nlargest(self, n=5): return self.sort_values(ascending=False).head(n)
    def nsmallest(self, n=5): return self.sort_values().head(n)
    def to_frame(self, name=None): return DataFrame({name or self.name or 0: self._v}, index=self.index)
    def groupby(self, by): return _Groups(DataFrame({"_v": self._v, "_k": list(by)}, index=self.index), "_k", "_v")
    def median(self):
        l = sorted(self._n())
        return nan if not l else (l[(len(l) - 1) // 2] + l[len(l) // 2]) / 2
    @property
    def at(self): return _Labels(self)
    @property
    def iat(self): return _Place(self)
    @property
    def is_unique(self): return len(set(self._v)) == len(self._v)

    def get(self, k, default=None): return self[k] if k in self.index else default
    def keys(self): return list(self.index)
    def items(self): return zip(self.index, self._v)
    def to_dict(self): return dict(self.items())
    def to_list(self): return list(self._v)
    tolist = to_numpy = to_list

    @property
    def values(self): return list(self._v)
    @property
    def array(self): return list(self._v)
    @property
    def size(self): return len(self._v)
    @property
    def shape(self): return (len(self._v),)
    @property
    def empty(self): return not self._v
    @property
    def str(self): return _Str(self)
    @property
    def dt(self): return _Dates(self)
    @property
    def iloc(self): return _Place(self)
    @property
    def loc(self): return _Labels(self)
    at, iat = loc, iloc

    @property
    def dtype(self):
        if self._v and all(isinstance(x, bool) for x in self._v):
            return "bool"
        if self._v and all(isinstance(x, int) for x in self._v):
            return "int64"
        return "float64" if all(isinstance(x, (int, float)) for x in self._v) else "object"

    def _n(self): return [x for x in self._v if not isna(x)]
    def sum(self, *a, **k): return sum(self._n())
    def mean(self, *a, **k): return sum(self._n()) / len(self._n()) if self._n() else nan
    def max(self, *a, **k): return max(self._n()) if self._n() else nan
    def min(self, *a, **k): return min(self._n()) if self._n() else nan
    def count(self): return len(self._n())
    def any(self): return any(self._v)
    def all(self): return all(self._v)
    def nunique(self): return len(set(self._n()))
    def unique(self): return _Seq(dict.fromkeys(self._v))
    def isin(self, l): l = list(l); return self._map(lambda x: x in l)
    def isna(self): return isna(self)
    isnull = isna
    def notna(self): return notna(self)
    notnull = notna
    def fillna(self, v): return self._map(lambda x: v if isna(x) else x)
    def dropna(self): return self[notna(self)]
    def copy(self, *a, **k): return self._like(self._v)
    def abs(self): return self._map(abs)
    def between(self, a, b): return self._map(lambda x: a <= x <= b)
    def apply(self, f, *a, **k): return self._map(f)
    def map(self, f, *a, **k): return self._map(f if callable(f) else lambda x: f[x] if x in f else nan)
    def where(self, m, o=nan): return self._like([x if y else o for x, y in zip(self._v, m)])
    def mask(self, m, o=nan): return self._like([o if y else x for x, y in zip(self._v, m)])
    def round(self, n=0): return self._map(lambda x: round(x, n))
    def head(self, n=5): return self[:n]
    def tail(self, n=5): return self[-n:] if n else self[:0]
    def reset_index(self, drop=False, **k): return Series(self._v, None, self.name)
    def drop_duplicates(self): return Series(self.unique())
    def cumsum(self):
        t, r = 0, []
        for x in self._v:
            t += x
            r.append(t)
        return self._like(r)

    def astype(self, t, **k):
        if not isinstance(t, type):
            n = str(t).rstrip("0123456789")
            t = {"int": int, "uint": int, "float": float, "str": str, "string": str, "bool": bool, "object": lambda x: x}.get(n)
            if t is None:
                raise Lacks("pandas: type " + n)
        return self._map(t if t is not object else lambda x: x)

    def value_counts(self, **k):
        c = {}
        for x in self._n():
            c[x] = c.get(x, 0) + 1
        l = sorted(c.items(), key=lambda x: -x[1])
        return Series([n for _, n in l], [x for x, _ in l], self.name)

    def sort_values(self, ascending=True, **k):
        l = sorted(zip(self._v, self.index), key=lambda x: x[0], reverse=not ascending)
        return Series([x for x, _ in l], [i for _, i in l], self.name)


class _Place:
    """.iloc"""
    def __init__(self, o): self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, Series):
            return Series(o._v[k], o.index[k], o.name) if isinstance(k, slice) else o._v[k]
        if isinstance(k, tuple):
            c = list(o._c)[k[1]]
            return o._take(range(len(o))[k[0]])[c] if isinstance(k[0], slice) else o._c[c][k[0]]
        if isinstance(k, slice):
            return o._take(range(len(o))[k])
        if isinstance(k, (list, range)):
            return o._take(k)
        return Series([o._c[c][k] for c in o._c], list(o._c))


class _Labels:
    """.loc"""
    def __init__(self, o): self.o = o

    def _rows(self, k):
        o = self.o
        if isinstance(k, Series) or isinstance(k, list) and k and all(isinstance(x, bool) for x in k):
            return [i for i, m in enumerate(k) if m]
        if isinstance(k, slice):
            a = 0 if k.start is None else o.index.index(k.start)
            b = len(o.index) if k.stop is None else o.index.index(k.stop) + 1
            return list(range(a, b))
        return [o.index.index(x) for x in k] if isinstance(k, list) else [o.index.index(k)]

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, Series):
            return o[k] if not isinstance(k, slice) else Series([o._v[i] for i in self._rows(k)], [o.index[i] for i in self._rows(k)], o.name)
        c = None
        if isinstance(k, tuple):
            k, c = k
        if not isinstance(k, (Series, list, slice)):
            r = Series([o._c[x][o.index.index(k)] for x in o._c], list(o._c))
            return r if c is None else r[c]
        r = o._take(self._rows(k))
        return r if c is None or isinstance(c, slice) else r[c]

    def __setitem__(self, k, v):
        o = self.o
        if isinstance(o, Series):
            for i in self._rows(k):
                o._v[i] = v
            return
        k, cols = k if isinstance(k, tuple) else (k, list(o._c))
        rows = self._rows(k)
        for c in cols if isinstance(cols, list) else [cols]:
            if c not in o._c:
                o._c[c] = [nan] * len(o)
            for n, i in enumerate(rows):
                o._c[c][i] = (dict(zip(v.index, v._v))[o.index[i]] if isinstance(v, Series) else v[n] if isinstance(v, list) else v)


class DataFrame:
    _own = ("_c", "index")

    def __init__(self, data=None, columns=None, index=None, **k):
        cols = list(columns) if columns is not None else None
        c = {}
        if isinstance(data, DataFrame):
            c, index = {n: list(v) for n, v in data._c.items()}, data.index
        elif isinstance(data, dict):
            n = max([len(v) for v in data.values() if hasattr(v, "__len__") and not isinstance(v, str)] or [0])
            c = {x: list(v) if hasattr(v, "__iter__") and not isinstance(v, str) else [v] * n for x, v in data.items()}
        elif data is not None:
            rows = list(data)
            if rows and isinstance(rows[0], dict):
                names = list(dict.fromkeys(x for r in rows for x in r))
                c = {x: [r.get(x, nan) for r in rows] for x in names}
            else:
                rows = [list(r) for r in rows]
                if cols is None:
                    cols = list(range(len(rows[0]) if rows else 0))
                if rows and len(rows[0]) != len(cols):
                    raise ValueError("%d columns passed, passed data had %d columns" % (len(cols), len(rows[0])))
                c = {x: [r[j] for r in rows] for j, x in enumerate(cols)}
        if cols is not None:
            n = len(next(iter(c.values()))) if c else 0
            c = {x: c.get(x, [nan] * n) for x in cols}
        object.__setattr__(self, "_c", c)
        n = len(next(iter(c.values()))) if c else 0
        object.__setattr__(self, "index", _Seq(index if index is not None else range(n)))

    def astype(self, t, **k):
        return DataFrame({c: Series(v).astype(t.get(c, object) if isinstance(t, dict) else t)._v for c, v in self._c.items()}, index=self.index)

    def join(self, other, on=None, how="left", lsuffix="", rsuffix="", sort=False):
        if on is not None or how not in ("left", "outer", "inner", "right"):
            raise Lacks("pandas DataFrame.join")
        l = other if isinstance(other, list) else [other]
        out = self
        for o in l:
            o = o.to_frame() if isinstance(o, Series) else o
            both = [c for c in o._c if c in out._c]
            if both and not (lsuffix or rsuffix):
                raise ValueError("columns overlap but no suffix specified: %r" % both)
            a, b = out.index, o.index
            if len(set(a)) != len(a) or len(set(b)) != len(b):
                raise Lacks("pandas DataFrame.join of repeated labels")
            idx = list(a) if how == "left" or a == b else list(b) if how == "right" else [i for i in a if i in b] if how == "inner" else sorted(set(a) | set(b))
            ra, rb = {x: i for i, x in enumerate(a)}, {x: i for i, x in enumerate(b)}
            c = {n + (lsuffix if n in both else ""): [v[ra[i]] if i in ra else nan for i in idx] for n, v in out._c.items()}
            c.update({n + (rsuffix if n in both else ""): [v[rb[i]] if i in rb else nan for i in idx] for n, v in o._c.items()})
            out = DataFrame(c, index=idx)
        return out

    def _take(self, rows):
        rows = list(rows)
        return DataFrame({n: [v[i] for i in rows] for n, v in self._c.items()}, columns=list(self._c), index=[self.index[i] for i in rows])

    def _set(self, o):
        object.__setattr__(self, "_c", o._c)
        object.__setattr__(self, "index", o.index)

    def __getattr__(self, k):
        if not k.startswith("_") and k in self._c:
            return self[k]
        _unknown("DataFrame", k)

    @classmethod
    def from_records(cls, rows, columns=None, index=None, **k): return cls(list(rows), columns=columns, index=index)
    @classmethod
    def from_dict(cls, d, columns=None, **k):
        if k:
            raise Lacks("pandas DataFrame.from_dict(%s)" % ", ".join(k))
        return cls(d, columns=columns)
    @property
    def at(self): return _Labels(self)
    @property
    def iat(self): return _Place(self)
    @property
    def T(self): return DataFrame([list(v) for v in self._c.values()], columns=list(self.index), index=list(self._c))
    @property
    def ndim(self): return 2
    def to_numpy(self, *a, **k): return [list(r) for r in zip(*self._c.values())]
    def pipe(self, f, *a, **k): return f(self, *a, **k)
    def isna(self): return DataFrame({c: [isna(x) for x in v] for c, v in self._c.items()}, index=self.index)
    isnull = isna
    def dropna(self, subset=None, inplace=False, **k):
        return self._out(self._take(i for i in range(len(self)) if not any(isna(self._c[c][i]) for c in (subset or self._c))), inplace)
    def insert(self, at, name, v):
        self[name] = v
        names = [c for c in self._c if c != name]
        names.insert(at, name)
        object.__setattr__(self, "_c", {c: self._c[c] for c in names})
    def filter(self, items=None, **k):
        if k or items is None:
            raise Lacks("pandas DataFrame.filter")
        return self[[c for c in items if c in self._c]]
    def reindex(self, columns=None, **k):
        if k or columns is None:
            raise Lacks("pandas DataFrame.reindex")
        return DataFrame(self._c, columns=list(columns), index=self.index)
    def nsmallest(self, n, by): return self.sort_values(by=by).head(n)
    def count(self): return self._cols("count")
    def nunique(self): return self._cols("nunique")
    def any(self): return self._cols("any")
    def all(self): return self._cols("all")
    def query(self, *a, **k): raise Lacks("pandas DataFrame.query")
    def agg(self, f): return self._cols(f) if isinstance(f, str) else _unknown("DataFrame", "agg")

    def __setattr__(self, k, v):
        if k == "columns":
            object.__setattr__(self, "_c", dict(zip(v, self._c.values())))
        elif k in self._c:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    @property
    def columns(self): return _Columns(self._c)
    @property
    def size(self): return len(self) * len(self._c)
    @property
    def shape(self): return (len(self), len(self._c))
    @property
    def empty(self): return self.size == 0
    @property
    def loc(self): return _Labels(self)
    @property
    def iloc(self): return _Place(self)
    at, iat = loc, iloc
    @property
    def values(self): return [list(r) for r in zip(*self._c.values())]
    to_numpy = lambda self: self.values

    def __len__(self): return len(self.index)
    def __iter__(self): return iter(list(self._c))
    def __contains__(self, k): return k in self._c
    def __bool__(self): raise ValueError("The truth value of a DataFrame is ambiguous.")

    def __getitem__(self, k):
        if isinstance(k, Series):
            return self._take(i for i, m in enumerate(k) if m)
        if isinstance(k, slice):
            return self._take(range(len(self))[k])
        if isinstance(k, list):
            if k and all(isinstance(x, bool) for x in k):
                return self._take(i for i, m in enumerate(k) if m)
            for x in k:
                if x not in self._c:
                    raise KeyError(x)
            return DataFrame({x: self._c[x] for x in k}, columns=k, index=self.index)
        if k not in self._c:
            raise KeyError(k)
        s = Series(None, self.index, k)
        s._v = self._c[k]
        return s

    def __setitem__(self, k, v):
        if isinstance(v, Series) and len(self._c):
            at = dict(zip(v.index, v._v))
            v = [at.get(i, nan) for i in self.index]
        elif isinstance(v, str) or not hasattr(v, "__iter__"):
            v = [v] * len(self)
        v = list(v)
        if len(self._c) and len(v) != len(self):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v), len(self)))
        self._c[k] = v
        if len(self.index) != len(v):
            object.__setattr__(self, "index", list(range(len(v))))

    def __delitem__(self, k): del self._c[k]
    def pop(self, k): s = self[k].copy(); del self._c[k]; return s
    def get(self, k, default=None): return self[k] if k in self._c else default
    def keys(self): return self.columns
    def items(self): return ((c, self[c]) for c in list(self._c))
    def copy(self, *a, **k): return self._take(range(len(self)))
    def head(self, n=5): return self[:n]
    def tail(self, n=5): return self._take(range(max(0, len(self) - n), len(self)))
    def assign(self, **k):
        o = self.copy()
        for n, v in k.items():
            o[n] = v(o) if callable(v) else v
        return o

    def itertuples(self, index=True, name="Pandas"):
        t = _coll.namedtuple("Pandas", (["Index"] if index else []) + [str(c) for c in self._c], rename=True)
        for i, r in zip(self.index, zip(*self._c.values())):
            yield t(*(((i,) if index else ()) + tuple(r)))

    def iterrows(self):
        for i, r in zip(self.index, zip(*self._c.values())):
            yield i, Series(list(r), list(self._c))

    def to_dict(self, orient="dict"):
        return [dict(zip(self._c, r)) for r in self.values] if orient == "records" else {c: dict(zip(self.index, v)) for c, v in self._c.items()}

    def _out(self, o, inplace):
        if inplace:
            self._set(o)
            return None
        return o

    def set_index(self, k, inplace=False, drop=True):
        o = self.copy()
        object.__setattr__(o, "index", list(o._c[k]) if isinstance(k, str) else list(k))
        if drop and isinstance(k, str):
            del o._c[k]
        return self._out(o, inplace)

    def reset_index(self, inplace=False, drop=False):
        c = {} if drop else {"index": list(self.index)}
        c.update({n: list(v) for n, v in self._c.items()})
        return self._out(DataFrame(c, columns=list(c), index=range(len(self))), inplace)

    def drop(self, labels=None, axis=0, columns=None, index=None, inplace=False, **k):
        if columns is None and axis in (1, "columns"):
            columns = labels
        if columns is not None:
            l = [columns] if isinstance(columns, str) else list(columns)
            return self._out(DataFrame({n: v for n, v in self._c.items() if n not in l}, index=self.index), inplace)
        l = index if index is not None else labels
        l = list(l) if hasattr(l, "__iter__") else [l]
        return self._out(self._take(i for i, x in enumerate(self.index) if x not in l), inplace)

    def rename(self, columns=None, inplace=False, **k):
        return self._out(DataFrame({columns.get(n, n): v for n, v in self._c.items()}, index=self.index), inplace)

    def sort_values(self, by, ascending=True, inplace=False, ignore_index=False, **k):
        by = [by] if isinstance(by, str) else list(by)
        up = [ascending] * len(by) if isinstance(ascending, bool) else list(ascending)
        rows = list(range(len(self)))
        for c, a in reversed(list(zip(by, up))):
            col = self._c[c]
            rows = sorted([i for i in rows if not isna(col[i])], key=lambda i: col[i], reverse=not a) + [i for i in rows if isna(col[i])]
        o = self._take(rows)
        return self._out(o.reset_index(drop=True) if ignore_index else o, inplace)

    def sort_index(self, **k): return self._take(sorted(range(len(self)), key=lambda i: self.index[i]))
    def round(self, n=0): return DataFrame({c: [round(x, n) if isinstance(x, float) and x == x and abs(x) != float("inf") else x for x in v] for c, v in self._c.items()}, columns=list(self._c), index=self.index)
    def apply(self, f, axis=0, **k):
        return Series([f(r) for _, r in self.iterrows()], self.index) if axis in (1, "columns") else Series([f(self[c]) for c in self._c], list(self._c))
    def _cols(self, what): return Series([getattr(self[c], what)() for c in self._c], list(self._c))
    def sum(self, *a, **k): return self._cols("sum")
    def mean(self, *a, **k): return self._cols("mean")
    def max(self, *a, **k): return self._cols("max")
    def min(self, *a, **k): return self._cols("min")
    def fillna(self, x): return DataFrame({c: [x if isna(y) else y for y in v] for c, v in self._c.items()}, index=self.index)
    def nlargest(self, n, by): return self.sort_values(by=by, ascending=False).head(n)

    def append(self, other, ignore_index=False): return concat([self, other], ignore_index)

    def groupby(self, by, as_index=True, sort=True, **k):
        if k or not as_index:
            raise Lacks("pandas DataFrame.groupby(%s)" % ", ".join(list(k) or ["as_index"]))
        return _Groups(self, by, sort=sort)

    def drop_duplicates(self, subset=None, **k):
        seen, rows = set(), []
        for i, r in enumerate(zip(*[self._c[c] for c in (subset or self._c)])):
            if r not in seen:
                seen.add(r)
                rows.append(i)
        return self._take(rows)


class _Groups:
    def __init__(self, df, by, col=None, sort=True):
        self.df, self.by, self.col, self.sort = df, by, col, sort
        keys = [tuple(r) for r in zip(*[df._c[c] for c in by])] if isinstance(by, list) and len(by) > 1 else list(by) if isinstance(by, Series) else df._c[by[0] if isinstance(by, list) else by]
        rows = {}
        for i, k in enumerate(keys):
            if not isna(k):
                rows.setdefault(k, []).append(i)
        self.rows = {k: rows[k] for k in sorted(rows)} if sort else rows

    def part(self, k):
        d = self.df._take(self.rows[k])
        return d if self.col is None else d[self.col]

    def __getitem__(self, col): return _Groups(self.df, self.by, col, self.sort)
    def __iter__(self): return ((k, self.part(k)) for k in self.rows)
    def __len__(self): return len(self.rows)
    @property
    def groups(self): return {k: [self.df.index[i] for i in r] for k, r in self.rows.items()}
    @property
    def ngroups(self): return len(self.rows)
    def get_group(self, k): return self.part(k)
    def size(self): return Series([len(r) for r in self.rows.values()], list(self.rows))

    def agg(self, f):
        if isinstance(self.col, str):
            return Series([self.part(k).agg(f) for k in self.rows], list(self.rows), self.col)
        if isinstance(f, (list, tuple)):
            raise Lacks("pandas groupby.agg(list)")
        own = self.by if isinstance(self.by, list) else [self.by]
        cols = f if isinstance(f, dict) else {c: f for c in (self.col or self.df._c) if not (isinstance(c, str) and c in own)}
        return DataFrame({c: [self.df._take(r)[c].agg(g) for r in self.rows.values()] for c, g in cols.items()}, index=list(self.rows))
    aggregate = agg

    def apply(self, f, *a, **k):
        l = [f(self.part(x), *a, **k) for x in self.rows]
        if any(isinstance(x, (Series, DataFrame)) for x in l):
            raise Lacks("pandas groupby.apply")
        return Series(l, list(self.rows))

    def __getattr__(self, k):
        if k in ("sum", "mean", "max", "min", "count", "nunique", "median"):
            return lambda *a, **kw: self.agg(k)
        if k in ("first", "last"):
            return lambda *a, **kw: self.agg(lambda s: s._v[0 if k == "first" else -1])
        if k in self.df._c:
            return self[k]
        if k.startswith("_"):
            raise AttributeError(k)
        raise Lacks("pandas groupby." + k)


class _Columns(list):
    def tolist(self): return list(self)
    to_list = tolist
    @property
    def values(self): return list(self)


def concat(l, ignore_index=False, axis=0, **k):
    if set(k) - {"sort", "copy", "join"} or k.get("join", "outer") != "outer":
        raise Lacks("pandas.concat " + ", ".join(k))
    l = [d for d in l if d is not None]
    if axis in (1, "columns"):
        if ignore_index or any(d.index != l[0].index for d in l):
            raise Lacks("pandas.concat of columns with different indexes")
        l = [d.to_frame() if isinstance(d, Series) else d for d in l]
        names = [c for d in l for c in d._c]
        if len(set(names)) < len(names):
            raise Lacks("pandas.concat of columns with the same name")
        return DataFrame({c: list(v) for d in l for c, v in d._c.items()}, columns=names, index=l[0].index)
    if axis not in (0, "index"):
        raise Lacks("pandas.concat axis %r" % (axis,))
    if l and isinstance(l[0], Series):
        return Series([x for s in l for x in s._v], None if ignore_index else [i for s in l for i in s.index])
    names = list(dict.fromkeys(c for d in l for c in d._c))
    return DataFrame({c: [x for d in l for x in d._c.get(c, [nan] * len(d))] for c in names}, columns=names, index=None if ignore_index else [i for d in l for i in d.index])


def _value(x):
    try:
        return int(x)
    except ValueError:
        return float(x)


def read_csv(src, index_col=None, usecols=None, nrows=None, names=None, sep=",", **k):
    if hasattr(src, "read"):
        text = src.read()
        text = text.decode() if isinstance(text, bytes) else text
    else:
        src = _os.fspath(src)
        with (_gzip.open(src, "rt", newline="") if src.endswith((".gz", ".gzip")) else open(src, newline="")) as f:
            text = f.read()
    rows = [r for r in _csv.reader(text.splitlines(), delimiter=sep) if r]
    head = list(names) if names is not None else rows.pop(0)
    rows = rows[:nrows] if nrows is not None else rows
    c = {}
    for j, n in enumerate(head):
        col = [r[j] if j < len(r) else "" for r in rows]
        try:
            v = [nan if x in ("", "NaN", "nan") else _value(x) for x in col]
            c[n] = [float(x) for x in v] if any(isinstance(x, float) for x in v) else v
        except ValueError:
            c[n] = [nan if x == "" else x for x in col]
    d = DataFrame(c, columns=[n for n in head if usecols is None or n in usecols])
    return d


def to_datetime(x, format=None, unit=None, **k):
    f = lambda s: _dt.datetime.utcfromtimestamp(s) if unit else s if isinstance(s, _dt.date) else _dt.datetime.strptime(s, format) if format else _dt.datetime.fromisoformat(s)
    return x._map(f) if isinstance(x, Series) else f(x)


def to_numeric(x, **k):
    return x._map(lambda v: _value(v) if isinstance(v, str) else v)


Timestamp = _dt.datetime
Index = list
StringDtype = str


def numpy():
    m = _types.ModuleType("numpy")
    m.zeros = lambda n, *a, **k: [0.0] * n
    m.ones = lambda n, *a, **k: [1.0] * n
    m.full = lambda n, x, *a, **k: [x] * n
    m.array = m.asarray = lambda l, *a, **k: list(l)
    m.arange = lambda *a: list(range(*a))
    m.sum = lambda l: sum(list(l))
    m.mean = lambda l: sum(list(l)) / len(list(l)) if len(list(l)) else nan
    m.cumsum = lambda l: Series(list(l)).cumsum()._v
    m.where = lambda c, a, b: [x if t else y for t, x, y in zip(c, a if isinstance(a, (list, Series)) else [a] * len(c), b if isinstance(b, (list, Series)) else [b] * len(c))]
    m.isnan = isna
    m.unique = lambda l: sorted(set(list(l)))
    m.nan, m.inf, m.float64, m.int64 = nan, float("inf"), float, int
    m.ndarray = list
    m.zeros_like = lambda l, *a, **k: [0.0] * len(l)
    m.ones_like = lambda l, *a, **k: [1.0] * len(l)
    m.divide = lambda a, b: a / b
    m.round = lambda x, n=0: x.round(n) if hasattr(x, "round") else round(x, n)
    m.max = m.amax = lambda l: max(list(l))
    m.min = m.amin = lambda l: min(list(l))
    m.abs = lambda x: abs(x)
    m.isinf = lambda x: x._map(lambda v: abs(v) == float("inf")) if isinstance(x, Series) else abs(x) == float("inf")
    def lacks(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Lacks("numpy." + k)
    m.__getattr__ = lacks
    return m
