"""A stand-in for the parts of numpy that turning tables into training data
uses: arrays as nested lists."""
import builtins, json, math, sys

nan, inf, newaxis = math.nan, math.inf, None
float32 = float64 = float_ = float
int8 = int16 = int32 = int64 = uint8 = int_ = int
bool_ = bool
_KIND = {"float": float, "int": int, "bool": bool, "f": float, "i": int, "U": str, "str": str}


class Lacks(BaseException):
    """What numpy may know, and this module does not."""


def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    raise Lacks("numpy.%s" % k)


def _type(t):
    if t is None or t is object:
        return None
    if isinstance(t, type):
        return t
    return _KIND.get(str(t).rstrip("0123456789"), None)


def _plain(x):
    if isinstance(x, Array):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if hasattr(x, "to_numpy"):
        return _plain(x.to_numpy())
    if isinstance(x, (range, map, filter)) or hasattr(x, "__next__"):
        raise Lacks("numpy.array of " + type(x).__name__) if not isinstance(x, range) else TypeError
    return x


def _map(f, x):
    return [_map(f, y) for y in x] if isinstance(x, list) else f(x)


def _full(shape, v):
    return [_full(shape[1:], v) for _ in builtins.range(shape[0])] if shape else v


def _shape(s):
    return tuple(int(x) for x in s) if isinstance(s, (list, tuple, Array)) else (int(s),)


def _seq(k):
    return isinstance(k, (list, Array)) or hasattr(k, "to_list") or isinstance(k, range)


def _zip(f, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            raise Lacks("numpy: broadcasting")
        return [_zip(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [_zip(f, x, b) for x in a]
    if isinstance(b, list):
        return [_zip(f, a, y) for y in b]
    return f(a, b)


class Array:
    def __init__(self, data, dtype=None):
        self.d, self.dtype = data, dtype

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("__") else Lacks("numpy.ndarray.%s" % k)

    @property
    def shape(self):
        out, x = [], self.d
        while isinstance(x, list):
            out.append(len(x))
            if not x:
                break
            x = x[0]
        return tuple(out)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for x in self.shape:
            n *= x
        return n

    @property
    def T(self):
        return Array([list(x) for x in zip(*self.d)], self.dtype) if self.ndim == 2 else self

    def transpose(self):
        return self.T

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter([Array(x, self.dtype) if isinstance(x, list) else x for x in self.d])

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.flatten().d[0])

    def __repr__(self):
        return "array(%r)" % self.d

    def tolist(self):
        return _map(lambda x: x, self.d)

    def copy(self):
        return Array(self.tolist(), self.dtype)

    def astype(self, t, **kw):
        return Array(_map(_type(t) or (lambda x: x), self.d), t)

    def flatten(self):
        out = []
        _map(out.append, self.d)
        return Array(out, self.dtype)

    ravel = flatten

    def reshape(self, *shape):
        shape = _shape(shape[0] if len(shape) == 1 else shape)
        flat = self.flatten().d
        if -1 in shape:
            n = 1
            for x in shape:
                n *= x if x != -1 else 1
            shape = tuple(x if x != -1 else len(flat) // n for x in shape)
        n = 1
        for x in shape:
            n *= x
        if n != len(flat):
            raise ValueError("cannot reshape array of size %d into shape %r" % (len(flat), shape))
        it = iter(flat)
        def build(s):
            return [build(s[1:]) for _ in range(s[0])] if s else next(it)
        return Array(build(shape), self.dtype)

    def _wrap(self, x):
        return Array(x, self.dtype) if isinstance(x, list) else x

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if any(x is None for x in k):
                k = list(k)
                if k.count(None) == 1 and k[-1] is None and all(x is Ellipsis or x == slice(None) for x in k[:-1]) and (Ellipsis in k or len(k) == self.ndim + 1):
                    return Array(_map(lambda x: [x], self.d), self.dtype)
                raise Lacks("numpy: new axis")
            if len(k) == 2 and _seq(k[0]) and _seq(k[1]):
                return Array([self.d[i][j] for i, j in zip(list(k[0]), list(k[1]))], self.dtype)
            if Ellipsis in k:
                raise Lacks("numpy: ellipsis")
            x = self[k[0]]
            if len(k) == 1:
                return x
            if isinstance(k[0], slice) or _seq(k[0]):
                return Array([_plain(y[k[1:] if len(k) > 2 else k[1]]) for y in x], self.dtype)
            return x[k[1:] if len(k) > 2 else k[1]]
        if _seq(k):
            k = list(k)
            if k and isinstance(k[0], bool):
                return Array([x for x, y in zip(self.d, k) if y], self.dtype)
            return Array([self.d[i] for i in k], self.dtype)
        return self._wrap(self.d[k])

    def __setitem__(self, k, v):
        v = _plain(v)
        t = _type(self.dtype)
        if t is not None:
            v = _map(t, v)
        if isinstance(k, tuple) and len(k) == 2:
            n, m = self.shape[:2]
            rows = list(k[0]) if _seq(k[0]) else list(range(n))[k[0]]
            cols = list(k[1]) if _seq(k[1]) else list(range(m))[k[1]] if isinstance(k[1], slice) else k[1]
            if isinstance(rows, list) and isinstance(cols, list):
                if isinstance(k[0], slice) or isinstance(k[1], slice):
                    raise Lacks("numpy: assignment to a part")
                for p, (i, j) in enumerate(zip(rows, cols)):
                    self.d[i][j] = v[p] if isinstance(v, list) else v
            elif isinstance(rows, list):
                for p, i in enumerate(rows):
                    self.d[i][cols] = v[p] if isinstance(v, list) else v
            elif isinstance(cols, list):
                for p, j in enumerate(cols):
                    self.d[rows][j] = v[p] if isinstance(v, list) else v
            else:
                self.d[rows][cols] = v
        elif isinstance(k, int):
            self.d[k] = _full(self.shape[1:], v) if not isinstance(v, list) else v
        elif _seq(k):
            for p, i in enumerate(k):
                self.d[i] = v[p] if isinstance(v, list) else _full(self.shape[1:], v)
        else:
            raise Lacks("numpy: assignment to a part")

    def _op(self, o, f):
        return Array(_zip(f, self.d, _plain(o)))

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b)
    def __truediv__(s, o): return s._op(o, lambda a, b: a / b)
    def __radd__(s, o): return s._op(o, lambda a, b: b + a)
    def __rmul__(s, o): return s._op(o, lambda a, b: b * a)
    def __eq__(s, o): return s._op(o, lambda a, b: a == b)
    def __ne__(s, o): return s._op(o, lambda a, b: a != b)
    def __lt__(s, o): return s._op(o, lambda a, b: a < b)
    def __le__(s, o): return s._op(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._op(o, lambda a, b: a > b)
    def __ge__(s, o): return s._op(o, lambda a, b: a >= b)
    __hash__ = None

    def sum(self, axis=None):
        if axis is not None:
            raise Lacks("numpy: sum along an axis")
        return builtins.sum(self.flatten().d)

    def max(self):
        return builtins.max(self.flatten().d)

    def min(self):
        return builtins.min(self.flatten().d)

    def any(self):
        return builtins.any(self.flatten().d)

    def all(self):
        return builtins.all(self.flatten().d)

    def mean(self):
        return self.sum() / self.size

    def argmax(self):
        l = self.flatten().d
        return l.index(builtins.max(l))

    def fill(self, v):
        self.d = _full(self.shape, v)


ndarray = Array


def array(x, dtype=None, **kw):
    t = _type(dtype)
    x = _plain(list(x) if isinstance(x, (range, tuple)) else x)
    return Array(_map(t, x) if t else _map(lambda y: y, x), dtype)


asarray = array


def zeros(shape, dtype=float, **kw):
    return Array(_full(_shape(shape), (_type(dtype) or float)(0)), dtype)


def ones(shape, dtype=float, **kw):
    return Array(_full(_shape(shape), (_type(dtype) or float)(1)), dtype)


def full(shape, v, dtype=None):
    return Array(_full(_shape(shape), v), dtype)


def eye(n, m=None, dtype=float, **kw):
    t = _type(dtype) or float
    return Array([[t(i == j) for j in range(m or n)] for i in range(n)], dtype)


identity = eye


def arange(*a, **kw):
    return Array(list(range(*a)))


def hstack(l):
    l = [_plain(x) for x in l]
    return Array([builtins.sum((list(r) for r in rows), []) for rows in zip(*l)]) if isinstance(l[0][0], list) else Array(builtins.sum(l, []))


def column_stack(l):
    return hstack([_map(lambda x: x, y) if isinstance(y[0], list) else [[x] for x in y] for y in map(_plain, l)])


def vstack(l):
    l = [_plain(x) for x in l]
    return Array(builtins.sum((x if isinstance(x[0], list) else [x] for x in l), []))


def concatenate(l, axis=0):
    if axis == 0:
        return Array(builtins.sum(map(_plain, l), []))
    if axis in (1, -1):
        return hstack(l)
    raise Lacks("numpy: concatenate along an axis")


def stack(l, axis=0):
    if axis == 0:
        return Array([_plain(x) for x in l])
    if axis in (1, -1):
        return Array([list(x) for x in zip(*map(_plain, l))])
    raise Lacks("numpy: stack along an axis")


def expand_dims(a, axis):
    if axis in (-1, array(a).ndim):
        return Array(_map(lambda x: [x], _plain(a)))
    raise Lacks("numpy: new axis")


def unique(a, **kw):
    if kw:
        raise Lacks("numpy.unique " + ", ".join(kw))
    return Array(sorted(set(array(a).flatten().tolist())))


def searchsorted(a, v, side="left", **kw):
    import bisect
    f = bisect.bisect_left if side == "left" else bisect.bisect_right
    a = list(a)
    return Array([f(a, x) for x in v]) if _seq(v) else f(a, v)


def where(c, *xy):
    c = array(c)
    if len(xy) != 2 or c.ndim != 1:
        raise Lacks("numpy.where")
    x, y = [list(z) if _seq(z) else [z] * len(c) for z in xy]
    return Array([a if t else b for t, a, b in zip(c.tolist(), x, y)])


def squeeze(a, axis=None):
    a = array(a)
    if axis not in (None, -1, a.ndim - 1):
        raise Lacks("numpy.squeeze")
    return a.reshape([n for n in a.shape if n != 1]) if axis is None else a.reshape(a.shape[:-1])


def append(a, b, axis=None):
    return concatenate([array(a).flatten(), array(b).flatten()]) if axis is None else concatenate([a, b], axis=axis)


def argmax(a, axis=None):
    if axis in (1, -1):
        return Array([r.index(builtins.max(r)) for r in _plain(a)])
    return array(a).argmax()


def shape(a):
    return array(a).shape


def reshape(a, s):
    return array(a).reshape(s)


def save_parts(file, parts):
    name = file if isinstance(file, str) else None
    text = json.dumps({k: [_plain(v), str(getattr(v, "dtype", None))] for k, v in parts.items()})
    if name is None:
        file.write(text.encode())
    else:
        with open(name if name.endswith(".npz") else name + ".npz", "w") as f:
            f.write(text)


def savez(file, *a, **kw):
    save_parts(file, dict({"arr_%d" % j: x for j, x in enumerate(a)}, **kw))


savez_compressed = savez


class _Parts(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def load(file, **kw):
    text = open(file).read() if isinstance(file, str) else file.read().decode()
    return _Parts({k: Array(v[0], v[1]) for k, v in json.loads(text).items()})
