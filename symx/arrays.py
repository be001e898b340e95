"""numpy stand-in for symbolic execution.

Arrays are ordinary numpy object arrays (subclass `SymArray`) holding symbolic
scalars, so indexing, broadcasting, concatenation, cumulative sums etc. are
executed by numpy itself.  Only what numpy cannot do on objects (dtype casts,
bincount, linear algebra, special-value predicates ...) is re-implemented here.
"""
import builtins
import functools
import math
import types
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import SymReal, SymInt, SymBool, Unsupported

SYM = (SymReal, SymInt, SymBool)
FLOAT_KINDS = "fc"


def has_sym(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def sa(x):
    """view/convert to SymArray"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return x.view(SymArray)
    return x


def obj(x):
    """object ndarray"""
    a = np.empty(np.shape(x), dtype=object) if not isinstance(
        x, np.ndarray) else x
    if not isinstance(x, np.ndarray):
        a = np.array(x, dtype=object)
    return a


def _conc_index(idx):
    if isinstance(idx, tuple):
        return tuple(_conc_index(i) for i in idx)
    if isinstance(idx, (SymInt, SymReal)):
        return int(idx.__index__())
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        return conc_int_array(idx)
    if isinstance(idx, list) and has_sym(idx):
        return conc_int_array(np.array(idx, dtype=object))
    return np.asarray(idx) if isinstance(idx, SymArray) else idx


def conc_int_array(a):
    """object array of (symbolic) ints or bools -> concrete array (forks)"""
    flat = np.asarray(a).ravel()
    if flat.size and builtins.all(isinstance(v, (bool, np.bool_, SymBool))
                                  for v in flat):
        out = np.array([bool(v) for v in flat], dtype=bool)
    else:
        vals = []
        for v in flat:
            if isinstance(v, SYM):
                vals.append(v.__index__())
            elif isinstance(v, (int, np.integer, bool, np.bool_)):
                vals.append(int(v))
            elif isinstance(v, float) and v == int(v):
                vals.append(int(v))
            else:
                raise IndexError(
                    "arrays used as indices must be of integer type")
        out = np.array(vals, dtype=np.int64)
    return out.reshape(np.shape(a))


def concretize_ints(a):
    """SymInt elements -> ints (forks); everything else untouched"""
    a = np.asarray(a)
    if a.dtype != object:
        return a
    flat = [v.value() if isinstance(v, SymInt) else v for v in a.ravel()]
    if flat and builtins.all(isinstance(v, (int, np.integer)) and
                             not isinstance(v, bool) for v in flat):
        return np.array(flat, dtype=np.int64).reshape(a.shape)
    o = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        o[i] = v
    return o.reshape(a.shape)


class SymArray(np.ndarray):
    def __new__(cls, x=None, shape=None):
        if shape is not None:
            r = np.ndarray.__new__(cls, shape, dtype=object)
            return r
        a = np.array(x, dtype=object)
        return a.view(cls)

    def __array_finalize__(self, o):
        pass

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar or arr.ndim == 0:
            return arr[()]
        return arr.view(SymArray)

    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, _conc_index(idx))

    def __setitem__(self, idx, v):
        np.ndarray.__setitem__(self, _conc_index(idx), v)

    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            if _is_float_dtype(dtype):
                return SymArray(np.asarray(self))
            return np.asarray(self).astype(_real_dtype(dtype), *a,
                                           **k).view(SymArray)
        if _is_float_dtype(dtype) or _real_dtype(dtype) is object:
            return self.copy()
        if np.dtype(_real_dtype(dtype)).kind in "iub":
            if np.dtype(_real_dtype(dtype)).kind == "b":
                return np.array([bool(v) for v in self.ravel()]).reshape(
                    self.shape).view(SymArray)
            out = [int(v) if not isinstance(v, SymInt) else v
                   for v in np.asarray(self).ravel()]
            r = SymArray(shape=len(out))
            for i, v in enumerate(out):
                r[i] = v
            return r.reshape(self.shape)
        return self.copy()

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        s = np.ndarray.sum(self, axis=axis, keepdims=keepdims)
        if n == 0:
            return math.nan
        return _true_div(s, n)

    def var(self, axis=None, ddof=0, **k):
        m = self.mean(axis=axis, keepdims=True) if axis is not None else \
            self.mean()
        d = self - m
        n = self.size if axis is None else self.shape[axis]
        return _true_div((d * d).sum(axis=axis), n - ddof)

    def std(self, axis=None, ddof=0, **k):
        return NP.sqrt(self.var(axis=axis, ddof=ddof))

    def dot(self, o):
        return NP.dot(self, o)

    def all(self, *a, **k):
        return NP.all(self, *a, **k)

    def any(self, *a, **k):
        return NP.any(self, *a, **k)

    def argmax(self, axis=None, **k):
        return NP.argmax(self, axis=axis, **k)

    def argmin(self, axis=None, **k):
        return NP.argmin(self, axis=axis, **k)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def resize(self, *shape, refcheck=True):
        try:
            np.ndarray.resize(self, *shape, refcheck=False)
        except ValueError:
            raise Unsupported("in-place resize of a view")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()


def _true_div(s, n):
    if isinstance(s, np.ndarray):
        if s.dtype != object:
            s = SymArray(s)
        return s / n
    if isinstance(s, SYM):
        return s / n
    # exact division of concrete numbers
    r = E.to_rat(s)
    if r is None:
        return s / n
    return E.wrap(r) / n


# -- python builtins seen by the code under analysis -----------------------

class _FloatMeta(type):
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SYM):
            if isinstance(a[0], SymReal):
                return a[0]
            return a[0]._real() if isinstance(a[0], SymInt) else float(
                bool(a[0]))
        if a and isinstance(a[0], np.ndarray) and a[0].size == 1:
            return cls(a[0].ravel()[0])
        return float(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, n):
        return getattr(float, n)


class Float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0]
        if a and isinstance(a[0], np.ndarray) and a[0].size == 1:
            return cls(a[0].ravel()[0])
        return int(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __getattr__(cls, n):
        return getattr(int, n)


class Int(metaclass=_IntMeta):
    pass


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymReal):
                return Float
            if isinstance(x, SymInt):
                return Int
            if isinstance(x, SymBool):
                return bool
            if isinstance(x, SymArray):
                return np.ndarray
            t = type(x)
            if t is float:
                return Float
            if t is int:
                return Int
            return t
        return type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __getattr__(cls, n):
        return getattr(type, n)


class Type(metaclass=_TypeMeta):
    pass


def sym_isinstance(x, c):
    if isinstance(c, tuple):
        return any(sym_isinstance(x, t) for t in c)
    if isinstance(x, SymReal):
        if c in (float, Float, np.floating, np.number, np.float64) or \
                c is object:
            return True
        import numbers
        if c in (numbers.Number, numbers.Real):
            return True
        return c is SymReal
    if isinstance(x, SymInt):
        import numbers
        return c in (int, Int, object, numbers.Number, numbers.Integral,
                     numbers.Real, SymInt, np.integer)
    if isinstance(x, SymBool):
        return c in (bool, int, Int, object, np.bool_)
    if c is Float:
        return isinstance(x, float)
    if c is Int:
        return isinstance(x, int)
    if isinstance(c, types.UnionType):
        return any(sym_isinstance(x, t) for t in c.__args__)
    return isinstance(x, c)


def sym_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def sym_round(x, n=None):
    if isinstance(x, SYM):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


BUILTINS = dict(vars(builtins))
BUILTINS.update(float=Float, int=Int, type=Type, isinstance=sym_isinstance,
                round=sym_round)


# -- dtype handling --------------------------------------------------------

def _is_float_dtype(d):
    if d is None:
        return False
    if d in (float, Float):
        return True
    try:
        return np.dtype(d).kind in FLOAT_KINDS
    except TypeError:
        return False


def _real_dtype(d):
    if d is None:
        return None
    if d is Float:
        return float
    if d is Int:
        return int
    return d


def _lift_arr(a):
    """float ndarray -> SymArray of exact values (ints/bools untouched)"""
    if a.dtype.kind in FLOAT_KINDS:
        return SymArray(a.astype(object))
    return a.view(SymArray)


class _Linalg:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                raise Unsupported(f"numpy.linalg.{n} on symbolic data")
            return f(*a, **k)
        return g if callable(f) and not isinstance(f, type) else f

    @staticmethod
    def _m(a):
        a = np.asarray(a, dtype=object) if not isinstance(
            a, np.ndarray) else np.asarray(a)
        if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
            raise np.linalg.LinAlgError(
                "Last 2 dimensions of the array must be square")
        if a.ndim > 2:
            raise Unsupported("stacked linear algebra")
        return a.astype(object)

    @staticmethod
    def _pd(a, d):
        """a symmetric matrix with a positive corner (scale, precision): its
        determinant is expected to be positive"""
        n = len(a)
        if n > 1 and E.ENG.track and isinstance(d, SYM) and all(
                isinstance(a[i, j], SYM) for i in range(n)
                for j in range(n)) and all(
                a[i, j].r.equals(a[j, i].r) for i in range(n)
                for j in range(i)):
            E.expect(d > 0, "determinant of a symmetric matrix positive")

    def det(self, a):
        a = self._m(a)
        d = _det(a)
        self._pd(a, d)
        return d

    def slogdet(self, a):
        d = _det(self._m(a))
        if d > 0:
            return (1.0, E.f_log(d))
        if d < 0:
            return (-1.0, E.f_log(-d))
        return (0.0, -math.inf)

    def inv(self, a):
        a = self._m(a)
        n = len(a)
        d = _det(a)
        if not isinstance(d, SYM):
            d = E.wrap(E.to_rat(d))
        self._pd(a, d)
        if not E.expect(d != 0, "matrix invertible"):
            raise np.linalg.LinAlgError("Singular matrix")
        out = SymArray(shape=(n, n))
        if n == 1:
            out[0, 0] = 1 / d
            return out
        for i in range(n):
            for j in range(n):
                minor = np.delete(np.delete(a, j, 0), i, 1)
                out[i, j] = _det(minor) * ((-1) ** (i + j)) / d
        return out

    pinv = inv

    def solve(self, a, b):
        return NP.dot(self.inv(a), sa(np.asarray(b, dtype=object)))

    def norm(self, a, ord=None, axis=None, **k):
        if ord not in (None, 2, "fro"):
            raise Unsupported("norm order")
        a = np.asarray(a, dtype=object)
        if ord == 2 and a.ndim > 1 and axis is None:
            raise Unsupported("spectral norm")
        s = (a * a).sum(axis=axis)
        return NP.sqrt(s)

    def cholesky(self, a):
        a = self._m(a)
        n = len(a)
        L = SymArray(shape=(n, n))
        L[...] = 0
        for i in range(n):
            for j in range(i + 1):
                s = a[i, j]
                for t in range(j):
                    s = s - L[i, t] * L[j, t]
                if i == j:
                    if not (s > 0):
                        raise np.linalg.LinAlgError("not positive definite")
                    L[i, j] = NP.sqrt(s)
                else:
                    L[i, j] = s / L[j, j]
        return L

    def matrix_power(self, a, n):
        raise Unsupported("matrix_power")


def _det(a):
    n = len(a)
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    if n > 4:
        raise Unsupported("determinant beyond 4x4")
    s = 0
    for j in range(n):
        if isinstance(a[0, j], (int, float)) and a[0, j] == 0:
            continue
        minor = np.delete(a[1:], j, 1)
        s = s + a[0, j] * _det(minor) * (-1) ** j
    return s


class _Random:
    """numpy.random as seen by the code: only explicit generators"""

    def __init__(self, world):
        self._w = world
        self.RandomState = world.RandomState

    @property
    def Generator(self):
        return self._w.RngClass

    def default_rng(self, seed=None):
        return self._w.default_rng(seed)

    def __getattr__(self, n):
        if n in ("BitGenerator", "SeedSequence", "PCG64", "MT19937"):
            return getattr(np.random, n)
        real = getattr(np.random, n)
        if not callable(real):
            return real
        w = self._w

        def global_rng(*a, **k):
            return w.global_random(n, *a, **k)
        return global_rng


class SymNumpy(types.ModuleType):
    """module object handed out for `import numpy`"""

    def __init__(self, world):
        super().__init__("numpy")
        self.__path__ = []
        self._world = world
        self.linalg = _Linalg()
        self.random = _Random(world)
        self.ndarray = np.ndarray
        self.float64 = np.float64
        self.int64 = np.int64

    @property
    def pi(self):
        return E.eng().pi()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(np, n)
        if isinstance(real, np.ufunc):
            return _Ufunc(n, real)
        if isinstance(real, type) or not callable(real):
            return real

        def f(*a, **k):
            if "dtype" in k:
                k["dtype"] = object if _is_float_dtype(k["dtype"]) else \
                    _real_dtype(k["dtype"])
            r = real(*[_plain(x) for x in a],
                     **{q: _plain(v) for q, v in k.items()})
            return _post(r)
        f.__name__ = n
        return f

    def finfo(self, dt=None):
        """exact real arithmetic: machine epsilon is zero (unless the limits of
        double precision are under check)"""
        r = np.finfo(np.float64)
        eps = Fraction(1, 2 ** 52) if E.eng().limits else 0
        return types.SimpleNamespace(
            eps=eps, epsneg=eps / 2, tiny=0, smallest_normal=0, smallest_subnormal=0,
            resolution=0, max=math.inf, min=-math.inf, bits=r.bits,
            precision=r.precision, dtype=r.dtype)

    # constructors
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "iub" and (dtype is None or
                                          not _is_float_dtype(dtype)):
                r = np.array(x, dtype=_real_dtype(dtype)).view(SymArray)
            else:
                r = SymArray(np.asarray(x).astype(object))
                if dtype is not None and not _is_float_dtype(dtype):
                    r = r.astype(dtype)
        else:
            if isinstance(x, types.GeneratorType):
                return np.array(x)
            if isinstance(x, (range, map, filter)):
                x = list(x)
            sym = has_sym_deep(x)
            if sym:
                r = SymArray(_np_obj(x))
                if dtype is not None and not _is_float_dtype(dtype) and \
                        _real_dtype(dtype) is not object:
                    r = r.astype(dtype)
            else:
                a = np.array(_plain(x), dtype=_real_dtype(dtype))
                if a.dtype == object:
                    a = np.array(x, dtype=object)
                r = _lift_arr(a)
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and (
                dtype is None or x.dtype == object and
                _is_float_dtype(dtype)):
            return sa(x)
        return self.array(x, dtype=dtype)
    asanyarray = ascontiguousarray = asarray

    def asarray_chkfinite(self, x, dtype=None, **k):
        return self.asarray(x, dtype=dtype)

    def _mk(self, shape, dtype, fill):
        if isinstance(shape, SYM):
            shape = int(shape.__index__())
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s.__index__()) if isinstance(s, SYM) else s
                          for s in shape)
        if dtype is None or _is_float_dtype(dtype) or \
                _real_dtype(dtype) is object:
            r = SymArray(shape=shape)
            r.fill(fill)
            return r
        return np.full(shape, fill, dtype=_real_dtype(dtype)).view(SymArray)

    def empty(self, shape, dtype=None, **k):
        return self._mk(shape, dtype, 0)

    def zeros(self, shape, dtype=None, **k):
        return self._mk(shape, dtype, 0)

    def ones(self, shape, dtype=None, **k):
        return self._mk(shape, dtype, 1)

    def full(self, shape, fill_value, dtype=None, **k):
        if dtype is None and not isinstance(fill_value, SYM) and \
                not isinstance(fill_value, float):
            return np.full(shape, fill_value).view(SymArray)
        return self._mk(shape, dtype if dtype is not None else float,
                        fill_value)

    def empty_like(self, a, dtype=None, **k):
        return self._mk(np.shape(a), dtype or _like(a), 0)

    def zeros_like(self, a, dtype=None, **k):
        return self._mk(np.shape(a), dtype or _like(a), 0)

    def ones_like(self, a, dtype=None, **k):
        return self._mk(np.shape(a), dtype or _like(a), 1)

    def full_like(self, a, v, dtype=None, **k):
        return self._mk(np.shape(a), dtype or _like(a), v)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        return SymArray(np.eye(n, m, k, dtype=int).astype(object))

    def identity(self, n, dtype=None):
        return self.eye(n)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        if has_sym(a) or has_sym(b):
            if num > 3 and endpoint and has_sym(a) and has_sym(b):
                num = self._world.grid or num
            n = num - 1 if endpoint else num
            return self.array([a + (b - a) * Fraction(i, n) if n else a
                               for i in range(num)])
        return _lift_arr(np.linspace(a, b, num, endpoint, **k))

    def arange(self, *a, dtype=None, **k):
        a = [int(x.__index__()) if isinstance(x, SYM) else x for x in a]
        return _lift_arr(np.arange(*a, **k))

    def float_(self, x=0):
        return Float(x)

    def copy(self, a, **k):
        return self.array(a)

    # element-wise functions
    def log(self, x, **k):
        return _ew(E.f_log, _log_float, x)

    def log1p(self, x, **k):
        return self.log(_plus(1, x))

    def exp(self, x, **k):
        return _ew(E.f_exp, E.f_exp, x)

    def cos(self, x, **k):
        return _ew(E.f_cos, E.f_cos, x)

    def sin(self, x, **k):
        return _ew(E.f_sin, E.f_sin, x)

    def expm1(self, x, **k):
        return _plus(-1, self.exp(x))

    def sqrt(self, x, **k):
        return _ew(E.f_sqrt, E.f_sqrt, x)

    def isnan(self, x, **k):
        return _pred(x, lambda v: v != v)

    def isinf(self, x, **k):
        return _pred(x, math.isinf)

    def isfinite(self, x, **k):
        return _pred(x, math.isfinite)

    def nan_to_num(self, x, nan=0.0, posinf=None, neginf=None, **k):
        def f(v):
            if isinstance(v, SYM):
                return v
            return float(np.nan_to_num(v, nan=nan, posinf=posinf,
                                       neginf=neginf))
        return _map(f, x)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not (has_sym(a) or has_sym(b)):
            return np.isclose(a, b, rtol, atol, **k)
        aa, bb = np.broadcast_arrays(obj(a), obj(b))
        out = [bool(abs(x - y) <= E.lift_float(atol) +
                    abs(y) * E.lift_float(rtol))
               for x, y in zip(aa.ravel(), bb.ravel())]
        r = np.array(out).reshape(aa.shape)
        return r if r.ndim else bool(r)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return bool(np.all(self.isclose(a, b, rtol, atol)))

    def array_equal(self, a, b, **k):
        a, b = np.asarray(obj(a)), np.asarray(obj(b))
        if a.shape != b.shape:
            return False
        return all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))

    def errstate(self, **k):
        return np.errstate(**k)

    def abs(self, x, **k):
        return _map(lambda v: abs(v), x)
    absolute = fabs = abs

    def square(self, x):
        return x * x if not isinstance(x, list) else self.array(x) ** 2

    def power(self, x, y):
        return _Ufunc("power", np.power)(x, y)

    def float_power(self, x, y):
        return _Ufunc("power", np.power)(x, y)

    def floor(self, x):
        return _map(lambda v: math.floor(v), x)

    def ceil(self, x):
        return _map(lambda v: math.ceil(v), x)

    def trunc(self, x):
        return _map(lambda v: math.trunc(v), x)

    # reductions with object-array quirks
    def mean(self, a, axis=None, **k):
        return self.array(a).mean(axis=axis, **k) if not isinstance(
            a, SymArray) else a.mean(axis=axis, **k)

    def average(self, a, axis=None, weights=None, **k):
        a = self.asarray(a)
        if weights is None:
            return a.mean(axis=axis)
        w = self.asarray(weights)
        if axis is not None and w.ndim == 1 and a.ndim > 1:
            sh = [1] * a.ndim
            sh[axis] = -1
            wb = w.reshape(sh)
        else:
            wb = w
        return (a * wb).sum(axis=axis) / w.sum()

    def var(self, a, axis=None, ddof=0, **k):
        return self.asarray(a).var(axis=axis, ddof=ddof)

    def std(self, a, axis=None, ddof=0, **k):
        return self.asarray(a).std(axis=axis, ddof=ddof)

    def all(self, a, axis=None, **k):
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array([bool(v) for v in a.ravel()],
                         dtype=bool).reshape(a.shape)
        return np.all(a, axis=axis, **k)

    def any(self, a, axis=None, **k):
        a = np.asarray(a)
        if a.dtype == object:
            a = np.array([bool(v) for v in a.ravel()],
                         dtype=bool).reshape(a.shape)
        return np.any(a, axis=axis, **k)

    def argmax(self, a, axis=None, **k):
        return _arg(a, axis, lambda x, y: x > y)

    def argmin(self, a, axis=None, **k):
        return _arg(a, axis, lambda x, y: x < y)

    def bincount(self, x, weights=None, minlength=0):
        a = np.asarray(obj(x)) if not isinstance(x, np.ndarray) else \
            np.asarray(x)
        if a.ndim != 1:
            raise ValueError("object too deep for desired array")
        if isinstance(minlength, SYM):
            minlength = int(minlength.__index__())
        w = None if weights is None else np.asarray(obj(weights))
        if w is not None and len(w) != len(a):
            raise ValueError("The weights and list don't have the same "
                             "length.")
        if a.dtype != object and a.dtype.kind not in "iub":
            raise TypeError("Cannot cast array data to int64 according to "
                            "the rule 'safe'")
        vals = []
        for v in a:
            if isinstance(v, (SymReal, SymBool)):
                v = v.__index__()
            elif isinstance(v, (float, np.floating)):
                raise TypeError("Cannot cast array data to int64 according "
                                "to the rule 'safe'")
            vals.append(v)
        top = -1
        cands = sorted({u for v in vals
                        for u in (v.dom if isinstance(v, SymInt) else [v])},
                       reverse=True)
        if cands and cands[-1] < 0:
            raise ValueError("'list' argument must have no negative elements")
        for u in cands:
            if any(not isinstance(v, SymInt) and v == u for v in vals):
                top = u
                break
            cs = [c for c in (v.is_cond(u) for v in vals
                              if isinstance(v, SymInt)) if c is not E.FALSE]
            if cs and E.eng().branch(E.Cond("or", cs) if len(cs) > 1
                                     else cs[0]):
                top = u
                break
        n = max(top + 1, minlength)
        out = SymArray(shape=n)
        for u in range(n):
            s = 0
            for i, v in enumerate(vals):
                if isinstance(v, SymInt):
                    t = E.wrap(v.ind(u))
                    if t.r.is_const():
                        t = int(t.r.const_value())
                else:
                    t = int(v == u)
                if w is not None:
                    t = t * w[i]
                s = s + t
            out[u] = s
        if w is None and all(isinstance(v, (int, np.integer)) for v in out):
            r = np.ndarray.__new__(SymArray, n, dtype=np.int64)
            r[...] = np.array([int(v) for v in out], dtype=np.int64)
            return r
        return out

    def unique(self, a, return_index=False, return_inverse=False,
               return_counts=False, axis=None, **k):
        a = concretize_ints(a)
        if a.dtype == object and axis is None:
            # symbolic reals: sort by comparisons
            flat = list(a.ravel())
            uniq, inv = [], [None] * len(flat)
            order = _sorted_idx(flat)
            idx, cnt = [], []
            for i in order:
                if uniq and bool(flat[i] == uniq[-1]):
                    inv[i] = len(uniq) - 1
                    cnt[-1] += 1
                    idx[-1] = min(idx[-1], i)
                else:
                    uniq.append(flat[i])
                    idx.append(i)
                    cnt.append(1)
                    inv[i] = len(uniq) - 1
            res = [SymArray(_np_obj(uniq))]
            if return_index:
                res.append(np.array(idx))
            if return_inverse:
                res.append(np.array(inv).reshape(a.shape))
            if return_counts:
                res.append(np.array(cnt))
            return res[0] if len(res) == 1 else tuple(res)
        return _post(np.unique(a, return_index=return_index,
                               return_inverse=return_inverse,
                               return_counts=return_counts, axis=axis, **k))

    def isin(self, a, b, **k):
        return _post(np.isin(concretize_ints(a), concretize_ints(b), **k))

    def argsort(self, a, axis=-1, kind=None, **k):
        a = concretize_ints(a)
        if a.dtype == object:
            if a.ndim != 1:
                raise Unsupported("argsort of a symbolic matrix")
            return np.array(_sorted_idx(list(a)), dtype=np.int64)
        return np.argsort(a, axis=axis, kind=kind)

    def sort(self, a, **k):
        a = concretize_ints(a)
        if a.dtype == object:
            return SymArray(_np_obj([a[i] for i in _sorted_idx(list(a))]))
        return _post(np.sort(a, **k))

    def lexsort(self, keys, **k):
        return np.lexsort([concretize_ints(x) for x in keys], **k)

    def searchsorted(self, a, v, side="left", sorter=None):
        a = list(np.asarray(a))

        def one(x):
            n = 0
            for t in a:
                if (t < x) if side == "left" else (t <= x):
                    n += 1
                else:
                    break
            return n
        return _map(one, v, ints=True)

    def digitize(self, x, bins, right=False):
        return self.searchsorted(bins, x, side="left" if right else "right")

    def repeat(self, a, repeats, axis=None):
        if isinstance(repeats, SYM):
            repeats = int(repeats.__index__())
        elif isinstance(repeats, np.ndarray) and repeats.dtype == object:
            repeats = conc_int_array(repeats)
        a = self.asarray(a) if not np.isscalar(a) and not isinstance(
            a, SYM) else SymArray(_np_obj([a]))
        return sa(np.repeat(np.asarray(a), repeats, axis=axis))

    def tile(self, a, reps):
        return sa(np.tile(np.asarray(self.asarray(a)
                                     if not isinstance(a, SYM) else
                                     _np_obj([a])), reps))

    def clip(self, a, lo=None, hi=None, *args, **k):
        lo = k.get("a_min", k.get("min", lo))
        hi = k.get("a_max", k.get("max", hi))

        def f(v, l, h):
            if l is not None and v < l:
                v = l
            if h is not None and v > h:
                v = h
            return v
        if not (has_sym(a) or has_sym(lo) or has_sym(hi)):
            return np.clip(a, lo, hi)
        aa = obj(a)
        lo_b = np.broadcast_to(obj(lo), aa.shape)
        hi_b = np.broadcast_to(obj(hi), aa.shape)
        out = [f(v, l, h) for v, l, h in
               zip(aa.ravel(), lo_b.ravel(), hi_b.ravel())]
        return _reshape_like(out, aa.shape)

    def where(self, c, *a):
        c = np.asarray(c)
        if c.dtype == object:
            c = np.array([bool(v) for v in c.ravel()],
                         dtype=bool).reshape(c.shape)
        if not a:
            return np.where(c)
        x, y = [np.asarray(obj(v)) for v in a]
        return sa(np.where(c, x, y))

    def nonzero(self, c):
        c = np.asarray(c)
        if c.dtype == object:
            c = np.array([bool(v) for v in c.ravel()],
                         dtype=bool).reshape(c.shape)
        return np.nonzero(c)

    def flatnonzero(self, c):
        return self.nonzero(np.ravel(c))[0]

    def argwhere(self, c):
        return np.transpose(self.nonzero(c))

    def count_nonzero(self, c, axis=None):
        c = np.asarray(c)
        if c.dtype == object:
            c = np.array([bool(v) for v in c.ravel()],
                         dtype=bool).reshape(c.shape)
        return np.count_nonzero(c, axis=axis)

    def cov(self, m, y=None, rowvar=True, bias=False, ddof=None, **k):
        if y is not None or k.get("fweights") is not None:
            raise Unsupported("np.cov variants")
        X = np.asarray(self.array(m)).astype(object)
        if X.ndim == 0:
            X = X.reshape(1, 1)
        if X.ndim == 1:
            X = X.reshape(1, -1)
        if not rowvar and X.shape[0] != 1:
            X = X.T
        n = X.shape[1]
        aw = k.get("aweights")
        if ddof is None:
            ddof = 0 if bias else 1
        D = X.shape[0]
        if aw is not None:
            aw = np.asarray(obj(aw))
            W = aw.sum()
            mean = [(X[i] * aw).sum() / W for i in range(D)]
            den = W if ddof == 0 else W - ddof * (aw * aw).sum() / W
            wts = aw
        else:
            mean = [_true_div(X[i].sum(), n) if n else 0 for i in range(D)]
            den = n - ddof
            wts = np.array([1] * n, dtype=object)
        if not isinstance(den, SYM) and den <= 0:
            den = 0
        out = SymArray(shape=(D, D))
        for i in range(D):
            for j in range(D):
                s = 0
                for t in range(n):
                    s = s + wts[t] * (X[i, t] - mean[i]) * (X[j, t] - mean[j])
                out[i, j] = _true_div(s, den) if (isinstance(den, SYM) or den != 0) else math.nan
        out = np.ndarray.squeeze(out)
        return out

    def dot(self, a, b):
        a, b = _obj2(a), _obj2(b)
        return _post(np.dot(a, b))

    def matmul(self, a, b):
        a, b = _obj2(a), _obj2(b)
        return _post(np.matmul(a, b))

    def inner(self, a, b):
        return _post(np.inner(_obj2(a), _obj2(b)))

    def vdot(self, a, b):
        return _post(np.dot(np.ravel(_obj2(a)), np.ravel(_obj2(b))))

    def outer(self, a, b):
        return _post(np.outer(_obj2(a), _obj2(b)))

    def trace(self, a, *r, **k):
        return _post(np.trace(_obj2(a), *r, **k))

    def einsum(self, spec, *ops, **k):
        k.pop("optimize", None)
        return _post(np.einsum(spec, *[_obj2(o) for o in ops], **k))

    def interp(self, *a, **k):
        raise Unsupported("np.interp")

    def vectorize(self, f, *a, **k):
        def g(*xs):
            arrs = np.broadcast_arrays(*[obj(x) for x in xs])
            out = [f(*t) for t in zip(*[v.ravel() for v in arrs])]
            return _reshape_like(out, arrs[0].shape)
        return g

    def isscalar(self, x):
        return isinstance(x, SYM) or np.isscalar(x)

    def ndim(self, x):
        return 0 if isinstance(x, SYM) else np.ndim(x)

    def shape(self, x):
        return () if isinstance(x, SYM) else np.shape(x)

    def size(self, x, axis=None):
        return np.size(x, axis)

    def cumsum(self, a, axis=None, **k):
        return _post(np.cumsum(_plain(self.asarray(a)), axis=axis))

    def cumprod(self, a, axis=None, **k):
        return _post(np.cumprod(_plain(self.asarray(a)), axis=axis))

    def sum(self, a, axis=None, dtype=None, keepdims=False, **k):
        if isinstance(a, types.GeneratorType):
            return sym_sum(a)
        a = self.asarray(a)
        kw = {"keepdims": True} if keepdims else {}
        kw.update({q: v for q, v in k.items() if q in ("initial", "where")})
        return _post(np.sum(_plain(a), axis=axis, **kw))

    def logaddexp(self, a, b):
        t = self.maximum(a, b) if E.eng().limits else 0
        return self.log(self.exp(a - t) + self.exp(b - t)) + t


def _like(a):
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        return a.dtype
    if isinstance(a, (int, list)) and not has_sym(a):
        return np.asarray(a).dtype
    return float


def _obj2(a):
    if isinstance(a, np.ndarray):
        return np.asarray(a).astype(object)
    if isinstance(a, SYM):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    return np.asarray(_np_obj(a))


def _np_obj(x):
    """nested python sequence / arrays -> object ndarray (no element-wise
    introspection of symbolic scalars)"""
    if isinstance(x, np.ndarray):
        return np.asarray(x).astype(object)
    if isinstance(x, (list, tuple)):
        parts = [_np_obj(v) for v in x]
        if not parts:
            return np.empty(0, dtype=object)
        if all(not isinstance(p, np.ndarray) for p in parts):
            r = np.empty(len(parts), dtype=object)
            for i, p in enumerate(parts):
                r[i] = p
            return r
        shp = {np.shape(p) if isinstance(p, np.ndarray) else ()
               for p in parts}
        if len(shp) != 1:
            raise ValueError(
                "setting an array element with a sequence. The requested "
                "array has an inhomogeneous shape")
        arrs = []
        for p in parts:
            arrs.append(p)
        return np.stack(arrs) if arrs[0].ndim else _stack0(arrs)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if hasattr(x, "to_numpy"):
        return np.asarray(x.to_numpy()).astype(object)
    if isinstance(x, range):
        return _np_obj(list(x))
    return x


def _stack0(arrs):
    r = np.empty(len(arrs), dtype=object)
    for i, p in enumerate(arrs):
        r[i] = p.item() if isinstance(p, np.ndarray) else p
    return r


def has_sym_deep(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym_deep(v) for v in x)
    return False


def _plain(x):
    """argument for a real numpy function: symbolic scalars inside sequences
    become object arrays"""
    if isinstance(x, SymArray):
        return np.asarray(x)
    if isinstance(x, SYM):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, tuple):
        return tuple(_seqitem(v) for v in x)
    if isinstance(x, list):
        if has_sym_deep(x):
            if any(isinstance(v, np.ndarray) for v in x):
                return [_seqitem(v) for v in x]
            return _np_obj(x)
        return x
    return x


def _seqitem(v):
    if isinstance(v, SymArray):
        return np.asarray(v)
    if isinstance(v, list) and has_sym_deep(v):
        return _np_obj(v)
    return v


def _post(r):
    if isinstance(r, tuple):
        return tuple(_post(v) for v in r)
    if isinstance(r, np.ndarray):
        if r.ndim == 0 and r.dtype == object:
            return r.item()
        if r.dtype.kind in FLOAT_KINDS:
            return SymArray(r.astype(object))
        return r.view(SymArray)
    return r


def _reshape_like(out, shape):
    if shape == ():
        return out[0]
    r = SymArray(shape=len(out))
    for i, v in enumerate(out):
        r[i] = v
    return r.reshape(shape)


def _map(f, x, ints=False):
    if isinstance(x, (list, tuple)):
        x = _np_obj(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return f(x.item())
        out = [f(v) for v in np.asarray(x).ravel()]
        if ints or (out and all(isinstance(v, (int, bool)) for v in out)):
            return np.array(out).reshape(x.shape).view(SymArray)
        return _reshape_like(out, x.shape) if out else x
    return f(x)


def _pred(x, f):
    def g(v):
        if isinstance(v, SYM):
            return f is math.isfinite
        return bool(f(float(v)))
    r = _map(g, x)
    return r


def _ew(fsym, ffloat, x):
    def g(v):
        if isinstance(v, SYM):
            return fsym(v) if not isinstance(v, SymBool) else \
                ffloat(int(bool(v)))
        return ffloat(v)
    if isinstance(x, (list, tuple)):
        x = _np_obj(x)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return g(x.item())
        out = [g(v) for v in np.asarray(x).ravel()]
        return _reshape_like(out, x.shape) if out else SymArray(
            shape=x.shape)
    return g(x)


def _log_float(v):
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if v == 0:
        return -math.inf
    if v == 1:
        return 0
    return E.f_log(v)


def _plus(c, x):
    return c + (sa(_np_obj(x)) if isinstance(x, (list, tuple)) else x)


def _sorted_idx(vals):
    """stable insertion sort by symbolic comparisons"""
    order = []
    for i, v in enumerate(vals):
        p = len(order)
        while p > 0 and v < vals[order[p - 1]]:
            p -= 1
        order.insert(p, i)
    return order


def _best(v, better):
    """index of the first best entry, by one choice among the candidates
    instead of a tournament"""
    en = E.eng()

    def first(j, over):
        """v[j] is better than those before it, no worse than those after"""
        c = []
        for i in over:
            if i == j:
                continue
            t = E.as_cond(better(v[j], v[i])) if i < j else \
                E.as_cond(better(v[i], v[j])).neg()
            k = en.decided(t)
            if k is False:
                return None
            if k is None:
                c.append(t)
        return c
    every = range(len(v))
    left = list(every)
    while left:
        left = [i for i in left if first(i, every) is not None] or left[-1:]
        j = left.pop(0)
        c = first(j, every) or []
        if not left:
            for t in c:
                en.assume(t)
            return j
        if not c or en.branch(c[0] if len(c) == 1 else E.Cond("and", c)):
            return j


def _arg(a, axis, better):
    if isinstance(a, (list, tuple)):
        a = _np_obj(a)
    a = np.asarray(a)

    def one(v):
        v = list(v)
        if not v:
            raise ValueError("attempt to get argmax of an empty sequence")
        b = 0
        for i, x in enumerate(v):
            if not isinstance(x, SYM) and x != x:
                return i  # first NaN wins, as in numpy
        if len(v) > 2 and sum(isinstance(x, SYM) for x in v) > 2:
            return _best(v, better)
        for i in range(1, len(v)):
            if better(v[i], v[b]):
                b = i
        return b
    if axis is None:
        return one(a.ravel())
    b = np.moveaxis(a, axis, -1)
    if b.ndim == 1:
        return one(b)
    out = [one(r) for r in b.reshape(-1, b.shape[-1])]
    return np.array(out, dtype=np.int64).reshape(b.shape[:-1]).view(SymArray)


class _Ufunc:
    def __init__(self, n, real):
        self._n = n
        self._r = real

    def __call__(self, *a, **k):
        if k.get("dtype") is not None and _is_float_dtype(k["dtype"]):
            k["dtype"] = object
        if "where" in k:
            k["where"] = _mask(k["where"])
        a = [_np_obj(x) if isinstance(x, (list, tuple)) and has_sym_deep(x)
             else x for x in a]
        if any(isinstance(x, SYM) for x in a) and all(
                isinstance(x, SYM) or np.isscalar(x) for x in a):
            a = [_plain(x) for x in a]
        r = self._r(*a, **k)
        return _post(r) if isinstance(r, np.ndarray) else r

    def outer(self, a, b, **k):
        return _post(self._r.outer(_obj2(a), _obj2(b), **k)) if (
            has_sym(a) or has_sym(b)) else self._r.outer(a, b, **k)

    def reduce(self, a, *r, **k):
        return _post(self._r.reduce(_plain(a) if not isinstance(a, list)
                                    else _np_obj(a), *r, **k))

    def accumulate(self, a, *r, **k):
        return _post(self._r.accumulate(_plain(a), *r, **k))

    def at(self, a, idx, b=None):
        idx = _conc_index(idx)
        if b is None:
            return self._r.at(a, idx)
        return self._r.at(np.asarray(a), idx, b)

    def __getattr__(self, n):
        return getattr(self._r, n)


def _mask(w):
    if isinstance(w, np.ndarray) and w.dtype == object:
        return np.array([bool(v) for v in np.asarray(w).ravel()],
                        dtype=bool).reshape(w.shape)
    return np.asarray(w) if isinstance(w, (list, tuple, np.ndarray)) \
        else bool(w)


def _with_out(n, f):
    """numpy's `out` (any function) and `where` (element-wise ones)"""
    real = getattr(np, n)
    nin = real.nin if isinstance(real, np.ufunc) else None

    @functools.wraps(f)
    def g(self, *a, **k):
        out, where = None, True
        if nin and len(a) > nin:
            out, a = a[nin], a[:nin]
        if "out" in k and n != "where":
            out = k.pop("out")
        if nin and "where" in k:
            where = k.pop("where")
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            w = _mask(where)
            xs = np.broadcast_arrays(*[np.asarray(self.asarray(x)) for x in a],
                                     w, *([] if out is None else [out]))
            m = np.asarray(xs[len(a)])
            if out is None:
                out = _lift_arr(np.full(m.shape, np.nan))
            part = f(self, *[_post(np.asarray(x)[m]) for x in xs[:len(a)]],
                     **k)
            out[m] = part
            return out
        r = f(self, *a, **k)
        if out is None:
            return r
        out[...] = r
        return out
    return g


for _n, _f in list(vars(SymNumpy).items()):
    if isinstance(_f, types.FunctionType) and not _n.startswith("_") and \
            callable(getattr(np, _n, None)) and not isinstance(
                getattr(np, _n), type) and _n not in ("errstate", "einsum"):
        setattr(SymNumpy, _n, _with_out(_n, _f))

NP = SymNumpy.__new__(SymNumpy)
types.ModuleType.__init__(NP, "numpy")
NP.linalg = _Linalg()
