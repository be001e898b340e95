"""The environment of the code under analysis.

`SymWorld` answers every draw with a fresh symbolic value in the documented
support of the distribution and records the distribution it was asked for;
`ReplayWorld` answers the same draws with the numbers of a solver model.
"""
import math
import random as _random
import types

import numpy as np

from . import engine as E
from . import rat as R
from .rat import Rat
from .engine import SymReal, SymInt, SymBool, Unsupported, PathCut
from . import arrays as A
from .arrays import SymArray, SYM


class Draw:
    """one recorded draw: kind, parameters, value (scalar or tuple)"""
    __slots__ = ("kind", "params", "value", "stream", "index", "name")

    def __init__(self, kind, params, value, stream, index, name):
        self.kind = kind
        self.params = params
        self.value = value
        self.stream = stream
        self.index = index
        self.name = name

    def __repr__(self):
        return f"Draw({self.kind},{self.params},{self.name})"


MAXDRAWS = 80


def _bshape(size, *params):
    shp = [np.shape(p) if not isinstance(p, SYM) else () for p in params]
    b = np.broadcast_shapes(*shp) if shp else ()
    if size is None:
        return b
    if isinstance(size, SYM):
        size = size.__index__()
    if isinstance(size, (int, np.integer)):
        size = (int(size),)
    size = tuple(int(s.__index__()) if isinstance(s, SYM) else int(s)
                 for s in size)
    if any(s < 0 for s in size):
        raise ValueError("negative dimensions are not allowed")
    try:
        out = np.broadcast_shapes(size, b)
    except ValueError:
        raise ValueError("shape mismatch: objects cannot be broadcast to a "
                         "single shape")
    if out != size:
        raise ValueError(f"Output size {size} is not compatible with "
                         f"broadcast dimensions of inputs {b}.")
    return size


def _flat(p, shape):
    if isinstance(p, SYM) or not np.shape(p):
        if isinstance(p, np.ndarray):
            p = p.item()
        n = int(np.prod(shape)) if shape else 1
        return [p] * n
    a = np.asarray(A._np_obj(p) if isinstance(p, (list, tuple)) else p)
    return list(np.broadcast_to(a, shape).ravel())


def _isnan(x):
    return not isinstance(x, SYM) and x != x


class RngCore:
    """shared argument handling of symbolic and replaying generators"""

    # each primitive: (kind, params) -> value
    def __init__(self, world, stream):
        self._w = world
        self._stream = stream
        self._i = 0
        self.bit_generator = BitGen(self)

    @property
    def _bit_generator(self):
        return self.bit_generator

    def _next(self, kind, params):
        i = self._i
        self._i += 1
        self._w.ndraws += 1
        if self._w.ndraws > self._w.maxdraws:
            raise PathCut("more draws than the bound", bound=True)
        return self._w.draw(self._stream, i, kind, params)

    def _many(self, kind, size, names, *params):
        shape = _bshape(size, *params)
        flats = [_flat(p, shape) for p in params]
        self._w.check_params(kind, flats)
        n = int(np.prod(shape)) if shape else 1
        out = [self._next(kind, dict(zip(names, [f[t] for f in flats])))
               for t in range(n)]
        return self._w.pack(out, shape, size is None and shape == (), kind)

    def beta(self, a, b, size=None):
        return self._many("beta", size, ("a", "b"), a, b)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many("uniform", size, ("low", "high"), low, high)

    def random(self, size=None, dtype=None, out=None):
        return self._many("uniform", size, ("low", "high"), 0, 1)

    random_sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._many("normal", size, ("loc", "scale"), loc, scale)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self.normal(0, 1, size)

    def randn(self, *shape):
        return self.normal(0, 1, shape if shape else None)

    def gamma(self, shape, scale=1.0, size=None):
        return self._many("gamma", size, ("shape", "scale"), shape, scale)

    def standard_gamma(self, shape, size=None, dtype=None, out=None):
        return self.gamma(shape, 1, size)

    def chisquare(self, df, size=None):
        return self._many("chisquare", size, ("df",), df)

    def exponential(self, scale=1.0, size=None):
        return self._many("exponential", size, ("scale",), scale)

    def standard_exponential(self, size=None, dtype=None, method=None,
                             out=None):
        return self.exponential(1, size)

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        return self._many("gumbel", size, ("loc", "scale"), loc, scale)

    def binomial(self, n, p, size=None):
        return self._many("binomial", size, ("n", "p"), n, p)

    def integers(self, low, high=None, size=None, dtype=None,
                 endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        return self._many("integers", size, ("low", "high"), low, high)

    def randint(self, low, high=None, size=None, dtype=None):
        return self.integers(low, high, size)

    def dirichlet(self, alpha, size=None):
        al = self._w.vec(alpha)
        if size is None:
            shp, n = (), 1
        else:
            shp = _bshape(size)
            n = int(np.prod(shp))
        self._w.check_params("dirichlet", [al])
        rows = [self._next("dirichlet", {"alpha": tuple(al)})
                for _ in range(n)]
        return self._w.pack_rows(rows, shp)

    def multivariate_normal(self, mean, cov, size=None, **k):
        m = self._w.vec(mean)
        c = [list(r) for r in np.atleast_2d(np.asarray(A._np_obj(cov)
                                            if not isinstance(
                                                cov, np.ndarray) else cov))]
        if size is None:
            shp, n = (), 1
        else:
            shp = _bshape(size)
            n = int(np.prod(shp))
        rows = [self._next("mvn", {"mean": tuple(m),
                                   "cov": tuple(map(tuple, c))})
                for _ in range(n)]
        return self._w.pack_rows(rows, shp)

    def choice(self, a, size=None, replace=True, p=None, axis=0,
               shuffle=True):
        if isinstance(a, SYM):
            a = a.__index__()
        if isinstance(a, (int, np.integer)):
            items = list(range(int(a)))
        else:
            items = list(a)
        if not items:
            raise ValueError("a cannot be empty unless no samples are taken")
        if size is not None and not replace:
            raise Unsupported("choice without replacement")
        pv = None
        if p is not None:
            pv = self._w.vec(p)
            if len(pv) != len(items):
                raise ValueError("a and p must have same size")
            self._w.check_params("choice", [pv])
        shape = () if size is None else _bshape(size)
        n = int(np.prod(shape)) if shape else 1
        out = []
        for _ in range(n):
            out.append(self._next("choice", {
                "items": tuple(items),
                "p": None if pv is None else tuple(pv)}))
        return self._w.pack(out, shape, size is None)

    def permutation(self, x, axis=0):
        x = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        keys = [self._next("uniform", {"low": 0, "high": 1}) for _ in x]
        order = A._sorted_idx(keys)
        return self._w.pack([x[i] for i in order], (len(x),), False)

    def shuffle(self, x, axis=0):
        y = self.permutation(x)
        for i in range(len(x)):
            x[i] = y[i]

    def spawn(self, n):
        return [self._w.make_rng(f"{self._stream}.spawn{self._i}.{t}")
                for t in range(n)]

    def __deepcopy__(self, memo):
        r = type(self)(self._w, self._stream)
        r._i = self._i
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"generator method {n}")


class BitGen:
    """token standing for the bit generator of a stream"""

    def __init__(self, rng):
        self.rng = rng

    @property
    def state(self):
        return {"stream": self.rng._stream, "i": self.rng._i}

    @property
    def seed_seq(self):
        return types.SimpleNamespace(spawn=lambda n: [
            types.SimpleNamespace(_stream=f"{self.rng._stream}.ss{t}")
            for t in range(n)])


class SymRng(RngCore):
    pass


class ReplayRng(RngCore):
    pass


class WorldBase:
    maxdraws = MAXDRAWS

    def reset(self):
        self.ndraws = 0
        self.draws = []
        self.streams = 0
        self.entropy = 0       # generators seeded from the OS
        self.global_draws = []  # uses of the process-global generator
        self.kmeans_calls = []
        self.labels_fix = None
        self.slice_ranges = None
        self.slice_count = 0
        self.optim_calls = []
        self.figures = []
        self.grid = None       # positions of a grid with symbolic ends

    # generators -----------------------------------------------------------
    def start_labels(self, n, k):
        """labels imposed on the clustering by the case, if they fit"""
        f = self.labels_fix
        if f is None or len(f) != n or max(f) >= k:
            return None
        return list(f)

    def slice_range(self):
        """range imposed by the case on the next non-standard uniform draw"""
        if not self.slice_ranges:
            return 0, 1
        self.slice_count += 1
        return self.slice_ranges[(self.slice_count - 1)
                                 % len(self.slice_ranges)]

    def make_rng(self, stream):
        return self.RngClass(self, stream)

    def default_rng(self, seed=None):
        if isinstance(seed, RngCore):
            return seed
        if seed is None:
            self.entropy += 1
            return self.make_rng(f"os{self.entropy}")
        if isinstance(seed, BitGen):
            return seed.rng
        if hasattr(seed, "_stream"):
            return self.make_rng(seed._stream)
        if isinstance(seed, SymInt):
            seed = seed.value()
        if isinstance(seed, (bool, np.bool_)):
            seed = int(seed)
        if not isinstance(seed, (int, np.integer, list, tuple, np.ndarray)):
            raise TypeError("SeedSequence expects int or sequence of ints "
                            "for entropy")
        if isinstance(seed, (int, np.integer)) and seed < 0:
            raise ValueError("expected non-negative integer")
        return self.make_rng(f"seed{seed}")

    def RandomState(self, seed=None):
        if isinstance(seed, BitGen):
            return seed.rng
        if seed is None:
            self.entropy += 1
            return self.make_rng(f"os{self.entropy}")
        return self.make_rng(f"legacy{seed}")

    def Generator(self, bitgen):
        return bitgen.rng

    def global_random(self, name, *a, **k):
        self.global_draws.append(name)
        rng = self._global
        return getattr(rng, name)(*a, **k)

    def rng_of(self, random_state):
        if random_state is None:
            self.global_draws.append("scipy random_state=None")
            return self._global
        if isinstance(random_state, RngCore):
            return random_state
        if isinstance(random_state, (int, np.integer)):
            return self.make_rng(f"legacy{random_state}")
        raise ValueError(f"{random_state!r} cannot be used to seed a "
                         "numpy.random.RandomState instance")


class SymWorld(WorldBase):
    RngClass = SymRng

    def __init__(self):
        self.reset()

    def reset(self):
        super().reset()
        self._cache = {}
        self._global = self.make_rng("global")

    def vec(self, x):
        a = np.asarray(A._np_obj(x) if not isinstance(x, np.ndarray) else x)
        if a.ndim != 1:
            raise ValueError("object of too small depth for desired array"
                             if a.ndim == 0 else "must be 1-dimensional")
        return [v if isinstance(v, SYM) else
                (v.item() if isinstance(v, np.generic) else v) for v in a]

    def check_params(self, kind, flats):
        def bad(c):
            return bool(c)
        if kind in ("beta", "gamma", "dirichlet", "chisquare"):
            nm = {"beta": "ab"}.get(kind, "?")
            for f in flats:
                for v in f:
                    if _isnan(v) or bad(v <= 0):
                        raise ValueError(f"{kind} parameter <= 0")
        elif kind == "binomial":
            for v in flats[0]:
                if _isnan(v) or bad(v < 0):
                    raise ValueError("n < 0")
            for v in flats[1]:
                if _isnan(v) or bad(v < 0) or bad(v > 1):
                    raise ValueError("p < 0, p > 1 or p contains NaNs")
        elif kind == "choice":
            s = 0
            for v in flats[0]:
                if _isnan(v):
                    raise ValueError("probabilities contain NaN")
                if bad(v < 0):
                    raise ValueError("probabilities are not non-negative")
                s = s + v
            if bad(s != 1):
                if not isinstance(s, SYM) and abs(s - 1) < 1e-8:
                    return
                raise ValueError("probabilities do not sum to 1")
        elif kind in ("normal", "gumbel", "exponential"):
            for v in flats[-1]:
                if _isnan(v) or bad(v < 0):
                    raise ValueError("scale < 0")
        elif kind == "uniform":
            for lo, hi in zip(*flats):
                if _isnan(lo) or _isnan(hi):
                    raise OverflowError("Range exceeds valid bounds")
                if bad(hi < lo):
                    raise ValueError("high - low < 0")

    def _pkey(self, v):
        if isinstance(v, tuple):
            return tuple(self._pkey(t) for t in v)
        if v is None:
            return None
        q = E.to_rat(v) if E.is_num(v) else None
        return q.h() if q is not None else ("x", str(v))

    def draw(self, stream, i, kind, params):
        key = (stream, i, kind, tuple(sorted(
            (n, self._pkey(v)) for n, v in params.items())))
        hit = self._cache.get(key)
        if hit is not None:
            self.draws.append(hit)
            return hit.value
        name = f"{stream}:{i}:{kind}"
        val = self._fresh(name, kind, params)
        d = Draw(kind, params, val, stream, i, name)
        self._cache[key] = d
        self.draws.append(d)
        return val

    def _fresh(self, name, kind, p):
        en = E.eng()
        if kind == "beta":
            return en.real(name, 0, 1)
        if kind == "uniform":
            lo, hi = p["low"], p["high"]
            if not isinstance(lo, SYM) and lo == 0 and \
                    not isinstance(hi, SYM) and hi == 1:
                return en.real(name, 0, 1)
            return en.real(name, *self.slice_range()) * (hi - lo) + lo
        if kind in ("normal", "gumbel"):
            return en.real(name) * p["scale"] + p["loc"]
        if kind == "gamma":
            return en.real(name, 0) * p["scale"]
        if kind == "exponential":
            return en.real(name, 0) * p["scale"]
        if kind == "chisquare":
            return en.real(name, 0)
        if kind == "binomial":
            n, q = p["n"], p["p"]
            n = n.__index__() if isinstance(n, SYM) else int(n)
            if not isinstance(q, SYM) or bool(q == 0) or bool(q == 1):
                if q == 0:
                    return 0
                if q == 1:
                    return n
            return en.int(name, range(n + 1))
        if kind == "integers":
            lo, hi = [v.__index__() if isinstance(v, SYM) else int(v)
                      for v in (p["low"], p["high"])]
            if lo >= hi:
                raise ValueError("low >= high")
            return en.int(name, range(lo, hi))
        if kind == "choice":
            items, q = p["items"], p["p"]
            ok = [j for j in range(len(items))
                  if q is None or not bool(q[j] == 0)]
            vals = [items[j] for j in ok]
            if all(isinstance(v, (int, np.integer)) for v in vals):
                return en.int(name, [int(v) for v in vals])
            j = en.int(name, ok)
            return items[j.value() if isinstance(j, SymInt) else j]
        if kind == "dirichlet":
            n = len(p["alpha"])
            out, rest = [], 1
            for t in range(n - 1):
                v = en.real(f"{name}.{t}", 0, 1)
                out.append(rest * v)
                rest = rest * (1 - v)
            out.append(rest)
            return tuple(out)
        if kind == "mvn":
            return tuple(en.real(f"{name}.{t}")
                         for t in range(len(p["mean"])))
        if kind == "invwishart":
            n = len(p["scale"])
            if n == 1:
                return ((en.real(f"{name}.s", 0),),)
            L = [[None] * n for _ in range(n)]
            # LDL' parametrisation: positive definite by construction
            D = [en.real(f"{name}.d{t}", 0) for t in range(n)]
            for i in range(n):
                for j in range(n):
                    L[i][j] = 1 if i == j else (
                        en.real(f"{name}.l{i}{j}") if i > j else 0)
            M = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(n):
                    s = 0
                    for t in range(min(i, j) + 1):
                        s = s + L[i][t] * D[t] * L[j][t]
                    M[i][j] = s
            return tuple(tuple(r) for r in M)
        raise Unsupported(f"draw of kind {kind}")

    def pack(self, vals, shape, scalar, kind=None):
        if scalar:
            return vals[0]
        if not vals and kind in ("binomial", "integers"):
            return np.empty(shape, dtype=np.int64).view(SymArray)
        if vals and all(isinstance(v, (int, np.integer)) and
                        not isinstance(v, bool) for v in vals):
            return np.array(vals, dtype=np.int64).reshape(shape).view(
                SymArray)
        r = SymArray(shape=len(vals))
        for i, v in enumerate(vals):
            r[i] = v
        return r.reshape(shape)

    def pack_rows(self, rows, shape):
        k = len(rows[0]) if rows else 0
        r = SymArray(shape=(len(rows), k))
        for i, row in enumerate(rows):
            for j, v in enumerate(row):
                r[i, j] = v
        return r.reshape(tuple(shape) + (k,))

    # harness-side lookup --------------------------------------------------
    def find(self, value):
        """the Draw whose value is (exactly) `value`, or None"""
        if isinstance(value, SymInt):
            for d in reversed(self.draws):
                if isinstance(d.value, SymInt) and \
                        d.value.name == value.name:
                    return d
            return None
        q = E.to_rat(value)
        if q is None:
            return None
        h = q.h()
        for d in reversed(self.draws):
            if isinstance(d.value, SymReal) and d.value.r.h() == h:
                return d
        return None

    def find_vec(self, vals):
        hs = tuple(E.to_rat(v).h() for v in vals)
        for d in reversed(self.draws):
            if isinstance(d.value, tuple) and len(d.value) == len(hs):
                try:
                    if tuple(E.to_rat(v).h() for v in d.value) == hs:
                        return d
                except Exception:
                    continue
        return None

    def find_mat(self, M):
        hs = tuple(tuple(E.to_rat(v).h() for v in r) for r in M)
        for d in reversed(self.draws):
            if d.kind == "invwishart" and tuple(
                    tuple(E.to_rat(v).h() for v in r)
                    for r in d.value) == hs:
                return d
        return None


class ReplayWorld(WorldBase):
    RngClass = ReplayRng

    def __init__(self, env=None, seed=0):
        self.env = env or {}
        self.rnd = _random.Random(seed)
        self.reset()

    def reset(self):
        super().reset()
        self._cache = {}
        self._used = {}
        self.missing = 0
        self._global = self.make_rng("global")

    def vec(self, x):
        a = np.asarray(x, dtype=float)
        if a.ndim != 1:
            raise ValueError("must be 1-dimensional")
        return [float(v) for v in a]

    def check_params(self, kind, flats):
        fl = [np.asarray(f, dtype=float) for f in flats]
        if kind in ("beta", "gamma", "dirichlet", "chisquare"):
            for f in fl:
                if np.any(~(f > 0)):
                    raise ValueError(f"{kind} parameter <= 0")
        elif kind == "binomial":
            if np.any(~(fl[0] >= 0)):
                raise ValueError("n < 0")
            if np.any(~((fl[1] >= 0) & (fl[1] <= 1))):
                raise ValueError("p < 0, p > 1 or p contains NaNs")
        elif kind == "choice":
            if np.any(np.isnan(fl[0])):
                raise ValueError("probabilities contain NaN")
            if np.any(fl[0] < 0):
                raise ValueError("probabilities are not non-negative")
            if abs(fl[0].sum() - 1) > 1.5e-8:
                raise ValueError("probabilities do not sum to 1")
        elif kind in ("normal", "gumbel", "exponential"):
            if np.any(~(fl[-1] >= 0)):
                raise ValueError("scale < 0")
        elif kind == "uniform":
            d = fl[1] - fl[0]
            if not np.all(np.isfinite(d)):
                raise OverflowError("Range exceeds valid bounds")
            if np.any(d < 0):
                raise ValueError("high - low < 0")

    def _uniq(self, name):
        n = self._used.get(name, 0)
        self._used[name] = n + 1
        return f"{name}#{n}" if n else name

    def _get(self, name, default):
        name = self._uniq(name)
        v = self.env.get(name)
        if v is None:
            self.missing += 1
            v = default()
            self.env[name] = v
        return v

    def _real(self, name, lo=None, hi=None):
        if lo == 0 and hi == 1:
            v = self._get(name, lambda: self.rnd.uniform(0.02, 0.98))
            return min(max(v, 1e-12), 1 - 1e-12)
        if lo == 0:
            return max(self._get(name, lambda: self.rnd.expovariate(1)
                                 + 1e-3), 1e-12)
        return self._get(name, lambda: self.rnd.gauss(0, 1.5))

    def _pkey(self, v):
        if isinstance(v, tuple):
            return tuple(self._pkey(t) for t in v)
        if isinstance(v, (float, np.floating)):
            return round(float(v), 9)
        return str(v)

    def draw(self, stream, i, kind, params):
        key = (stream, i, kind, tuple(sorted(
            (n, self._pkey(v)) for n, v in params.items())))
        hit = self._cache.get(key)
        if hit is not None:
            self.draws.append(hit)
            return hit.value
        name = f"{stream}:{i}:{kind}"
        val = self._fresh(name, kind, params)
        d = Draw(kind, params, val, stream, i, name)
        self._cache[key] = d
        self.draws.append(d)
        return val

    def _fresh(self, name, kind, p):
        if kind == "beta":
            return self._real(name, 0, 1)
        if kind == "uniform":
            lo, hi = p["low"], p["high"]
            a, b = (0, 1) if lo == 0 and hi == 1 else self.slice_range()
            if (a, b) == (0, 1):
                v = self._real(name, 0, 1)
            else:
                v = self._get(name, lambda: self.rnd.uniform(a, b))
                v = min(max(v, a + 1e-9), b - 1e-9)
            return lo + (hi - lo) * v
        if kind in ("normal", "gumbel"):
            return p["loc"] + p["scale"] * self._real(name)
        if kind in ("gamma", "exponential"):
            return p["scale"] * self._real(name, 0)
        if kind == "chisquare":
            return self._real(name, 0)
        if kind == "binomial":
            n, q = int(p["n"]), float(p["p"])
            if q == 0:
                return 0
            if q == 1:
                return n
            return self._int(name, list(range(n + 1)))
        if kind == "integers":
            if p["low"] >= p["high"]:
                raise ValueError("low >= high")
            return self._int(name, list(range(int(p["low"]),
                                              int(p["high"]))))
        if kind == "choice":
            items, q = p["items"], p["p"]
            ok = [j for j in range(len(items)) if q is None or q[j] > 0]
            vals = [items[j] for j in ok]
            if all(isinstance(v, (int, np.integer)) for v in vals):
                return self._int(name, [int(v) for v in vals])
            return items[self._int(name, ok)]
        if kind == "dirichlet":
            n = len(p["alpha"])
            out, rest = [], 1.0
            for t in range(n - 1):
                v = self._real(f"{name}.{t}", 0, 1)
                out.append(rest * v)
                rest *= 1 - v
            out.append(rest)
            return tuple(out)
        if kind == "mvn":
            return tuple(self._real(f"{name}.{t}")
                         for t in range(len(p["mean"])))
        if kind == "invwishart":
            n = len(p["scale"])
            if n == 1:
                return ((self._real(f"{name}.s", 0),),)
            D = [self._real(f"{name}.d{t}", 0) for t in range(n)]
            L = np.eye(n)
            for i in range(n):
                for j in range(i):
                    L[i, j] = self._real(f"{name}.l{i}{j}")
            M = L @ np.diag(D) @ L.T
            return tuple(tuple(float(v) for v in r) for r in M)
        raise Unsupported(f"draw of kind {kind}")

    def _int(self, name, vals):
        if len(vals) == 1:
            self._uniq(name)
            return vals[0]
        v = self._get(name, lambda: self.rnd.choice(vals))
        return v if v in vals else vals[0]

    def pack(self, vals, shape, scalar, kind=None):
        if scalar:
            return vals[0]
        if not vals and kind in ("binomial", "integers"):
            return np.empty(shape, dtype=np.int64)
        return np.array(vals).reshape(shape) if vals else np.empty(
            shape, dtype=float)

    def pack_rows(self, rows, shape):
        k = len(rows[0]) if rows else 0
        return np.array(rows, dtype=float).reshape(tuple(shape) + (k,))

    def find(self, value):
        try:
            value = float(value)
        except (TypeError, ValueError):
            return None
        best = None
        for d in reversed(self.draws):
            if isinstance(d.value, (float, int, np.floating, np.integer)):
                e = abs(float(d.value) - value)
                if e <= 1e-7 * max(1.0, abs(value)) and (
                        best is None or e < best[0]):
                    best = (e, d)
        return best[1] if best else None

    def find_vec(self, vals):
        vals = np.asarray(vals, dtype=float)
        for d in reversed(self.draws):
            if isinstance(d.value, tuple) and len(d.value) == len(vals) and \
                    d.kind != "invwishart":
                if np.allclose(np.asarray(d.value, float), vals, rtol=1e-7,
                               atol=1e-9):
                    return d
        return None

    def find_mat(self, M):
        M = np.asarray(M, dtype=float)
        for d in reversed(self.draws):
            if d.kind == "invwishart" and np.shape(d.value) == M.shape and \
                    np.allclose(np.asarray(d.value), M, rtol=1e-7,
                                atol=1e-9):
                return d
        return None
