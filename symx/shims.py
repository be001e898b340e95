"""scipy / scikit-learn / math stand-ins (symbolic), and the pinned
environment for concrete replay."""
import math
from fractions import Fraction
import types

import numpy as np

from . import engine as E
from . import arrays as A
from .arrays import SymArray, SYM, NP
from .engine import Unsupported


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    for k, v in kw.items():
        setattr(m, k, v)
    return m


class Lazy(types.ModuleType):
    """names not modelled: real constants/types pass, functions are refused
    on symbolic arguments"""

    def __init__(self, name, real, **kw):
        super().__init__(name)
        self.__path__ = []
        self._real = real
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(self._real, n)
        if isinstance(r, (int, float, str)) or isinstance(r, type):
            return r
        return Refuse(f"{self.__name__}.{n}", r)


class Refuse:
    def __init__(self, name, real):
        self._n, self._r = name, real

    def __call__(self, *a, **k):
        if any(A.has_sym_deep(x) for x in list(a) + list(k.values())):
            raise Unsupported(f"{self._n} on symbolic data")
        return self._r(*a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Refuse(f"{self._n}.{n}", getattr(self._r, n))


# -- special functions -----------------------------------------------------

def _bc(f, *xs):
    """broadcast a scalar function"""
    if not any(isinstance(x, (np.ndarray, list, tuple)) for x in xs):
        return f(*xs)
    arrs = [np.asarray(A._np_obj(x)) if not isinstance(x, np.ndarray)
            else np.asarray(x) for x in
            [x if isinstance(x, (np.ndarray, list, tuple)) else _o0(x)
             for x in xs]]
    b = np.broadcast_arrays(*arrs)
    out = [f(*[_it(v) for v in t]) for t in zip(*[x.ravel() for x in b])]
    if not out:
        return SymArray(shape=b[0].shape)
    return A._reshape_like(out, b[0].shape)


def _it(v):
    return v.item() if isinstance(v, np.generic) else v


def _o0(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def s_loggamma(x):
    if not isinstance(x, SYM):
        if x != x:
            return math.nan
        if x == 0 or x == math.inf:
            return math.inf
        if x < 0:
            if x == int(x):
                return math.inf
            raise Unsupported("loggamma of a negative constant")
    return E.f_loggamma(x)


def s_digamma(x):
    if not isinstance(x, SYM):
        if x != x:
            return math.nan
        if x == 0:
            return -math.inf
        if x == math.inf:
            return math.inf
        if x < 0:
            raise Unsupported("digamma of a negative constant")
    return E.f_digamma(x)


def s_betaln(a, b):
    la, lb, lab = s_loggamma(a), s_loggamma(b), s_loggamma(a + b)
    for v in (la, lb):
        if E.fin(v):
            return v
    return la + lb - lab


def s_beta(a, b):
    if E.eng().limits and bool(a > E.BETA_TINY) and bool(b > E.BETA_TINY):
        return 0
    v = s_betaln(a, b)
    return E.f_exp(v) if not E.fin(v) else (math.inf if v > 0 else 0.0)


def s_multigammaln(a, d):
    r = A._true_div(d * (d - 1), 4) * E.f_log(E.eng().pi())
    for i in range(int(d)):
        r = r + s_loggamma(a - A._true_div(i, 2))
    return r


def _is0(x):
    return bool(x == 0)


def s_xlogy(x, y):
    if (not isinstance(y, SYM) and y != y):
        return math.nan
    if _is0(x):
        return 0
    return x * A._log_float(y) if not isinstance(y, SYM) else \
        x * E.f_log(y)


def s_xlog1py(x, y):
    return s_xlogy(x, 1 + y)


def s_logit(p):
    if _is0(p):
        return -math.inf
    if _is0(1 - p):
        return math.inf
    return E.f_log(p) - E.f_log(1 - p)


def s_expit(x):
    if not isinstance(x, SYM):
        if x == math.inf:
            return 1
        if x == -math.inf:
            return 0
        if x != x:
            return x
    return 1 / (1 + E.f_exp(-x))


def s_beta_logpdf(v, a, b, loc=0, scale=1):
    if not isinstance(v, SYM) and v != v:
        return math.nan
    for p in (a, b):
        if not isinstance(p, SYM) and p != p:
            return math.nan
        if bool(p <= 0):
            return math.nan
    if bool(v < 0) or bool(v > 1):
        return -math.inf
    t1, t2 = s_xlogy(a - 1, v), s_xlog1py(b - 1, -v)
    if E.fin(t1) or E.fin(t2):
        x = (t1 if E.fin(t1) else 0.0) + (t2 if E.fin(t2) else 0.0)
        return x
    return t1 + t2 - s_betaln(a, b)


def _lchoose(n, k):
    return s_loggamma(n + 1) - s_loggamma(k + 1) - s_loggamma(n - k + 1)


def _cint(x):
    if isinstance(x, SYM):
        return x.__index__()
    return int(x)


def s_betabinom_logpmf(x, n, a, b, loc=0):
    x, n = _cint(x), _cint(n)
    for p in (a, b):
        if bool(p <= 0):
            return math.nan
    if x < 0 or x > n:
        return -math.inf
    return _lchoose(n, x) + s_betaln(x + a, n - x + b) - s_betaln(a, b)


def s_binom_logpmf(x, n, p, loc=0):
    x, n = _cint(x), _cint(n)
    if not isinstance(p, SYM) and p != p:
        return math.nan
    if bool(p < 0) or bool(p > 1):
        return math.nan
    if x < 0 or x > n:
        return -math.inf
    t1, t2 = s_xlogy(x, p), s_xlog1py(n - x, -p)
    if E.fin(t1) or E.fin(t2):
        return -math.inf
    return _lchoose(n, x) + t1 + t2


def s_norm_logpdf(x, loc=0, scale=1):
    z = (x - loc) / scale
    return -z * z / 2 - E.f_log(2 * E.eng().pi()) / 2 - E.f_log(scale)


def s_dirichlet_logpdf(x, alpha):
    al = list(np.asarray(A._np_obj(alpha)))
    xs = list(np.asarray(A._np_obj(x)))
    for v in al:
        if bool(v <= 0):
            raise ValueError("All parameters must be greater than 0")
    if len(xs) + 1 == len(al):
        s = 1
        for v in xs:
            s = s - v
        xs.append(s)
    if len(xs) != len(al):
        raise ValueError("Vector 'x' must have either the same number of "
                         "entries as, or one entry fewer than, parameter "
                         "vector 'a'")
    tot = 0
    for v in xs:
        if bool(v < 0) or bool(v > 1):
            raise ValueError("Each entry in 'x' must be in [0, 1]")
        tot = tot + v
    if bool(tot != 1):
        raise ValueError("The input vector 'x' must lie within the normal "
                         "simplex")
    r = s_loggamma(_ssum(al))
    for v in al:
        r = r - s_loggamma(v)
    for v, a in zip(xs, al):
        r = r + s_xlogy(a - 1, v)
    return r


def _ssum(l):
    s = 0
    for v in l:
        s = s + v
    return s


# -- multivariate laws -----------------------------------------------------

def _mvn_params(mean, cov, dim=None):
    mean = 0 if mean is None else mean
    cov = 1 if cov is None else cov
    m = np.asarray(A._np_obj(mean) if isinstance(mean, (list, tuple)) else
                   mean if isinstance(mean, np.ndarray) else _o0(mean))
    c = np.asarray(A._np_obj(cov) if isinstance(cov, (list, tuple)) else
                   cov if isinstance(cov, np.ndarray) else _o0(cov))
    dim = m.size
    if dim == 1:
        m = m.reshape(1)
        if c.size != 1:
            raise ValueError("Array 'cov' must be square if it is two "
                             "dimensional")
        c = c.reshape(1, 1)
    if m.ndim != 1 or m.shape[0] != dim:
        raise ValueError(f"Array 'mean' must be a vector of length {dim}.")
    if c.ndim == 0:
        c = np.array([[c.item() if i == j else 0 for j in range(dim)]
                      for i in range(dim)], dtype=object)
    elif c.ndim == 1:
        c = np.array([[c[i] if i == j else 0 for j in range(dim)]
                      for i in range(dim)], dtype=object)
    if c.shape != (dim, dim):
        raise ValueError(f"Dimension mismatch: array 'cov' is of shape "
                         f"{c.shape}, but 'mean' is a vector of length {dim}")
    return m.astype(object), c.astype(object)


def _need_posdef(c):
    d = A._det(c)
    if not E.expect(d > 0, "covariance positive definite") or not E.expect(
            c[0, 0] > 0, "covariance positive definite"):
        raise Unsupported("covariance not positive definite")
    return d


def mvn_logpdf(x, mean=None, cov=1, allow_singular=False, **k):
    m, c = _mvn_params(mean, cov)
    dim = len(m)
    x = np.asarray(A._np_obj(x) if isinstance(x, (list, tuple)) else
                   x if isinstance(x, np.ndarray) else _o0(x)).astype(object)
    if x.ndim == 0:
        x = x.reshape(1)
    elif x.ndim == 1:
        x = x[:, None] if dim == 1 else x[None, :]
    d = _need_posdef(c)
    prec = np.asarray(NP.linalg.inv(c))
    dev = x - m
    if dev.shape[-1] != dim:
        raise ValueError("shapes not aligned")
    flat = dev.reshape(-1, dim)
    const = dim * E.f_log(2 * E.eng().pi()) + E.f_log(d)
    out = []
    for row in flat:
        q = 0
        for i in range(dim):
            for j in range(dim):
                q = q + row[i] * prec[i, j] * row[j]
        out.append((q + const) * A._true_div(-1, 2))
    return _squeeze(out, dev.shape[:-1])


def _squeeze(out, shape):
    r = SymArray(shape=len(out))
    for i, v in enumerate(out):
        r[i] = v
    r = np.ndarray.squeeze(r.reshape(shape))
    if r.ndim == 0:
        return r.item()
    return r


def mvn_pdf(x, mean=None, cov=1, allow_singular=False, **k):
    r = mvn_logpdf(x, mean, cov, allow_singular, **k)
    return NP.exp(r)


class SymMVN:
    def __init__(self, world):
        self._w = world

    logpdf = staticmethod(mvn_logpdf)
    pdf = staticmethod(mvn_pdf)

    def rvs(self, mean=None, cov=1, size=1, random_state=None):
        m, c = _mvn_params(mean, cov)
        r = self._w.rng_of(random_state).multivariate_normal(
            m, c.view(SymArray), size)
        r = np.ndarray.squeeze(r)
        return r.item() if r.ndim == 0 else r

    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None):
        s = self
        return types.SimpleNamespace(
            pdf=lambda x: mvn_pdf(x, mean, cov),
            logpdf=lambda x: mvn_logpdf(x, mean, cov),
            rvs=lambda size=1, random_state=None: s.rvs(
                mean, cov, size, random_state))


class SymInvWishart:
    def __init__(self, world):
        self._w = world

    @staticmethod
    def _params(df, scale):
        c = np.asarray(A._np_obj(scale) if isinstance(scale, (list, tuple))
                       else scale if isinstance(scale, np.ndarray)
                       else _o0(scale)).astype(object)
        if c.ndim == 0:
            c = c.reshape(1, 1)
        elif c.ndim == 1:
            c = np.array([[c[i] if i == j else 0 for j in range(len(c))]
                          for i in range(len(c))], dtype=object)
        if c.ndim != 2 or c.shape[0] != c.shape[1]:
            raise ValueError("Array 'scale' must be square if it is two "
                             "dimensional")
        dim = len(c)
        if isinstance(df, np.ndarray):
            if df.ndim:
                raise ValueError("Degrees of freedom must be a scalar.")
            df = df.item()
        if bool(df <= dim - 1):
            raise ValueError("Degrees of freedom must be greater than the "
                             "dimension of scale matrix minus 1.")
        if not (E.expect(c[0, 0] > 0, "scale matrix positive definite") and
                E.expect(A._det(c) > 0, "scale matrix positive definite")):
            raise np.linalg.LinAlgError("not positive definite")
        return df, c, dim

    def rvs(self, df, scale, size=1, random_state=None):
        df, c, dim = self._params(df, scale)
        if size not in (1, None, ()):
            raise Unsupported("invwishart.rvs size")
        rng = self._w.rng_of(random_state)
        val = rng._next("invwishart", {"df": df,
                                       "scale": tuple(map(tuple, c))})
        if dim == 1:
            return val[0][0]
        r = SymArray(shape=(dim, dim))
        for i in range(dim):
            for j in range(dim):
                r[i, j] = val[i][j]
        return r

    def logpdf(self, x, df, scale):
        df, c, dim = self._params(df, scale)
        xm = np.asarray(A._np_obj(x) if isinstance(x, (list, tuple)) else
                        x if isinstance(x, np.ndarray) else
                        _o0(x)).astype(object)
        xm = xm.reshape(dim, dim)
        dx, dc = A._det(xm), A._det(c)
        if not bool(dx > 0):
            return -math.inf
        xi = np.asarray(NP.linalg.inv(xm))
        tr = _ssum([c[i, j] * xi[j, i] for i in range(dim)
                    for j in range(dim)])
        half = A._true_div(1, 2)
        return (df * half * E.f_log(dc) - half * tr
                - half * df * dim * E.f_log(2) - s_multigammaln(df * half,
                                                                dim)
                - half * (df + dim + 1) * E.f_log(dx))

    def pdf(self, x, df, scale):
        return E.f_exp(self.logpdf(x, df, scale))


class Dist:
    def __init__(self, world, logf, draw=None, real=None, disc=False):
        self._w, self._l, self._d, self._r = world, logf, draw, real
        if disc:
            self.logpmf, self.pmf = self._lp, self._p
        else:
            self.logpdf, self.pdf = self._lp, self._p

    def _lp(self, x, *a, **k):
        if k:
            names = {"a": 0, "b": 1, "loc": 0, "scale": 1, "n": 0, "p": 1}
            order = sorted(k, key=lambda q: names.get(q, 9))
            a = list(a) + [k[q] for q in order]
        return _bc(self._l, x, *a)

    def _p(self, x, *a, **k):
        return NP.exp(self._lp(x, *a, **k))

    def rvs(self, *a, size=None, random_state=None, **k):
        if self._d is None:
            raise Unsupported("rvs")
        return getattr(self._w.rng_of(random_state), self._d)(*a, size=size,
                                                              **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Refuse(f"dist.{n}", getattr(self._r, n))


# -- clustering ------------------------------------------------------------

class KMeansStub:
    """k-means as an arbitrary labelling of the rows into k clusters"""
    _world = None

    def __init__(self, n_clusters=8, *a, random_state=None, **k):
        self.n_clusters = n_clusters
        self.random_state = random_state

    def fit(self, X, y=None, **k):
        w = self._world
        n = len(X)
        kk = self.n_clusters
        if isinstance(kk, SYM):
            kk = kk.__index__()
        if n < kk:
            raise ValueError(f"n_samples={n} should be >= n_clusters={kk}.")
        if kk < 1:
            raise ValueError("n_clusters must be positive")
        rs = self.random_state
        if rs is None:
            w.global_draws.append("KMeans random_state=None")
        rng = w.rng_of(rs if rs is not None else None)
        labels = w.kmeans(rng, X, kk)
        w.kmeans_calls.append((X, kk, labels))
        self.labels_ = labels
        return self

    def fit_predict(self, X, y=None, **k):
        self.fit(X)
        return self.labels_


class SpectralStub:
    _world = None

    def __init__(self, n_clusters=8, *a, affinity="rbf", random_state=None,
                 **k):
        self.n_clusters = n_clusters
        self.random_state = random_state
        self.affinity = affinity

    def fit_predict(self, X, y=None):
        w = self._world
        if self.random_state is None:
            w.global_draws.append("SpectralClustering random_state=None")
        r = w.kmeans(w.rng_of(self.random_state), X, self.n_clusters)
        self._world.spectral.append((X, self.n_clusters, self.affinity, r))
        return r.copy()

    def fit(self, X, y=None):
        self.labels_ = self.fit_predict(X)
        return self


def _kmeans_sym(self, rng, X, k):
    n = len(X)
    i = rng._i
    rng._i += 1
    key = (rng._stream, i, "kmeans", n, k)
    hit = self._cache.get(key)
    if hit is not None:
        return hit.copy()
    en = E.eng()
    vals = self.start_labels(n, k) or [
        en.int(f"{rng._stream}:{i}:kmeans.{t}", range(k)) for t in range(n)]
    r = self.pack(vals, (n,), False)
    self._cache[key] = r
    return r.copy()


def _kmeans_conc(self, rng, X, k):
    n = len(X)
    i = rng._i
    rng._i += 1
    key = (rng._stream, i, "kmeans", n, k)
    hit = self._cache.get(key)
    if hit is not None:
        return hit.copy()
    vals = self.start_labels(n, k) or [
        self._int(f"{rng._stream}:{i}:kmeans.{t}", list(range(k)))
        for t in range(n)]
    r = np.array(vals, dtype=np.int32)
    self._cache[key] = r
    return r.copy()


from .world import SymWorld, ReplayWorld  # noqa: E402

SymWorld.kmeans = _kmeans_sym
ReplayWorld.kmeans = _kmeans_conc
SymWorld.spectral = []
ReplayWorld.spectral = []


# -- optimisation / quadrature ---------------------------------------------

def _optim_mod(world, sym):
    def fresh(name, lo, hi):
        if sym:
            return E.eng().real(name, lo, hi)
        return world._real(name, lo, hi)

    def minimize(fun, x0, *a, bounds=None, **k):
        x = fresh("minimize.x", 0, 1)
        if sym:
            arr = SymArray(shape=1)
            arr[0] = x
            ok = E.eng().int("minimize.ok", [0, 1])
            ok = bool(ok.value())
        else:
            arr = np.array([x])
            ok = bool(world._int("minimize.ok", [0, 1]))
        world.optim_calls.append(("minimize", fun, bounds, arr, ok))
        return types.SimpleNamespace(x=arr, success=ok, fun=None)

    def brentq(f, a, b, *r, **k):
        x = fresh("brentq.x", 0, 1)
        world.optim_calls.append(("brentq", f, (a, b), x, True))
        return x

    return minimize, brentq


def _quad(world, sym):
    def quad(f, a, b, *r, **k):
        i = len(world.optim_calls)
        v = (E.eng().real(f"quad{i}", 0) if sym else
             world._real(f"quad{i}", 0))
        world.optim_calls.append(("quad", f, (a, b), v, True))
        return (v, 0.0)
    return quad


# -- math ------------------------------------------------------------------

class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.inf, self.nan, self.e = math.inf, math.nan, math.e

    @property
    def pi(self):
        return E.eng().pi()

    def log(self, x, base=None):
        if not isinstance(x, SYM) and x <= 0:
            raise ValueError("math domain error")
        if isinstance(x, SYM) and bool(x <= 0):
            raise ValueError("math domain error")
        r = A._log_float(x) if not isinstance(x, SYM) else E.f_log(x)
        return r if base is None else r / self.log(base)

    def log1p(self, x):
        return self.log(1 + x)

    def exp(self, x):
        return E.f_exp(x)

    def sqrt(self, x):
        if bool(x < 0):
            raise ValueError("math domain error")
        return E.f_sqrt(x)

    def lgamma(self, x):
        return s_loggamma(x)

    def isclose(self, a, b, **k):
        raise Unsupported("math.isclose")

    def fsum(self, x):
        return _ssum(x)

    def prod(self, x, start=1):
        for v in x:
            start = start * v
        return start

    def pow(self, a, b):
        return E.sym_pow(a, b) if isinstance(a, SYM) or isinstance(b, SYM) \
            else math.pow(a, b)

    def isnan(self, x):
        return not isinstance(x, SYM) and math.isnan(x)

    def isinf(self, x):
        return not isinstance(x, SYM) and math.isinf(x)

    def isfinite(self, x):
        return isinstance(x, SYM) or math.isfinite(x)

    def __getattr__(self, n):
        return getattr(math, n)


# -- module tables ---------------------------------------------------------

def sym_modules(world):
    import scipy
    import scipy.special
    import scipy.stats
    import scipy.optimize
    import scipy.integrate
    import sklearn.cluster
    num = A.SymNumpy(world)

    def u(f):
        return lambda *a, **k: _bc(f, *a)
    special = Lazy(
        "scipy.special", scipy.special,
        digamma=u(s_digamma), psi=u(s_digamma), loggamma=u(s_loggamma),
        gammaln=u(s_loggamma), betaln=u(s_betaln), beta=u(s_beta),
        multigammaln=s_multigammaln, xlogy=u(s_xlogy),
        xlog1py=u(s_xlog1py), expit=u(s_expit), logit=u(s_logit),
        gamma=u(lambda x: E.f_exp(s_loggamma(x))),
        logsumexp=_logsumexp, log_softmax=lambda a, axis=None: a -
        _logsumexp(a, axis=axis, keepdims=True),
        entr=u(lambda x: -s_xlogy(x, x)),
        softmax=lambda a, axis=None: _softmax(a, axis))
    dirichlet = types.SimpleNamespace(
        logpdf=s_dirichlet_logpdf,
        pdf=lambda x, a: E.f_exp(s_dirichlet_logpdf(x, a)),
        rvs=lambda alpha, size=1, random_state=None: world.rng_of(
            random_state).dirichlet(alpha, size))
    stats = Lazy(
        "scipy.stats", scipy.stats,
        beta=Dist(world, s_beta_logpdf, "beta", scipy.stats.beta),
        betabinom=Dist(world, s_betabinom_logpmf, None,
                       scipy.stats.betabinom, disc=True),
        binom=Dist(world, s_binom_logpmf, "binomial", scipy.stats.binom,
                   disc=True),
        norm=Dist(world, s_norm_logpdf, "normal", scipy.stats.norm),
        dirichlet=dirichlet,
        invwishart=SymInvWishart(world),
        multivariate_normal=SymMVN(world))
    mini, brent = _optim_mod(world, True)
    km = type("KMeans", (KMeansStub,), {"_world": world})
    spc = type("SpectralClustering", (SpectralStub,), {"_world": world})
    cl = Lazy("sklearn.cluster", sklearn.cluster, KMeans=km,
              SpectralClustering=spc)
    t = {
        "numpy": num,
        "numpy.random": num.random,
        "numpy.linalg": num.linalg,
        "scipy": Lazy("scipy", scipy, special=special, stats=stats),
        "scipy.special": special,
        "scipy.stats": stats,
        "scipy.optimize": Lazy("scipy.optimize", scipy.optimize,
                               minimize=mini, brentq=brent),
        "scipy.integrate": Lazy("scipy.integrate", scipy.integrate,
                                quad=_quad(world, True)),
        "scipy.linalg": mod("scipy.linalg", inv=num.linalg.inv,
                            det=num.linalg.det, solve=num.linalg.solve,
                            cholesky=lambda a, lower=False:
                            num.linalg.cholesky(a) if lower else
                            num.linalg.cholesky(a).T,
                            ldl=_ldl),
        "sklearn": mod("sklearn", cluster=cl),
        "sklearn.cluster": cl,
        "math": MathShim(),
        "tqdm": mod("tqdm", tqdm=_tqdm),
    }
    t.update(_plotting(world, A._lift_arr))
    t["scipy"].optimize = t["scipy.optimize"]
    t["scipy"].integrate = t["scipy.integrate"]
    t["scipy"].linalg = t["scipy.linalg"]
    return t


def _ldl(a, lower=True, **k):
    """of a positive definite 2 x 2 matrix, with the pivot LAPACK takes (or
    no pivot in one dimension)"""
    a = np.asarray(a, dtype=object)
    if a.shape == (1, 1):
        return A.sa(np.array([[1]], dtype=object)), A.sa(a.copy()), \
            np.array([0])
    if a.shape != (2, 2) or not lower:
        raise Unsupported("ldl")
    o = [0, 1]
    r = (1 + math.sqrt(17)) / 8
    if abs(a[0, 0]) < Fraction(r) * abs(a[1, 0]):
        o = [1, 0]
    p, q, c = a[o[0], o[0]], a[o[1], o[1]], a[1, 0]
    d = np.array([[p, 0], [0, q - c * c / p]], dtype=object)
    lu = np.empty((2, 2), dtype=object)
    lu[o[0], 0], lu[o[0], 1], lu[o[1], 0], lu[o[1], 1] = 1, 0, c / p, 1
    return A.sa(lu), A.sa(d), np.array(o)


def _top(a, axis):
    """what scipy subtracts so that exponentials stay in range"""
    return NP.max(a, axis=axis, keepdims=True) if E.eng().limits else 0


def _logsumexp(a, axis=None, keepdims=False):
    a = NP.asarray(a)
    t = _top(a, axis)
    r = NP.log(NP.sum(NP.exp(a - t), axis=axis, keepdims=True)) + t
    return r if keepdims else NP.squeeze(r, axis=axis) if axis is not None \
        else NP.ravel(r)[0]


def _softmax(a, axis):
    a = NP.asarray(a)
    e = NP.exp(a - _top(a, axis))
    return e / NP.sum(e, axis=axis, keepdims=True)


class _tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def update(self, *a):
        pass

    def close(self):
        pass


class _Any:
    """an object of the plotting library nothing is asked about"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("get_major_ticks", "get_minor_ticks"):
            return lambda *a, **k: [_Any(), _Any(), _Any()]
        if n.startswith(("get_", "set_", "add_", "tick_")) or n in (
                "grid", "sharex", "sharey", "tight_layout", "show",
                "savefig", "legend", "suptitle", "close", "draw",
                "subplots_adjust", "margins", "autoscale", "ticklabel_format",
                "label_outer", "locator_params"):
            return lambda *a, **k: _Any()
        return _Any()


class PlotAxes(_Any):
    """what is drawn on an axis"""

    def __init__(self):
        self.drawn = []

    def _rec(self, kind, names, a, k):
        d = dict(zip(names, a))
        d.update(k)
        self.drawn.append((kind, d))
        return _Any()

    def scatter(self, *a, **k):
        return self._rec("scatter", ("x", "y", "s", "c"), a, k)

    def plot(self, *a, **k):
        if len(a) > 3:
            raise Unsupported("several curves in a call of plot")
        r = self._rec("plot", ("x", "y", "fmt"), a, k)
        return [r]

    def fill_between(self, *a, **k):
        return self._rec("fill", ("x", "y1", "y2"), a, k)

    def set_xlabel(self, v, *a, **k):
        self.drawn.append(("xlabel", v))

    def set_ylabel(self, v, *a, **k):
        self.drawn.append(("ylabel", v))

    def set(self, **k):
        for n in ("xlabel", "ylabel"):
            if n in k:
                self.drawn.append((n, k[n]))

    def _unknown(self, *a, **k):
        raise Unsupported("drawing on an axis")

    contour = contourf = hist = imshow = add_patch = add_artist = \
        add_line = add_collection = fill = bar = step = errorbar = _unknown


def _plotting(world, lift):
    def subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
        g = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                g[i, j] = PlotAxes()
        world.figures.append(g)
        out = g
        if squeeze:
            out = g[0, 0] if g.size == 1 else g.squeeze()
        return _Any(), out

    def get_cmap(name=None, *a):
        def cmap(x, *a, **k):
            def row(v):
                i = min(int(float(v) * 10), 9)
                return [i / 10, (i * 7 % 10) / 10, 0.25, 1.0]
            if np.ndim(x) == 0:
                if isinstance(x, (int, np.integer)):
                    return tuple(row(min(int(x), 9) / 10 + 0.01))
                return tuple(row(x))
            return lift(np.array([row(v) for v in np.ravel(x)], dtype=float))
        return cmap

    def unknown(*a, **k):
        raise Unsupported("plotting outside axes")
    plt = mod("matplotlib.pyplot", subplots=subplots, get_cmap=get_cmap,
              cm=types.SimpleNamespace(get_cmap=get_cmap,
                                       tab10=get_cmap("tab10")),
              show=lambda *a, **k: None, tight_layout=lambda *a, **k: None,
              close=lambda *a, **k: None, scatter=unknown, plot=unknown,
              figure=unknown, subplot=unknown)
    tick = mod("matplotlib.ticker", LinearLocator=_Any,
               FormatStrFormatter=_Any, MaxNLocator=_Any,
               ScalarFormatter=_Any, FuncFormatter=_Any)
    return {"matplotlib": mod("matplotlib", pyplot=plt, ticker=tick,
                              colormaps={"tab10": get_cmap("tab10")}),
            "matplotlib.pyplot": plt, "matplotlib.ticker": tick}


class Proxy(types.ModuleType):
    def __init__(self, name, real, **kw):
        super().__init__(name)
        self.__path__ = getattr(real, "__path__", [])
        self._real = real
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__",):
            raise AttributeError(n)
        return getattr(self._real, n)


class ConcRandom(types.ModuleType):
    def __init__(self, world):
        super().__init__("numpy.random")
        self.__path__ = []
        self._w = world
        self.Generator = world.RngClass
        self.RandomState = world.RandomState

    def default_rng(self, seed=None):
        return self._w.default_rng(seed)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(np.random, n)
        if not callable(real) or isinstance(real, type):
            return real
        w = self._w
        return lambda *a, **k: w.global_random(n, *a, **k)


class ConcMVN:
    def __init__(self, world, real):
        self._w, self._r = world, real

    def rvs(self, mean=None, cov=1, size=1, random_state=None):
        rng = self._w.rng_of(random_state)
        m, c = _mvn_params(mean, cov)
        r = rng.multivariate_normal(m.astype(float), c.astype(float), size)
        r = np.squeeze(r)
        return r[()] if r.ndim == 0 else r

    def __call__(self, mean=None, cov=1, allow_singular=False, seed=None):
        fz = self._r(mean, cov, allow_singular)
        s = self
        return types.SimpleNamespace(
            pdf=fz.pdf, logpdf=fz.logpdf,
            rvs=lambda size=1, random_state=None: s.rvs(
                mean, cov, size, random_state))

    def __getattr__(self, n):
        return getattr(self._r, n)


class ConcInvWishart:
    def __init__(self, world, real):
        self._w, self._r = world, real

    def rvs(self, df, scale, size=1, random_state=None):
        rng = self._w.rng_of(random_state)
        dim, df, scale = self._r._process_parameters(df, scale)
        np.linalg.cholesky(scale)
        val = rng._next("invwishart", {
            "df": float(df), "scale": tuple(map(tuple, scale.tolist()))})
        a = np.array(val, dtype=float)
        return a[0, 0] if dim == 1 else a

    def __getattr__(self, n):
        return getattr(self._r, n)


class ConcDist:
    def __init__(self, world, real, draw):
        self._w, self._r, self._d = world, real, draw

    def rvs(self, *a, size=None, random_state=None, **k):
        return getattr(self._w.rng_of(random_state), self._d)(*a, size=size,
                                                              **k)

    def __getattr__(self, n):
        return getattr(self._r, n)


def conc_modules(world):
    import scipy
    import scipy.stats
    import scipy.optimize
    import scipy.integrate
    import sklearn.cluster
    rnd = ConcRandom(world)
    num = Proxy("numpy", np, random=rnd)
    dirichlet = Proxy("dirichlet", scipy.stats.dirichlet)
    dirichlet.rvs = lambda alpha, size=1, random_state=None: world.rng_of(
        random_state).dirichlet(alpha, size)
    stats = Proxy("scipy.stats", scipy.stats,
                  invwishart=ConcInvWishart(world, scipy.stats.invwishart),
                  multivariate_normal=ConcMVN(
                      world, scipy.stats.multivariate_normal),
                  beta=ConcDist(world, scipy.stats.beta, "beta"),
                  binom=ConcDist(world, scipy.stats.binom, "binomial"),
                  norm=ConcDist(world, scipy.stats.norm, "normal"),
                  dirichlet=dirichlet)
    mini, brent = _optim_mod(world, False)
    km = type("KMeans", (KMeansStub,), {"_world": world})
    spc = type("SpectralClustering", (SpectralStub,), {"_world": world})
    cl = Proxy("sklearn.cluster", sklearn.cluster, KMeans=km,
               SpectralClustering=spc)
    opt = Proxy("scipy.optimize", scipy.optimize, minimize=mini,
                brentq=brent)
    integ = Proxy("scipy.integrate", scipy.integrate,
                  quad=_quad(world, False))
    return {
        "numpy": num,
        "numpy.random": rnd,
        "scipy": Proxy("scipy", scipy, stats=stats, optimize=opt,
                       integrate=integ),
        "scipy.stats": stats,
        "scipy.optimize": opt,
        "scipy.integrate": integ,
        "sklearn": Proxy("sklearn", __import__("sklearn"), cluster=cl),
        "sklearn.cluster": cl,
        "tqdm": mod("tqdm", tqdm=_tqdm),
        **_plotting(world, lambda x: x),
    }
