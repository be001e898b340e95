"""Check cases: one harness function, run symbolically (all values within the
stated bounds) and concretely (replay of a solver model on the real code)."""
import builtins
import json
import math
import os
import random
import sys
import time
import traceback

import numpy as np
import z3

from . import engine as E
from . import rat as R
from . import arrays as A
from . import shims
from . import loader as L
from .engine import (SymReal, SymInt, SymBool, Cond, cmp0, Unsupported,
                     PathCut, TRUE, FALSE)
from .arrays import SymArray, SYM
from .world import SymWorld, ReplayWorld

RTOL, ATOL = 1e-6, 1e-8


class Invalid(BaseException):
    """concrete run outside the assumptions of the harness"""


class Found(BaseException):
    """a replayed violation: exploration of the case stops"""

    def __init__(self, rec):
        self.rec = rec


class Case:
    def __init__(self, prop, cid, fn, cfg, bounds, tier="quick", budget=None,
                 maxdraws=None, timeout_ms=None, maxbranch=None, branch_ms=None,
                 halflogs=True, track=False, limits=False, logcmp=False):
        self.limits, self.logcmp = limits, logcmp
        self.maxbranch = maxbranch
        self.branch_ms = branch_ms
        self.halflogs = halflogs
        self.track = track
        self.prop, self.cid, self.fn, self.cfg = prop, cid, fn, cfg
        self.bounds, self.tier, self.budget = bounds, tier, budget
        self.maxdraws = maxdraws
        self.timeout_ms = timeout_ms

    @property
    def name(self):
        return f"{self.prop}/{self.cid}"


REG = {}


def case(prop, cid, bounds, tier="quick", budget=None, maxdraws=None,
         timeout_ms=None, maxbranch=None, branch_ms=None,
         halflogs=True, track=False, limits=False, logcmp=False,
         **cfg):
    """decorator: register fn(ctx, **cfg) as a case of a property"""
    def deco(fn):
        c = Case(prop, cid, fn, cfg, bounds, tier, budget, maxdraws,
                 timeout_ms, maxbranch, branch_ms, halflogs, track, limits,
                 logcmp)
        REG.setdefault(prop, []).append(c)
        return fn
    return deco


class NS:
    """recorded law of a draw, with numeric parameters comparable by ctx"""

    def __init__(self, d):
        self.kind = d.kind
        self.__dict__.update(d.params)
        self.draw = d


class CtxBase:
    def __init__(self):
        self.outs = []
        self.nchecks = 0

    # library under analysis
    @property
    def lib(self):
        return self.loader.load("pyrichlet")

    def load(self, name):
        return self.loader.load(name)

    def rng(self, stream="r"):
        return self.world.make_rng(stream)

    def law(self, value):
        """law of the draw that produced `value` (None if not a draw)"""
        d = self.world.find(value)
        return NS(d) if d is not None else None

    def law_vec(self, vals):
        d = self.world.find_vec(list(np.ravel(vals)))
        return NS(d) if d is not None else None

    def law_mat(self, M):
        M = np.atleast_2d(M)
        d = self.world.find_mat([list(r) for r in M])
        return NS(d) if d is not None else None

    def draws(self, kind=None):
        return [d for d in self.world.draws if kind in (None, d.kind)]

    def out(self, name, value):
        self.outs.append((name, value))

    def is_beta(self, v, a, b, label):
        """v is a draw with law Beta(a, b) (or one minus a Beta(b, a))"""
        d = self.law(v)
        if d is not None and d.kind == "beta":
            self.eq(d.a, a, label + ": first Beta parameter")
            self.eq(d.b, b, label + ": second Beta parameter")
            return d
        d = self.law(1 - v)
        if d is not None and d.kind == "beta":
            self.eq(d.b, a, label + ": first Beta parameter")
            self.eq(d.a, b, label + ": second Beta parameter")
            return d
        self.fail(label + ": not a Beta draw")
        return None

    def distinct(self, laws, label):
        """the laws belong to different draws"""
        ds = [d.draw for d in laws if d is not None]
        ok = True
        for d in ds:
            n = sum(1 for e in ds if e is d)
            if n > 1 and self.sym:
                ok = False
            elif n > 1:     # equal numbers: were there enough such draws?
                ok = ok and n <= sum(
                    1 for e in self.world.draws
                    if e.kind == d.kind and e.value == d.value)
        self.check(ok, label)

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        except Exception as ex:
            self.fail(label, f"raised {type(ex).__name__}: {ex}")
            return
        self.fail(label, "nothing raised")

    def no_raise(self, fn, label):
        try:
            r = fn()
        except Exception as ex:
            self.fail(label, f"raised {type(ex).__name__}: {ex}")
            raise
        self.check(True, label)
        return r

    def eq_all(self, a, b, label):
        a, b = self._flat(a), self._flat(b)
        if len(a) != len(b):
            self.fail(label + " (length)", f"{len(a)} vs {len(b)}")
            return
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(x, y, label)

    @staticmethod
    def _flat(a):
        if isinstance(a, np.ndarray):
            return list(a.ravel())
        if isinstance(a, (list, tuple)):
            out = []
            for v in a:
                out.extend(CtxBase._flat(v))
            return out
        return [a]

    def sum(self, it):
        s = 0
        for v in it:
            s = s + v
        return s

    def prod(self, it):
        s = 1
        for v in it:
            s = s * v
        return s

    # reference formulas (independent of the code under analysis)
    def betaln(self, a, b):
        return self.lgamma(a) + self.lgamma(b) - self.lgamma(a + b)

    def beta_logpdf(self, v, a, b):
        return (a - 1) * self.log(v) + (b - 1) * self.log(1 - v) \
            - self.betaln(a, b)

    def det(self, M):
        M = [list(r) for r in M]
        n = len(M)
        if n == 1:
            return M[0][0]
        s = 0
        for j in range(n):
            s = s + (-1) ** j * M[0][j] * self.det(
                [r[:j] + r[j + 1:] for r in M[1:]])
        return s

    def inv(self, M):
        M = [list(r) for r in M]
        n = len(M)
        d = self.det(M)
        if n == 1:
            return [[1 / d]]
        return [[(-1) ** (i + j) * self.det(
            [[M[a][b] for b in range(n) if b != i]
             for a in range(n) if a != j]) / d
            for j in range(n)] for i in range(n)]

    def quad(self, x, M):
        n = len(x)
        return self.sum(x[i] * M[i][j] * x[j] for i in range(n)
                        for j in range(n))

    def normal_logpdf(self, x, mu, cov):
        """log N(x; mu, cov), x and mu sequences, cov nested list"""
        n = len(mu)
        d = [x[i] - mu[i] for i in range(n)]
        return -(n * self.log(2 * self.pi) + self.log(self.det(cov))
                 + self.quad(d, self.inv(cov))) / 2

    def normal_pdf(self, x, mu, cov):
        return self.exp(self.normal_logpdf(x, mu, cov))


# ---------------------------------------------------------------------------

class SymCtx(CtxBase):
    sym = True

    def __init__(self, eng, world, ld, run):
        super().__init__()
        self.eng, self.world, self.loader, self.run = eng, world, ld, run

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True):
        return self.eng.real("in." + name, lo, hi, lo_open, hi_open)

    def pos(self, name):
        return self.real(name, 0)

    def int(self, name, values):
        return self.eng.int("in." + name, values)

    def choose(self, name, values):
        values = list(values)
        j = self.eng.int("in." + name, range(len(values)))
        return values[j.value() if isinstance(j, SymInt) else j]

    def arr(self, x):
        return SymArray(A._np_obj(x))

    def intarr(self, x):
        x = list(x)
        if all(isinstance(v, (int, np.integer)) for v in x):
            return np.array(x, dtype=np.int64).view(SymArray)
        r = SymArray(shape=len(x))
        for i, v in enumerate(x):
            r[i] = v
        return r

    def labels(self, name, n, k):
        return self.intarr([self.int(f"{name}{i}", range(k))
                            for i in range(n)])

    def clabels(self, name, n, k):
        """labels enumerated by forking (concrete on each path)"""
        v = []
        for i in range(n):
            x = self.int(f"{name}{i}", range(k))
            v.append(x.value() if isinstance(x, SymInt) else x)
        return np.array(v, dtype=np.int64).view(SymArray)

    def count(self, d, j):
        """number of entries of d equal to j"""
        s = 0
        for v in d:
            if isinstance(v, SymInt):
                s = s + E.wrap(v.ind(j))
            else:
                s = s + int(v == j)
        return s

    def assume(self, c):
        self.eng.assume(E.as_cond(c))

    # functions
    @property
    def pi(self):
        return self.eng.pi()

    def log(self, x):
        return E.f_log(x) if isinstance(x, SYM) else A._log_float(x)

    def exp(self, x):
        return E.f_exp(x)

    def sqrt(self, x):
        return E.f_sqrt(x)

    def lgamma(self, x):
        return shims.s_loggamma(x)

    def digamma(self, x):
        return shims.s_digamma(x)

    def ite(self, c, a, b):
        return a if bool(c) else b

    # obligations
    def check(self, cond, label, detail=""):
        self.nchecks += 1
        c = E.as_cond(cond) if not isinstance(cond, (bool, np.bool_)) else (
            TRUE if cond else FALSE)
        r = self.eng.prove(c)
        self.run.obligation(self, label, c, r, detail)

    def sure(self, cond):
        """proved? (not an obligation)"""
        c = E.as_cond(cond) if not isinstance(cond, (bool, np.bool_)) else (
            TRUE if cond else FALSE)
        st = self.eng.stats
        g = st.goals, st.discharged
        r = self.eng.prove(c)
        st.goals, st.discharged = g
        return r is True

    def eq(self, a, b, label):
        self.check(self._eqc(a, b), label, f"{_s(a)} vs {_s(b)}")

    def _eqc(self, a, b):
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            r = (a == b) if isinstance(a, SymInt) else (b == a)
            return r
        qa = E.to_rat(a) if E.is_num(a) or isinstance(a, np.ndarray) \
            else None
        qb = E.to_rat(b) if E.is_num(b) or isinstance(b, np.ndarray) \
            else None
        if qa is None or qb is None:
            if qa is None and qb is None:
                try:
                    return bool(a == b) or (a != a and b != b)
                except Exception:
                    return False
            return False
        if qa.h() == qb.h() and qa.equals(qb):
            return True
        return E.mkbool(cmp0("==", qa.add(qb, -1)))

    def same(self, a, b):
        """decided equality (may fork)"""
        return bool(self._eqc(a, b))

    def identical(self, a, b):
        """the same expression (never forks)"""
        qa, qb = E.to_rat(a), E.to_rat(b)
        return qa is not None and qb is not None and qa.equals(qb)

    def le(self, a, b, label, tol=0):
        self.check(a <= b, label, f"{_s(a)} <= {_s(b)}")

    def close(self, a, b, tol, label):
        """|a-b| <= tol"""
        self.check(a - b <= tol, label)
        self.check(b - a <= tol, label)

    def is_int(self, x):
        return isinstance(x, (int, np.integer, SymInt)) and not isinstance(
            x, bool)

    def finite(self, x):
        return isinstance(x, SYM) or (E.is_num(x) and math.isfinite(x))

    def is_float(self, x):
        return E.is_num(x)


def _s(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


class ConcCtx(CtxBase):
    sym = False

    def __init__(self, env, seed=0):
        super().__init__()
        self.world = ReplayWorld(dict(env), seed)
        self.env = self.world.env
        self.loader = L.Loader(shims.conc_modules(self.world))
        self.failures = []
        self.rnd = random.Random(seed + 77)

    def _get(self, name, dflt):
        return self.world._get("in." + name, dflt)

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True):
        def d():
            if lo is not None and hi is not None:
                return lo + (hi - lo) * self.rnd.uniform(0.03, 0.97)
            if lo is not None:
                return lo + self.rnd.expovariate(0.7) + 1e-2
            if hi is not None:
                return hi - self.rnd.expovariate(0.7) - 1e-2
            return self.rnd.gauss(0, 1.5)
        v = float(self._get(name, d))
        return v

    def pos(self, name):
        return self.real(name, 0)

    def int(self, name, values):
        values = list(values)
        return self.world._int("in." + name, values)

    def choose(self, name, values):
        values = list(values)
        return values[self.world._int("in." + name,
                                      list(range(len(values))))]

    def arr(self, x):
        return np.array(x, dtype=float)

    def intarr(self, x):
        return np.array(list(x), dtype=np.int64)

    def labels(self, name, n, k):
        return self.intarr([self.int(f"{name}{i}", range(k))
                            for i in range(n)])

    clabels = labels

    def count(self, d, j):
        return int(sum(1 for v in d if v == j))

    def assume(self, c):
        if not bool(c):
            raise Invalid()

    pi = math.pi

    def log(self, x):
        with np.errstate(all="ignore"):
            return float(np.log(x))

    def exp(self, x):
        return float(np.exp(x))

    def sqrt(self, x):
        return float(np.sqrt(x))

    def lgamma(self, x):
        from scipy.special import gammaln
        return float(gammaln(x))

    def digamma(self, x):
        from scipy.special import digamma
        return float(digamma(x))

    def ite(self, c, a, b):
        return a if c else b

    def check(self, cond, label, detail=""):
        self.nchecks += 1
        if not bool(cond):
            self.failures.append((label, detail))

    def sure(self, cond):
        return bool(cond)

    def eq(self, a, b, label):
        self.check(self._close(a, b), label, f"{_s(a)} vs {_s(b)}")

    @staticmethod
    def _close(a, b):
        try:
            if isinstance(a, np.ndarray) and a.size == 1:
                a = a.item()
            if isinstance(b, np.ndarray) and b.size == 1:
                b = b.item()
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return a is b or (a is None and b is None)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= ATOL + RTOL * max(1.0, abs(a), abs(b))

    def same(self, a, b):
        return self._close(a, b)

    def identical(self, a, b):
        return self._close(a, b)

    def le(self, a, b, label, tol=1e-9):
        with np.errstate(all="ignore"):
            self.check(a <= b + max(tol, 1e-9) * max(1.0, abs(b)), label,
                       f"{_s(a)} <= {_s(b)}")

    def close(self, a, b, tol, label):
        self.check(abs(a - b) <= tol + ATOL, label, f"{a} vs {b}")

    def is_int(self, x):
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool)

    def finite(self, x):
        try:
            return bool(np.isfinite(x))
        except TypeError:
            return False

    def is_float(self, x):
        return isinstance(x, (int, float, np.floating, np.integer))


class HardStop(BaseException):
    """the time of a case ran out in the middle of an execution"""


def run_concrete(case, env, seed=0):
    """-> (status, failures, ctx); status ok / fail / invalid / gap"""
    ctx = ConcCtx(env, seed)
    if case.maxdraws:
        ctx.world.maxdraws = case.maxdraws
    old = np.seterr(all="ignore")
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.fn(ctx, **case.cfg)
    except Invalid:
        return "invalid", [], ctx
    except (Unsupported, PathCut):
        return "gap", [], ctx
    except Exception as ex:
        ctx.failures.append((f"unexpected {type(ex).__name__}",
                             f"{ex} @ {_where(ex)}"))
    finally:
        np.seterr(**old)
    return ("fail" if ctx.failures else "ok"), ctx.failures, ctx


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if L.PKG in f.filename and f.filename.startswith(L.REPO):
            return f"{os.path.relpath(f.filename, L.REPO)}:{f.lineno}"
    return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else "?"


class CaseRun:
    """symbolic exploration of one case"""

    def __init__(self, case, seed=1, budget=60.0, timeout_ms=3000,
                 known=(), verbose=False):
        self.case = case
        self.seed = seed
        self.budget = case.budget or budget
        self.t0 = time.time()
        self.eng = E.Engine(timeout_ms=case.timeout_ms or timeout_ms,
                            deadline=self.t0 + self.budget)
        self.eng.maxbranch = case.maxbranch
        self.eng.branch_ms = case.branch_ms
        self.eng.halflogs = case.halflogs
        self.eng.limits = case.limits
        self.eng.logcmp = case.logcmp
        self.eng.track = case.track
        self.world = SymWorld()
        if case.maxdraws:
            self.world.maxdraws = case.maxdraws
        self.rnd = random.Random(seed * 7919 + hash_str(case.name))
        self.known = known      # labels listed as known findings
        self.undecided = {}     # label -> count
        self.gaps = {}          # unsupported reasons -> count
        self.tries = {}
        self.known_seen = {}
        self.labels = {}
        self.completed = 0
        self.validated = 0
        self.vtries = 0
        self.validation_fail = []
        self.violation = None
        self.incomplete = 0
        self.verbose = verbose

    # -- one proof obligation ---------------------------------------------
    def obligation(self, ctx, label, cond, res, detail):
        L_ = self.labels.setdefault(label, [0, 0])
        L_[0] += 1
        if res is True:
            L_[1] += 1
            return
        self.suspect(label, cond.neg() if cond is not FALSE else None,
                     detail, definite=res is False)

    def suspect(self, label, neg, detail, definite=True):
        """try to turn a failed obligation into a replayed violation"""
        n = self.tries.get(label, 0)
        self.tries[label] = n + 1
        if n < 4:
            extra = [neg] if neg is not None else []
            for envs in (lambda: self.eng.witness_envs(extra),
                         lambda: self.eng.models(
                             extra, n=4, seed=self.rnd.randrange(999)),
                         lambda: [self.eng.random_env(self.rnd)
                                  for t in range(6)]):
                for env in envs():
                    st, fails, ctx = run_concrete(self.case, env,
                                                  self.rnd.randrange(10 ** 6))
                    if self.accept(st, fails, ctx):
                        return
        self.undecided[label] = self.undecided.get(label, 0) + 1
        if self.verbose:
            print("  undecided:", label, detail[:300], file=sys.stderr)

    def accept(self, st, fails, ctx):
        """True when the concrete run fails on the real code"""
        if st != "fail":
            return False
        env = self.spread(ctx.env)
        if env is not None:
            # laws are identified by the number drawn: two draws with the
            # same number are told apart first
            st, fails, ctx = run_concrete(self.case, env, 13)
            if st != "fail":
                return False
        new = [f for f in fails if f[0] not in self.known]
        for f in fails:
            if f[0] in self.known:
                self.known_seen[f[0]] = f[1]
        if not new:
            return True
        raise Found({"case": self.case.name, "label": new[0][0],
                     "detail": new[0][1],
                     "all": [f"{a}: {b}" for a, b in new[:6]],
                     "env": {k: v for k, v in ctx.env.items()}})

    def spread(self, env):
        """env with equal draws moved slightly apart, None if there are none"""
        seen, out = set(), None
        for k in sorted(env):
            v = env[k]
            if k.startswith("in.") or not isinstance(v, float):
                continue
            for t in (v, 1 - v):
                if any(abs(t - s) < 1e-5 for s in seen):
                    out = dict(env) if out is None else out
                    w = v * (1 + self.rnd.uniform(1e-3, 3e-3))
                    out[k] = w if not (v < 1 <= w) else v * 0.998
                    break
            seen.add(out[k] if out is not None else v)
        return out

    def jiggle(self, env):
        """env with every draw moved slightly"""
        out = dict(env)
        for k in sorted(env):
            v = env[k]
            if k.startswith("in.") or not isinstance(v, float):
                continue
            w = v * (1 - self.rnd.uniform(1e-4, 3e-3))
            out[k] = w if not (v > 1 >= w) else v * 1.002
        return out

    def go(self):
        eng = self.eng
        try:
            self._random_probe(0)
            while eng.frontier:
                if time.time() > self.t0 + self.budget:
                    self.incomplete = len(eng.frontier)
                    break
                self.one(eng.frontier.pop())
                if eng.stats.paths >= eng.maxpaths:
                    self.incomplete = len(eng.frontier)
                    break
            if self.undecided or self.gaps or self.incomplete or \
                    self.eng.stats.cut_bound:
                self._random_probe(30)
        except Found as f:
            self.violation = f.rec
        except HardStop:
            self.incomplete = len(eng.frontier) + 1
            try:
                self._random_probe(10)
            except Found as f:
                self.violation = f.rec
            except HardStop:
                pass
        self.wall = time.time() - self.t0
        return self

    def _random_probe(self, n):
        """where the encoding did not decide: concrete runs of the harness
        (can only find, never discharge)"""
        for t in range(n):
            st, fails, ctx = run_concrete(self.case, {},
                                          self.rnd.randrange(10 ** 6))
            self.accept(st, fails, ctx)

    def one(self, prefix):
        eng = self.eng
        eng.start_path(prefix)
        self.world.reset()
        eng.stats.paths += 1
        ld = L.Loader(shims.sym_modules(self.world), A.BUILTINS)
        A.NP._world = self.world
        ctx = SymCtx(eng, self.world, ld, self)
        old = np.seterr(all="ignore")
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.case.fn(ctx, **self.case.cfg)
            if ctx.nchecks:
                self.completed += 1
            if (self.validated < 2 and self.vtries < 8) or (
                    self.completed % 40 == 0 and self.validated < 8):
                self.vtries += 1
                self.validate(ctx)
        except PathCut as ex:
            if ex.bound:
                eng.stats.cut_bound += 1
            else:
                eng.stats.cut_infeasible += 1
        except Unsupported as ex:
            k = str(ex)
            self.gaps[k] = self.gaps.get(k, 0) + 1
            if self.verbose:
                traceback.print_exc()
            if self.gaps[k] <= 2 and "time budget" not in k:
                for env in eng.models(n=3, seed=3):
                    self.accept(*run_concrete(self.case, env, 5))
        except RecursionError as ex:
            self.gaps["recursion"] = self.gaps.get("recursion", 0) + 1
        except Exception as ex:
            lab = f"unexpected {type(ex).__name__}"
            if self.verbose:
                traceback.print_exc()
            L_ = self.labels.setdefault(lab, [0, 0])
            L_[0] += 1
            self.suspect(lab, None, f"{ex} @ {_where(ex)}")
        finally:
            np.seterr(**old)

    def validate(self, ctx):
        """encoding check: outputs predicted by the symbolic path against the
        real code on a model of that path"""
        if self.known_seen or self.undecided:
            return
        envs = self.eng.witness_envs(n=1 + self.vtries % 3)
        if not envs:
            envs = self.eng.models(n=1, seed=self.rnd.randrange(999),
                                   timeout=self.eng.branch_ms)
        if not envs:
            return
        env = envs[-1]
        if not self.eng.pc_holds(env, 1e-7):
            return      # on a branch boundary: rounding may decide otherwise
        ev = self.eng.evaluator(env)
        want = []
        try:
            for nm, v in ctx.outs:
                want.append((nm, [_evalf(x, ev, env)
                                  for x in CtxBase._flat(v)]))
        except (ZeroDivisionError, OverflowError, ValueError):
            return
        st, fails, cc = run_concrete(self.case, env, 11)
        if st == "invalid" or st == "gap":
            return
        if st == "fail":
            if any(abs(v) > 1e4 or 0 < abs(v) < 1e-3 or abs(v-1) < 1e-3
                   for k, v in env.items() if isinstance(v, float)):
                return
            # the path is discharged symbolically: a failure that needs round
            # numbers (0.3 * 0.4 is also another draw) is a mistaken identity
            moved = self.jiggle(env)
            if run_concrete(self.case, moved, 11)[0] == "fail":
                self.accept(st, fails, cc)
            return
        self.validated += 1
        got = [(nm, [float(x) for x in CtxBase._flat(v)])
               for nm, v in cc.outs]
        ok = len(want) == len(got)
        if ok:
            for (n1, a), (n2, b) in zip(want, got):
                if n1 != n2 or len(a) != len(b) or not all(
                        ConcCtx._close(x, y) for x, y in zip(a, b)):
                    ok = False
                    bad = (n1, a, b)
                    break
        else:
            bad = ("number of outputs", len(want), len(got))
        if not ok:
            self.validation_fail.append(repr(bad)[:400])

    def summary(self):
        s = self.eng.stats
        return {
            "case": self.case.name, "bounds": self.case.bounds,
            "paths": s.paths, "completed": self.completed,
            "cut_bound": s.cut_bound, "cut_infeasible": s.cut_infeasible,
            "queries": s.queries, "sat": s.sat, "unsat": s.unsat,
            "unknown": s.unknown, "solver_s": round(s.solver_s, 3),
            "goals": s.goals, "discharged": s.discharged,
            "branches": s.branches, "witnessed": s.witnessed,
            "labels": self.labels, "undecided": self.undecided,
            "gaps": self.gaps, "incomplete": self.incomplete,
            "validated": self.validated,
            "validation_fail": self.validation_fail,
            "known_seen": self.known_seen,
            "violation": self.violation, "wall": round(self.wall, 2),
            "notes": self.eng.notes,
        }


def _evalf(x, ev, env):
    if isinstance(x, SymReal):
        return x.r.evalf(ev)
    if isinstance(x, SymInt):
        return float(env[x.name])
    return float(x)


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def warm():
    """import the libraries before forking"""
    import scipy.special, scipy.stats, scipy.optimize  # noqa: F401,E401
    import scipy.integrate, sklearn.cluster, pandas    # noqa: F401,E401
