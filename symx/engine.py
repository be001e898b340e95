"""Path-exploring symbolic executor for Python code over exact reals.

The code under analysis runs natively in CPython on `SymReal` / `SymInt`
scalars.  Whenever it needs a truth value the engine asks z3 which outcomes are
feasible under the path condition and forks (by deterministic re-execution).
"""
from fractions import Fraction
import math
import os
import random
import sys
import time

import numpy as np
import z3

from . import rat as R
from .rat import Rat, Atom


class Unsupported(BaseException):
    """The encoding does not cover what the code did (inconclusive)."""


class PathCut(BaseException):
    """Path abandoned: infeasible, or beyond a stated bound."""

    def __init__(self, why, bound=False):
        super().__init__(why)
        self.bound = bound


ENG = None  # current engine


def eng():
    return ENG


# ---------------------------------------------------------------------------
# numbers -> exact rationals

_FC = {}


def lift_float(x):
    """A float constant is read as the simplest rational that rounds to it."""
    r = _FC.get(x)
    if r is None:
        f = Fraction(x)
        s = f.limit_denominator(100000)
        r = s if s != 0 and float(s) == x else f
        if x == 0:
            r = Fraction(0)
        _FC[x] = r
    return r


def to_rat(x):
    """SymReal/int/float/... -> Rat, or None for non-finite / foreign"""
    if isinstance(x, SymReal):
        return x.r
    if isinstance(x, SymInt):
        return x.rat()
    if isinstance(x, (bool, np.bool_)):
        return Rat.const(int(x))
    if isinstance(x, (int, np.integer)):
        return Rat.const(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return None
        return Rat.const(lift_float(x))
    if isinstance(x, Fraction):
        return Rat.const(x)
    if isinstance(x, SymBool):
        return Rat.const(int(bool(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_rat(x.item())
    return None


def is_num(x):
    return isinstance(x, (SymReal, SymInt, SymBool, int, float, np.integer,
                          np.floating, bool, np.bool_, Fraction))


def wrap(r):
    return SymReal(r)


# ---------------------------------------------------------------------------
# conditions

class Cond:
    __slots__ = ("op", "a", "_z", "_k")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._z = None
        self._k = None

    # op: '<','<=','==','!=' with a Rat (compared to 0); 'b' bool atom;
    #     'not' Cond; 'and'/'or' list of Cond; 'T'/'F'
    def key(self):
        if self._k is None:
            if self.op in ("<", "<=", "==", "!="):
                self._k = (self.op, self.a.h())
            elif self.op == "b":
                self._k = ("b", self.a.id)
            elif self.op == "not":
                self._k = ("not", self.a.key())
            elif self.op in ("and", "or"):
                self._k = (self.op,) + tuple(c.key() for c in self.a)
            else:
                self._k = (self.op,)
        return self._k

    def neg(self):
        o = self.op
        if o == "<":
            return Cond("<=", self.a.neg())
        if o == "<=":
            return Cond("<", self.a.neg())
        if o == "==":
            return Cond("!=", self.a)
        if o == "!=":
            return Cond("==", self.a)
        if o == "not":
            return self.a
        if o == "and":
            return Cond("or", [c.neg() for c in self.a])
        if o == "or":
            return Cond("and", [c.neg() for c in self.a])
        if o == "T":
            return FALSE
        if o == "F":
            return TRUE
        return Cond("not", self)

    def atoms(self):
        if self.op in ("<", "<=", "==", "!="):
            return self.a.atoms()
        if self.op == "b":
            return {self.a.id}
        if self.op == "not":
            return self.a.atoms()
        if self.op in ("and", "or"):
            s = set()
            for c in self.a:
                s |= c.atoms()
            return s
        return set()

    def z3(self):
        if self._z is None:
            o = self.op
            if o in ("<", "<=", "==", "!="):
                zero = z3.RealVal(0)
                if o in ("==", "!="):
                    e = poly_z3_cleared(self.a.num, sign=False)
                    self._z = (e == zero) if o == "==" else (e != zero)
                else:
                    num = self.a.num
                    for f, k in self.a.den.items():
                        if k % 2:
                            s = ENG.sign_known(dict(f))
                            if s == "+":
                                continue
                            if s == "-":
                                num = R.p_scale(num, -1)
                            else:
                                num = R.p_mul(num, dict(f))
                    e = poly_z3_cleared(num, sign=True)
                    self._z = (e < zero) if o == "<" else (e <= zero)
            elif o == "b":
                self._z = self.a.cond
            elif o == "not":
                self._z = z3.Not(self.a.z3())
            elif o == "and":
                self._z = z3.And([c.z3() for c in self.a])
            elif o == "or":
                self._z = z3.Or([c.z3() for c in self.a])
            elif o == "T":
                self._z = z3.BoolVal(True)
            else:
                self._z = z3.BoolVal(False)
        return self._z

    def evalf(self, env, tol=0.0):
        o = self.op
        if o in ("<", "<=", "==", "!="):
            try:
                v = self.a.evalf(env)
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
            if isinstance(v, complex) or v != v:
                return None
            if o == "<":
                return v < -tol
            if o == "<=":
                return v <= tol
            if o == "==":
                return abs(v) <= max(tol, 1e-9)
            return abs(v) > tol
        if o == "b":
            return bool(env(self.a.id) > 0.5)
        if o == "not":
            v = self.a.evalf(env, tol)
            return None if v is None else not v
        if o in ("and", "or"):
            vs = [c.evalf(env, tol) for c in self.a]
            if None in vs:
                return None
            return all(vs) if o == "and" else any(vs)
        return o == "T"


TRUE = Cond("T", None)
FALSE = Cond("F", None)


def poly_z3(p):
    if not p:
        return z3.RealVal(0)
    terms = []
    atoms = R.TAB.atoms
    for m, c in p.items():
        fs = []
        for i, e in m:
            zi = atoms[i].z3
            fs.extend([zi] * e)
        cz = z3.RealVal(c if isinstance(c, int) else
                        f"{c.numerator}/{c.denominator}")
        if not fs:
            terms.append(cz)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t if c == 1 else cz * t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def poly_z3_cleared(p, sign):
    neg = {}
    for m in p:
        for i, e in m:
            if e < 0:
                neg[i] = max(neg.get(i, 0), -e)
    if neg:
        mul = []
        for i, e in neg.items():
            a = R.TAB.atoms[i]
            iv = R.atom_interval(a)
            pos = iv[0] > 0 or (iv[0] == 0 and iv[1])
            if sign and not pos and e % 2:
                e += 1
            mul.append((i, e))
        p = R.p_mul(p, {tuple(sorted(mul)): 1})
    return poly_z3(p)


def cmp0(op, r):
    """Cond for  r op 0"""
    if r.is_const():
        c = r.const_value()
        v = {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
        return TRUE if v else FALSE
    return Cond(op, r)


# ---------------------------------------------------------------------------
# scalars

class SymBool:
    __slots__ = ("c",)
    shape = ()
    ndim = 0

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ENG.branch(self.c)

    def __and__(self, o):
        return SymBool(Cond("and", [self.c, as_cond(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(Cond("or", [self.c, as_cond(o)]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(self.c.neg())

    def logical_not(self):
        return SymBool(self.c.neg())

    def _i(self):
        return int(bool(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __index__(self):
        return self._i()
    __int__ = __index__

    def __float__(self):
        return float(self._i())

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return bool(self) == bool(o)
        return bool(self) == o

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"SymBool({self.c.op})"

    def all(self, *a, **k):
        return bool(self)
    any = all


def as_cond(x):
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, Cond):
        return x
    return TRUE if bool(x) else FALSE


def _sgn_known(r):
    return ENG.rat_sign(r)


# arithmetic that keeps track of signs known from the structure of the terms
# (sums of terms of one sign, squares): expanding a polynomial loses them
def p_sum(a, b):
    out = a.add(b)
    if ENG.prov is not None:
        ENG.prov_add(a, b, out, 1)
    return out


def p_diff(a, b):
    out = a.add(b, -1)
    if ENG.prov is not None:
        ENG.prov_add(a, b, out, -1)
    return out


def p_prod(a, b):
    out = a.mul(b)
    if ENG.prov is not None:
        ENG.prov_mul(a, b, out)
    return out


class SymReal:
    __slots__ = ("r",)
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def __init__(self, r):
        self.r = r

    # arithmetic
    def _bin(self, o, f, nf):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        q = to_rat(o)
        if q is not None:
            return SymReal(f(self.r, q))
        if isinstance(o, (float, np.floating)):
            return nf(self, float(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, p_sum, lambda s, v: v)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, p_diff, lambda s, v: -v)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: p_diff(b, a), lambda s, v: v)

    def __mul__(self, o):
        return self._bin(o, p_prod, _mul_nonfinite)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        q = to_rat(o)
        if q is None:
            if isinstance(o, (float, np.floating)):
                return 0.0 if math.isinf(o) else math.nan
            return NotImplemented
        return div_rat(self.r, q)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        q = to_rat(o)
        if q is None:
            if isinstance(o, (float, np.floating)):
                return _mul_nonfinite(self, float(o))
            return NotImplemented
        return div_rat(q, self.r)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __neg__(self):
        return SymReal(p_diff(Rat({}), self.r))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    # comparisons
    def _cmp(self, o, op, swap, nonfinite):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        q = to_rat(o)
        if q is None:
            if isinstance(o, (float, np.floating)):
                o = float(o)
                if o != o:
                    return False
                return nonfinite(o)
            return NotImplemented
        d = self.r.add(q, -1)
        if swap:
            d = d.neg()
        if ENG.logcmp:
            d = _by_logs(d)
        return mkbool(cmp0(op, d))

    def __lt__(self, o):
        return self._cmp(o, "<", False, lambda v: v > 0)

    def __le__(self, o):
        return self._cmp(o, "<=", False, lambda v: v > 0)

    def __gt__(self, o):
        return self._cmp(o, "<", True, lambda v: v < 0)

    def __ge__(self, o):
        return self._cmp(o, "<=", True, lambda v: v < 0)

    def __eq__(self, o):
        r = self._cmp(o, "==", False, lambda v: False)
        return False if r is NotImplemented and not isinstance(
            o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=", False, lambda v: True)
        return True if r is NotImplemented and not isinstance(
            o, np.ndarray) else r

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.const_value())
        raise Unsupported("hash of a symbolic real")

    def __bool__(self):
        return ENG.branch(cmp0("!=", self.r))

    # conversions
    def __float__(self):
        if self.r.is_const():
            return float(self.r.const_value())
        raise Unsupported("float() of a symbolic real")

    def __index__(self):
        if self.r.is_const() and isinstance(self.r.const_value(), int):
            return self.r.const_value()
        if all(R.TAB.atoms[i].isint for i in self.r.atoms()) and \
                not self.r.den:
            return self.concretize_int()
        raise TypeError("symbolic real used as an index")

    def __int__(self):
        return self.__trunc__()

    def concretize_int(self):
        return _pick_int(self.r, exact=True)

    def __trunc__(self):
        if self.r.is_const():
            return int(self.r.const_value())
        if self >= 0:
            return self.__floor__()
        return self.__ceil__()

    def __floor__(self):
        if self.r.is_const():
            return math.floor(self.r.const_value())
        return _pick_int(self.r, exact=False)

    def __ceil__(self):
        if self.r.is_const():
            return math.ceil(self.r.const_value())
        return -_pick_int(self.r.neg(), exact=False)

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def trunc(self):
        return self.__trunc__()

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic real")
    rint = __round__

    # numpy ufunc methods on object elements
    def log(self):
        return f_log(self)

    def exp(self):
        return f_exp(self)

    def sqrt(self):
        return f_sqrt(self)

    def log1p(self):
        return f_log(1 + self)

    def expm1(self):
        return f_exp(self) - 1

    def log2(self):
        return f_log(self) / f_log(2)

    def log10(self):
        return f_log(self) / f_log(10)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def conjugate(self):
        return self

    def absolute(self):
        return abs(self)
    fabs = absolute

    def sign(self):
        if self > 0:
            return 1
        if self < 0:
            return -1
        return 0

    def logical_not(self):
        return not bool(self)

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    # scalar look-alikes of numpy scalars
    def sum(self, *a, **k):
        return self
    mean = prod = max = min = cumsum = ravel = flatten = copy = squeeze = sum
    item = sum

    def astype(self, *a, **k):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"Sym({self.r!r})"

    def __format__(self, spec):
        return repr(self)


def _by_logs(d):
    """difference of two positive terms of which one at least has a factor
    exp(.) -> a value of the same sign: the difference of their logs"""
    parts = {}
    for m, c in d.num.items():
        e = tuple(x for x in m if R.TAB.atoms[x[0]].kind == "exp")
        parts.setdefault(e, {})[tuple(x for x in m if x not in e)] = c
        if len(parts) > 2:
            return d
    if len(parts) != 2:
        return d
    flip = False
    for f, e in d.den.items():
        if e % 2:
            s = ENG.sign_known(dict(f))
            if s not in ("+", "-"):
                return d
            flip ^= s == "-"
    (ea, a), (eb, b) = parts.items()
    if flip:
        a, b = R.p_scale(a, -1), R.p_scale(b, -1)
    sa, sb = ENG.sign_known(a), ENG.sign_known(b)
    if sa == "-" and sb == "+":
        ea, a, eb, b = eb, b, ea, a
    elif sa != "+" or sb != "-":
        return d
    out = log_pos(Rat(a)).add(log_pos(Rat(b).neg()), -1)
    for e, s in ((ea, 1), (eb, -1)):
        for i, k in e:
            out = out.add(R.TAB.atoms[i].args[0].mul(Rat.const(k * s)))
    return out


def _mul_nonfinite(s, v):
    if v != v:
        return v
    if s > 0:
        return v
    if s < 0:
        return -v
    return math.nan


def expect(b, why):
    """truth of a condition that is expected to hold"""
    if isinstance(b, SymBool):
        return ENG.branch(b.c, soft=why)
    return bool(b)


def mkbool(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return SymBool(c)


def div_rat(a, b):
    """numpy float semantics of a / b"""
    if b.is_zero() or (not b.is_const() and
                       ENG.branch(cmp0("==", b))):
        ENG.note("division-by-zero")
        if a.is_zero():
            return math.nan
        s = SymReal(a)
        if s > 0:
            return math.inf
        if s < 0:
            return -math.inf
        return math.nan
    out = a.div(b)
    if ENG.prov is not None:
        ENG.prov_mul(a, b, out)
    return SymReal(out)


def _pick_int(r, exact, bound=12):
    """fork on the integer value (exact) or the floor of r"""
    for n in ENG.int_candidates(bound):
        d = r.add(Rat.const(n), -1)
        if exact:
            if ENG.branch(cmp0("==", d)):
                return n
        else:
            # n <= r < n+1
            c = Cond("and", [cmp0("<=", d.neg()),
                             cmp0("<", d.add(Rat.const(1), -1))])
            if ENG.branch(c):
                return n
    raise PathCut("integer value beyond bound", bound=True)


class SymInt:
    """integer with a small finite domain, one-hot encoded"""
    __slots__ = ("name", "dom")
    shape = ()
    ndim = 0
    dtype = np.dtype(object)

    def __init__(self, name, dom):
        self.name = name
        self.dom = dom  # dict value -> Atom (indicator)

    def rat(self):
        k = ENG.int_known.get(self.name)
        if k is not None:
            return Rat.const(k)
        num = {}
        for v, a in self.dom.items():
            if v:
                num[((a.id, 1),)] = v
        return Rat(num)

    def ind(self, v):
        """indicator (as Rat) of value v"""
        k = ENG.int_known.get(self.name)
        if k is not None:
            return Rat.const(int(k == v))
        a = self.dom.get(v)
        return Rat.const(0) if a is None else Rat.atom(a)

    def is_cond(self, v):
        k = ENG.int_known.get(self.name)
        if k is not None:
            return TRUE if k == v else FALSE
        a = self.dom.get(v)
        return FALSE if a is None else Cond("b", a)

    def value(self):
        k = ENG.int_known.get(self.name)
        if k is not None:
            return k
        vals = list(self.dom)
        for v in vals:
            if ENG.branch(self.is_cond(v)):
                ENG.int_known[self.name] = v
                return v
        raise PathCut("empty integer domain")

    __index__ = value
    __int__ = value

    def __float__(self):
        return float(self.value())

    def __hash__(self):
        return hash(self.value())

    def __bool__(self):
        return self.value() != 0

    def _cmp(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if isinstance(o, SymInt):
            k = ENG.int_known.get(o.name)
            if k is None:
                k2 = ENG.int_known.get(self.name)
                if k2 is not None:
                    cs = [o.is_cond(v) for v in o.dom if f(k2, v)]
                else:
                    cs = [Cond("and", [self.is_cond(v), o.is_cond(w)])
                          for v in self.dom for w in o.dom if f(v, w)]
                return _orbool(cs)
            o = k
        if isinstance(o, (int, np.integer)):
            o = int(o)
            k = ENG.int_known.get(self.name)
            if k is not None:
                return bool(f(k, o))
            return _orbool([self.is_cond(v) for v in self.dom if f(v, o)],
                           len(self.dom))
        if isinstance(o, (float, np.floating)):
            return bool(f(self.value(), float(o)))
        if isinstance(o, SymReal):
            return bool(f(self.value(), o))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(
            o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not isinstance(
            o, np.ndarray) else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # arithmetic: stays an integer-valued symbolic real (no fork)
    def _real(self):
        k = ENG.int_known.get(self.name)
        return k if k is not None else SymReal(self.rat())

    def __add__(self, o):
        return _ar(self, o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return _ar(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _ar(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        return _ar(self, o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return _ar(self, o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return _ar(self, o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return self.value() // o

    def __mod__(self, o):
        return self.value() % o

    def __pow__(self, o):
        return self.value() ** o

    def __rpow__(self, o):
        return o ** self.value()

    def __neg__(self):
        return -self._real()

    def __abs__(self):
        return abs(self.value())

    def __invert__(self):
        return ~self.value()

    def log(self):
        return f_log(self.value())

    def exp(self):
        return f_exp(self.value())

    def sqrt(self):
        return f_sqrt(self.value())

    def conjugate(self):
        return self

    def item(self):
        return self.value()

    def astype(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return f"SymInt({self.name})"


def _ar(s, o, f):
    if isinstance(o, np.ndarray) and o.ndim > 0:
        return NotImplemented
    a = s._real()
    if isinstance(o, SymInt):
        o = o._real()
    return f(a, o)


def _orbool(cs, n=None):
    cs = [c for c in cs if c is not FALSE]
    if not cs:
        return False
    if n is not None and len(cs) == n:
        return True
    if len(cs) == 1:
        return mkbool(cs[0])
    return SymBool(Cond("or", cs))


# ---------------------------------------------------------------------------
# functions

def fin(x):
    """float special values pass through numeric functions"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def _log_const(c):
    """log of a positive rational as a Rat over log(prime) atoms"""
    c = Fraction(c)
    out = Rat({})
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p in _PRIMES:
            while n % p == 0:
                n //= p
                out = out.add(_logatom_const(p), s)
        if n != 1:
            out = out.add(_logatom_const(n), s)
    return out


def _logatom_const(n):
    v = math.log(n)
    a = ENG.fatom("log", (Rat.const(n),), lo=lift_lo(v), hi=lift_hi(v))
    return Rat.atom(a)


def lift_lo(v):
    return Fraction(v) - Fraction(1, 10 ** 9)


def lift_hi(v):
    return Fraction(v) + Fraction(1, 10 ** 9)


def f_log(x):
    if isinstance(x, SymInt):
        x = x.value()
    r = to_rat(x)
    if r is None:
        if isinstance(x, (float, np.floating)):
            return math.nan if (x != x or x < 0) else math.inf
        raise Unsupported(f"log of {type(x).__name__}")
    s = ENG.sign_fork(r)
    if s == 0:
        return -math.inf
    if s < 0:
        return math.nan
    return SymReal(log_pos(r))


def factor_pos(r):
    """a Rat known to be positive as [(base, exponent)]: bases are prime
    numbers, Atoms and normalised polynomials; None when it does not split"""
    if r.is_const():
        return _factor_const(r.const_value())
    num = r.num
    mono = R.p_monocontent(num)
    rest = num
    if len(num) == 1:
        (m, c), = num.items()
        mono, rest = m, {(): c}
        if any(R.TAB.atoms[i].idem for i, _ in m):
            return None
    elif mono:
        rest = R.p_mul(num, {tuple((i, -e) for i, e in mono): 1})
    out = []
    for i, e in mono:
        if ENG.sign_known({((i, 1),): 1}) != "+":
            return None
        out.append((R.TAB.atoms[i], e))
    flip = 1
    for f, e in r.den.items():
        s = ENG.sign_known(dict(f))
        if s == "+":
            out += _factor_poly(dict(f), -e)
        elif s == "-":
            out += _factor_poly(R.p_scale(dict(f), -1), -e)
            if e % 2:
                flip = -flip
        else:
            return None
    rest = R.p_scale(rest, flip)
    if set(rest) == {()}:
        out += _factor_const(rest[()])
    else:
        out += _factor_poly(rest, 1)
    return out


def _factor_poly(p, e):
    """pull the content out of a positive, monomial-free polynomial"""
    lead = abs(p[R.p_lead(p)])
    out = [(Rat(R.p_scale(p, Fraction(1) / lead)), e)]
    if lead != 1:
        out += [(n, k * e) for n, k in _factor_const(lead)]
    return out


def _factor_const(c):
    c = Fraction(c)
    out = []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p in _PRIMES:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                out.append((p, k * s))
        if n != 1:
            out.append((n, s))
    return out


def log_pos(r):
    """log of a Rat known to be positive, expanded over its factors"""
    fs = factor_pos(r)
    if fs is None:
        return Rat.atom(ENG.fatom("log", (r,)))
    out = Rat({})
    for b, e in fs:
        if isinstance(b, int):
            t = _logatom_const(b)
        elif isinstance(b, R.Atom):
            t = _log_atom(b)
        else:
            t = Rat.atom(ENG.fatom("log", (b,)))
        out = out.add(t.mul(Rat.const(e)))
    return out


def _log_atom(a):
    if a.kind == "exp":
        return a.args[0]
    if a.kind == "sqrt":
        return log_pos(a.args[0]).mul(Rat.const(Fraction(1, 2)))
    return Rat.atom(ENG.fatom("log", (Rat.atom(a),)))


def f_exp(x):
    if isinstance(x, SymInt):
        x = x.value()
    r = to_rat(x)
    if r is None:
        if isinstance(x, (float, np.floating)):
            return math.nan if x != x else (math.inf if x > 0 else 0.0)
        raise Unsupported(f"exp of {type(x).__name__}")
    if ENG.limits:
        v = _range(r)
        if v is not None:
            return v
    return SymReal(exp_rat(r))


# exp of less is zero in double precision, exp of more infinite; likewise the
# gamma function (from about 172); the beta function of two arguments above
# BETA_TINY is zero
EXP_TINY, EXP_HUGE = -746, Fraction(70979, 100)
GAMMA_HUGE, BETA_TINY = 200, 600


def _range(r):
    """value of exp(r) where it leaves the range of double precision"""
    gammas = [i for i in r.atoms() if R.TAB.atoms[i].kind == "loggamma"]
    if gammas:
        # a gamma function overflows; ratios of them are not followed
        if len(gammas) == 1 and not r.den and all(
                c == 1 if m == ((gammas[0], 1),) else
                len(m) < 2 and (not m or R.TAB.atoms[m[0][0]].kind == "log")
                for m, c in r.num.items()):
            if bool(SymReal(R.TAB.atoms[gammas[0]].args[0]) > GAMMA_HUGE):
                return math.inf
        return None
    if not any(R.TAB.atoms[i].kind == "exp" for i in exp_rat(r).atoms()):
        return None     # a product of powers
    if bool(SymReal(r) < EXP_TINY):
        return 0
    if bool(SymReal(r) > EXP_HUGE):
        return math.inf
    return None


def exp_rat(r):
    if r.is_zero():
        return Rat.const(1)
    out = Rat.const(1)
    den = None
    for i in sorted({m[0] for mm in r.num for m in mm
                     if m[1] == 1 and
                     R.TAB.atoms[m[0]].kind == "log"}):
        # r = c log(arg) + rest with c a multiple of 1/2
        part = {tuple(x for x in m if x[0] != i): c
                for m, c in r.num.items() if (i, 1) in m}
        if any(x[0] == i for m in r.num if (i, 1) not in m for x in m):
            continue
        if den is None:
            den = {(): 1}
            for f, e in r.den.items():
                den = R.p_mul(den, R.p_pow(dict(f), e))
        if len(part) != len(den):
            continue
        m0 = next(iter(den))
        if m0 not in part:
            continue
        c = Fraction(part[m0]) / den[m0]
        if (2 * c).denominator != 1 or R.p_scale(den, c) != part:
            continue
        arg = R.TAB.atoms[i].args[0]
        k = int(2 * c)
        if k % 2 and not ENG.halflogs:
            continue
        if k % 2 == 0:
            out = out.mul(arg.ipow(k // 2))
        else:
            out = out.mul(arg.ipow((k - 1) // 2)).mul(sqrt_pos(arg))
        r = r.add(Rat({((i, 1),): 1}).mul(Rat.const(c)), -1)
        den = None
    if r.is_zero():
        return out
    return out.mul(Rat.atom(ENG.fatom("exp", (r,), lo=0)))


def f_sqrt(x):
    if isinstance(x, SymInt):
        x = x.value()
    r = to_rat(x)
    if r is None:
        if isinstance(x, (float, np.floating)):
            return math.nan if (x != x or x < 0) else math.inf
        raise Unsupported("sqrt")
    s = ENG.sign_fork(r)
    if s == 0:
        return 0
    if s < 0:
        return math.nan
    return SymReal(sqrt_pos(r))


def _angle(f, x):
    """at a known angle (a number or a multiple of pi): the float"""
    r = to_rat(x)
    if r is not None and not r.is_const():
        q = r.div(ENG.pi().r)
        r = Rat.const(Fraction(float(q.const_value()) * math.pi)) \
            if q.is_const() else None
    if r is None:
        raise Unsupported("angle")
    return float(f(float(r.const_value())))


def f_cos(x):
    return _angle(math.cos, x)


def f_sin(x):
    return _angle(math.sin, x)


def _isqrt_frac(c):
    c = Fraction(c)
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt_pos(r):
    """square root of a positive Rat, factor by factor"""
    fs = factor_pos(r)
    if fs is None:
        return Rat.atom(ENG.fatom("sqrt", (r,), lo=0))
    out = Rat.const(1)
    for b, e in fs:
        if isinstance(b, int):
            t = Rat.const(b)
        elif isinstance(b, R.Atom):
            t = Rat.atom(b)
        else:
            t = b
        k, odd = e // 2, e % 2
        if isinstance(b, R.Atom) and b.kind == "exp":
            out = out.mul(exp_rat(b.args[0].mul(Rat.const(Fraction(e, 2)))))
            continue
        if k:
            out = out.mul(t.ipow(k))
        if odd:
            v = math.sqrt(b) if isinstance(b, int) else None
            out = out.mul(Rat.atom(ENG.fatom(
                "sqrt", (t,), lo=0 if v is None else lift_lo(v),
                hi=None if v is None else lift_hi(v))))
    return out


def sym_pow(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return NotImplemented
    if isinstance(y, SymInt):
        y = y.value()
    if isinstance(x, SymInt):
        x = x.value()
    yr, xr = to_rat(y), to_rat(x)
    if yr is None or xr is None:
        if isinstance(y, (float, np.floating)) or isinstance(
                x, (float, np.floating)):
            raise Unsupported("power with non-finite operand")
        return NotImplemented
    if yr.is_const():
        c = Fraction(yr.const_value())
        if c.denominator == 1:
            n = int(c)
            if n < 0:
                return 1 / sym_pow(x, -n)
            out = xr.ipow(n)
            if ENG.prov is not None:
                ENG.prov_pow(xr, n, out)
            return SymReal(out)
        if c.denominator == 2:
            s = f_sqrt(x)
            if not isinstance(s, SymReal):
                return s if c > 0 else (math.inf if s == 0 else math.nan)
            return sym_pow(s, int(c * 2))
    s = ENG.sign_fork(xr)
    if s == 0:
        if SymReal(yr) > 0:
            return 0
        raise Unsupported("0 ** non-positive")
    if s < 0:
        raise Unsupported("negative base with symbolic exponent")
    return SymReal(exp_rat(yr.mul(log_pos(xr))))


def _shift(r):
    """(k, r-k) such that r-k is the smallest provably positive shift"""
    c = Fraction(r.num.get((), 0)) if not r.den else Fraction(0)
    k = 0
    if c >= 1:
        n = math.floor(c)
        for j in range(n, 0, -1):
            t = r.add(Rat.const(j), -1)
            if R.quick_sign(t.num) == "+" and not t.den:
                k = j
                break
    return k, r.add(Rat.const(k), -1) if k else r


def f_loggamma(x):
    if isinstance(x, SymInt):
        x = x.value()
    r = to_rat(x)
    if r is None:
        if x == math.inf:
            return math.inf
        return math.nan
    s = ENG.sign_fork(r)
    if s == 0:
        return math.inf
    if s < 0:
        raise Unsupported("loggamma of a negative number")
    if r.is_const():
        c = Fraction(r.const_value())
        if c.denominator == 1 and c <= 60:
            return SymReal(_log_const(math.factorial(int(c) - 1)))
        k = max(math.ceil(c) - 1, 0)
        base = c - k
        out = Rat.const(0)
        for j in range(k):
            out = out.add(_log_const(base + j))
        v = math.lgamma(base)
        a = ENG.fatom("loggamma", (Rat.const(base),), lo=lift_lo(v),
                      hi=lift_hi(v))
        return SymReal(out.add(Rat.atom(a)))
    k, b = _shift(r)
    out = Rat.const(0)
    for j in range(k):
        out = out.add(log_pos(b.add(Rat.const(j))))
    return SymReal(out.add(Rat.atom(ENG.fatom("loggamma", (b,)))))


def f_digamma(x):
    if isinstance(x, SymInt):
        x = x.value()
    r = to_rat(x)
    if r is None:
        if x == math.inf:
            return math.inf
        return math.nan
    s = ENG.sign_fork(r)
    if s == 0:
        return -math.inf
    if s < 0:
        raise Unsupported("digamma of a negative number")
    if r.is_const():
        c = Fraction(r.const_value())
        k = max(math.ceil(c) - 1, 0)
        base = c - k
        out = Rat.const(sum((Fraction(1) / (base + j) for j in range(k)),
                            Fraction(0)))
        from scipy.special import digamma as dg
        v = float(dg(float(base)))
        a = ENG.fatom("digamma", (Rat.const(base),), lo=lift_lo(v),
                      hi=lift_hi(v))
        return SymReal(out.add(Rat.atom(a)))
    k, b = _shift(r)
    out = Rat.const(0)
    for j in range(k):
        out = out.add(b.add(Rat.const(j)).inv())
    return SymReal(out.add(Rat.atom(ENG.fatom("digamma", (b,)))))


def f_abs(x):
    return abs(x)


def _fn_float(kind, vals):
    from scipy import special
    x = vals[0]
    if kind == "log":
        return math.log(x)
    if kind == "exp":
        return math.exp(x)
    if kind == "sqrt":
        return math.sqrt(x)
    if kind == "loggamma":
        return float(special.gammaln(x))
    if kind == "digamma":
        return float(special.digamma(x))
    if kind == "pi":
        return math.pi
    raise KeyError(kind)


# ---------------------------------------------------------------------------
# engine

class Stats:
    def __init__(self):
        self.witnessed = 0
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.paths = 0
        self.cut_bound = 0
        self.cut_infeasible = 0
        self.goals = 0
        self.discharged = 0


class Engine:
    def __init__(self, stats=None, timeout_ms=4000, maxpaths=20000,
                 deadline=None):
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.maxpaths = maxpaths
        self.deadline = deadline
        self.frontier = [[]]
        self.seeds = {}
        self.prefix = []
        self.notes = {}

    # -- path life cycle ---------------------------------------------------
    maxbranch = None
    _inprog = 0

    def start_path(self, prefix):
        global ENG
        ENG = self
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.known = {}
        self.int_known = {}
        self.facts = []        # Conds about base atoms (assumptions)
        self.tab = R.Table()
        R.set_table(self.tab)
        self.names = {}
        self.signs = {}
        self.prov = {} if self.track else None
        self.draws = []
        self.bases = []
        self.lemma_cache = {}
        self.zfacts = {}
        self.lemma_memo = {}
        self.wit, self.wit_n, self.wit_tries = None, 0, 0

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1

    def uniq(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return f"{name}#{n}" if n else name

    # -- atoms -------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True,
             meta=None):
        name = self.uniq(name)
        a = self.tab.new(name, "base", z3=z3.Real(name),
                         lo=None if lo is None else Fraction(lo),
                         hi=None if hi is None else Fraction(hi),
                         lo_open=lo_open, hi_open=hi_open, meta=meta)
        self.bases.append(a)
        return SymReal(Rat.atom(a))

    def int(self, name, values, meta=None):
        name = self.uniq(name)
        values = list(values)
        if len(values) == 1:
            return values[0]
        dom = {}
        for v in values:
            nm = f"{name}={v}"
            b = z3.Bool(nm)
            a = self.tab.new(nm, "ind", z3=z3.If(b, z3.RealVal(1),
                                                 z3.RealVal(0)),
                             lo=Fraction(0), hi=Fraction(1), lo_open=False,
                             hi_open=False, idem=True, isint=True, cond=b,
                             meta=(name, v))
            dom[v] = a
        s = SymInt(name, dom)
        group = [a for a in dom.values()]
        for a in group:
            a.args = group
        self.bases.append(s)
        return s

    def fatom(self, kind, args, lo=None, hi=None):
        key = (kind,) + tuple(a.h() for a in args)
        a = self.tab.uf.get(key)
        if a is not None:
            return a
        name = self.uniq(f"{kind}@{len(self.tab.uf)}")
        b_lo = lo
        b_hi = hi
        if kind == "log" and not args[0].is_const() and not args[0].den:
            iv = R.interval(args[0].num)
            if iv[2] <= 1:
                b_hi = 0
            if iv[0] >= 1:
                b_lo = 0
        a = self.tab.new(name, kind, args=args, z3=z3.Real(name),
                         lo=None if b_lo is None else Fraction(b_lo),
                         hi=None if b_hi is None else Fraction(b_hi))
        if kind == "log" and not args[0].is_const() and not args[0].den:
            iv = R.interval(args[0].num)
            if iv[2] == 1:
                a.hi_open = iv[3]
            if iv[0] == 1:
                a.lo_open = iv[1]
        self.tab.uf[key] = a
        # residue must depend only on the arguments (congruence by hash)
        h = hash((kind,) + tuple(x.h() for x in args)) % R.P
        a.res = h or 1
        return a

    def pi(self):
        a = self.tab.uf.get(("pi",))
        if a is None:
            a = self.tab.new("pi", "pi", z3=z3.Real("pi"),
                             lo=Fraction(314159265, 100000000),
                             hi=Fraction(314159266, 100000000))
            self.tab.uf[("pi",)] = a
        return SymReal(Rat.atom(a))

    # -- solver ------------------------------------------------------------
    def _atom_facts(self, aid):
        z = self.zfacts.get(aid)
        if z is not None:
            return z
        a = self.tab.atoms[aid]
        out = []
        if a.kind == "ind":
            group = a.args
            for g in group:
                self.zfacts[g.id] = []
            bs = [g.cond for g in group]
            out.append(z3.PbEq([(b, 1) for b in bs], 1) if len(bs) > 2
                       else z3.Xor(bs[0], bs[1]))
            self.zfacts[group[0].id] = out
            # any member of the group triggers the group's fact
            for g in group:
                self.zfacts[g.id] = out
            return out
        if a.lo is not None:
            v = z3.RealVal(str(a.lo))
            out.append(a.z3 > v if a.lo_open else a.z3 >= v)
        if a.hi is not None:
            v = z3.RealVal(str(a.hi))
            out.append(a.z3 < v if a.hi_open else a.z3 <= v)
        self.zfacts[aid] = out
        return out

    def _slice(self, seeds, conds):
        """conditions (transitively) sharing atoms with seeds"""
        atoms = self._groups(set(seeds))
        rest = [(c, self._groups(c.atoms())) for c in conds]
        out = []
        changed = True
        while changed:
            changed = False
            nrest = []
            for c, s in rest:
                if s & atoms or not s:
                    out.append(c)
                    if not s <= atoms:
                        atoms |= s
                        changed = True
                else:
                    nrest.append((c, s))
            rest = nrest
        return out, atoms

    def _groups(self, atoms):
        extra = None
        for i in atoms:
            a = self.tab.atoms[i]
            if a.kind == "ind":
                extra = extra or set()
                extra.update(g.id for g in a.args)
        return atoms | extra if extra else atoms

    def _arg_closure(self, atoms):
        todo = list(atoms)
        seen = set(atoms)
        while todo:
            a = self.tab.atoms[todo.pop()]
            if a.kind in ("log", "exp", "sqrt", "loggamma", "digamma"):
                for r in a.args:
                    for i in r.atoms():
                        if i not in seen:
                            seen.add(i)
                            todo.append(i)
        return seen

    def _lemmas(self, atoms):
        """true facts about the function atoms in `atoms`"""
        out = []
        fa = [self.tab.atoms[i] for i in atoms]
        by = {}
        for a in fa:
            if a.kind in ("log", "exp", "sqrt", "loggamma", "digamma"):
                by.setdefault(a.kind, []).append(a)
        one = Rat.const(1)
        memo = self.lemma_memo
        for v in by.values():
            v.sort(key=lambda a: a.id)

        def iff(c1, c2):
            return z3.And(z3.Implies(c1, c2), z3.Implies(c2, c1))

        def keep(key, f):
            r = memo.get(key)
            if r is None:
                r = memo[key] = f()
            out.extend(r)

        def one_log(a):
            t = a.args[0]
            if t.is_const():
                return []
            v = Rat.atom(a)
            d = t.add(one, -1)
            return [iff(cmp0("<", d).z3(), cmp0("<", v).z3()),
                    iff(cmp0("==", d).z3(), cmp0("==", v).z3()),
                    cmp0("<=", v.add(d, -1)).z3()]

        def one_exp(a):
            t = a.args[0]
            v = Rat.atom(a)
            d = v.add(one, -1)
            return [iff(cmp0("<", t).z3(), cmp0("<", d).z3()),
                    iff(cmp0("==", t).z3(), cmp0("==", d).z3()),
                    cmp0("<=", t.add(one).add(v, -1)).z3()]

        def one_sqrt(a):
            v = Rat.atom(a)
            return [cmp0("==", v.mul(v).add(a.args[0], -1)).z3()]

        def pair(a, b, mono):
            da = a.args[0].add(b.args[0], -1)
            dv = Rat.atom(a).add(Rat.atom(b), -1)
            if da.size() > 60:
                return []
            if not mono:
                return [z3.Implies(cmp0("==", da).z3(),
                                   cmp0("==", dv).z3())]
            return [iff(cmp0("<", da).z3(), cmp0("<", dv).z3()),
                    iff(cmp0("==", da).z3(), cmp0("==", dv).z3())]
        for kind, f in (("log", one_log), ("exp", one_exp),
                        ("sqrt", one_sqrt)):
            for a in by.get(kind, []):
                keep(a.id, lambda: f(a))
        for kind in ("log", "exp", "digamma", "sqrt"):
            L = by.get(kind, [])
            if len(L) > 14:
                L = L[:14]
            for i in range(len(L)):
                for j in range(i):
                    keep((L[i].id, L[j].id),
                         lambda: pair(L[i], L[j], True))
        L = by.get("loggamma", [])[:14]
        for i in range(len(L)):
            for j in range(i):
                keep((L[i].id, L[j].id), lambda: pair(L[i], L[j], False))
        return out

    def _check(self, zs, timeout, want_model=False):
        t0 = time.time()
        res, model = z3.unknown, None
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("random_seed", 1)
        s.add(*zs)
        try:
            res = s.check()
        except z3.Z3Exception:
            res = z3.unknown
        if res == z3.sat and want_model:
            model = s.model()
        if res == z3.unknown:
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", timeout)
            try:
                s.add(*zs)
                res = s.check()
                if res == z3.sat and want_model:
                    model = s.model()
            except z3.Z3Exception:
                res = z3.unknown
        st = self.stats
        dt = time.time() - t0
        if dt > 1 and os.environ.get("SYMX_SLOW"):
            print(f"[slow {dt:.1f}s {res}]", len(zs), str(zs[-1])[:600],
                  file=sys.stderr)
        st.solver_s += dt
        st.queries += 1
        if res == z3.sat:
            st.sat += 1
        elif res == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return res, model

    def feasible(self, cond, timeout=None):
        """z3 verdict for pc /\\ cond (sliced): sat / unsat / unknown"""
        timeout = timeout or self.timeout_ms
        cs, atoms = self._slice(cond.atoms(), self.pc + self.facts)
        zs = []
        seen = set()
        for i in atoms:
            for f in self._atom_facts(i):
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    zs.append(f)
        zs += [c.z3() for c in cs]
        zs.append(cond.z3())
        res, m = self._check(zs, timeout, True)
        if res == z3.unsat:
            return res
        if any(self.tab.atoms[i].kind not in ("base", "ind", "pi")
               for i in atoms):
            clo = self._arg_closure(atoms)
            cs2, atoms2 = self._slice(clo, self.pc + self.facts)
            atoms2 = self._arg_closure(atoms2 | clo)
            zs2 = []
            for i in atoms2:
                for f in self._atom_facts(i):
                    zs2.append(f)
            zs2 += [c.z3() for c in cs2]
            zs2.append(cond.z3())
            zs2 += self._lemmas(atoms2)
            zs2 += self._log_lemmas(cs2 + [cond])
            res, m = self._check(zs2, timeout, True)
        if m is not None and self.wit is not None and len(self.wit) < 12:
            self._model_point(m, cond)
        return res

    def _model_point(self, m, cond):
        """a solver model becomes a known point where it is one (functions
        are only axiomatised, so it may not be)"""
        base = dict(self.wit[0].env) if self.wit else {}
        for b in self.bases:
            if isinstance(b, Atom):
                v = m.eval(b.z3)
                if z3.is_rational_value(v) or z3.is_algebraic_value(v):
                    base[b.name] = z3_to_float(v)
            else:
                for x, a in b.dom.items():
                    if z3.is_true(m.eval(a.cond)):
                        base[b.name] = x
        w = _Wit(self, 77 + len(self.trace), base)
        try:
            if _holds(cond, w.ev) and all(_holds(c, w.ev) for c in self.pc):
                self.wit.append(w)
        except Exception:
            pass

    def _through_functions(self, cond, timeout):
        """unsat once the conditions on functions of the same inputs (a log
        of an input, say) join the slice?"""
        atoms = self._arg_closure(cond.atoms())
        cs = []
        for c in self.pc + self.facts:
            s = self._arg_closure(c.atoms())
            if s != c.atoms() and s & atoms:
                cs.append(c)
        if not cs:
            return False
        cs, used = self._slice(atoms.union(*[self._arg_closure(c.atoms())
                                             for c in cs]),
                               self.pc + self.facts)
        used = self._arg_closure(used)
        zs = [f for i in used for f in self._atom_facts(i)]
        zs += [c.z3() for c in cs] + [cond.z3()]
        zs += self._lemmas(used) + self._log_lemmas(cs + [cond])
        return self._check(zs, timeout)[0] == z3.unsat

    def _log_lemmas(self, conds):
        """sum of c_i log(t_i) compared to 0  <=>  prod t_i ** c_i to 1"""
        out = []
        seen = set()
        todo = list(conds)
        while todo:
            c = todo.pop()
            if c.op in ("and", "or"):
                todo.extend(c.a)
                continue
            if c.op == "not":
                todo.append(c.a)
                continue
            if c.op not in ("<", "<=", "==", "!=") or not c.a.num:
                continue
            p = c.a.num
            mono = R.p_monocontent(p)
            if mono:
                p = R.p_mul(p, {tuple((i, -e) for i, e in mono): 1})
            if len(p) < 2 or len(p) > 5:
                continue
            lhs, rhs = Rat.const(1), Rat.const(1)
            ok = True
            for m, k in p.items():
                if len(m) != 1 or m[0][1] != 1 or not isinstance(k, int) \
                        or abs(k) > 12 or \
                        self.tab.atoms[m[0][0]].kind != "log":
                    ok = False
                    break
                t = self.tab.atoms[m[0][0]].args[0].ipow(abs(k))
                if k > 0:
                    lhs = lhs.mul(t)
                else:
                    rhs = rhs.mul(t)
            key = R.p_key(p)
            if not ok or key in seen:
                continue
            seen.add(key)
            d = lhs.add(rhs, -1)
            if d.size() > 200:
                continue
            v = Rat(p)
            for op in ("<", "=="):
                c1, c2 = cmp0(op, v).z3(), cmp0(op, d).z3()
                out.append(z3.And(z3.Implies(c1, c2), z3.Implies(c2, c1)))
        return out

    def prove(self, cond, timeout=None):
        """True (proved), False (refuted candidate) or None (unknown)"""
        self.stats.goals += 1
        if cond is TRUE:
            self.stats.discharged += 1
            return True
        if cond is FALSE:
            return False
        r = self.feasible(cond.neg(), timeout or 3 * self.timeout_ms)
        if r != z3.unsat and self._through_functions(cond.neg(), timeout or
                                                     3 * self.timeout_ms):
            r = z3.unsat
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        return False if r == z3.sat else None

    # -- facts about the current path --------------------------------------
    def decided(self, cond):
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        k = self.known.get(cond.key())
        if k is not None:
            return k
        if cond.op in ("<", "<=", "==", "!="):
            r = cond.a
            s = self.rat_sign_quick(r)
            v = _sign_decides(cond.op, s)
            if v is not None:
                return v
        if cond.op == "b":
            nm, v = cond.a.meta
            k = self.int_known.get(nm)
            if k is not None:
                return k == v
        if cond.op == "not":
            k = self.decided(cond.a)
            return None if k is None else not k
        if cond.op in ("and", "or"):
            ks = [self.decided(c) for c in cond.a]
            if cond.op == "and":
                if False in ks:
                    return False
                if all(k is True for k in ks):
                    return True
            else:
                if True in ks:
                    return True
                if all(k is False for k in ks):
                    return False
        return None

    # -- signs by construction: value hash -> (sign, nonzero, unknown factors)
    prov = None
    track = False
    EMPTY = frozenset()

    def _prov(self, r):
        h = r.h()
        t = self.prov.get(h)
        if t is None:
            s = None
            if r.size() <= 12:
                s = R.quick_sign(r.num)
                if s in ("+", "-", ">=", "<="):
                    for f, e in r.den.items():
                        u = self.signs.get(f) or R.quick_sign(dict(f))
                        if u not in ("+", "-"):
                            s = None
                            break
                        if u == "-" and e % 2:
                            s = {"+": "-", "-": "+", ">=": "<=",
                                 "<=": ">="}[s]
            if s in ("+", ">="):
                t = (1, s == "+", self.EMPTY)
            elif s in ("-", "<="):
                t = (-1, s == "-", self.EMPTY)
            else:
                t = (1, False, frozenset((h,)))
            self.prov[h] = t
        return t

    def _prov_set(self, r, t):
        if r.is_const():
            return
        h = r.h()
        old = self.prov.get(h)
        if old is not None and not old[2] and (old[1] or not t[1]):
            return
        self.prov[h] = t
        if t[2] or len(r.num) < 2:
            return
        sg = t[0]
        for f, e in r.den.items():
            if e % 2:
                u = self.signs.get(f) or R.quick_sign(dict(f))
                if u not in ("+", "-"):
                    return
                if u == "-":
                    sg = -sg
        key, m = self._norm(r.num)
        if m is None:
            return
        sg *= m
        if t[1]:
            self.signs[key] = "+" if sg > 0 else "-"
        else:
            self.signs.setdefault(("weak", key), ">=" if sg > 0 else "<=")

    def _norm(self, p):
        """key of p without content, and the sign of the content (None when
        it is not known)"""
        mono = R.p_monocontent(p)
        sg = 1
        if mono:
            s = R.quick_sign({mono: 1})
            if s == "-":
                sg = -1
            elif s != "+":
                sg = None
            p = R.p_mul(p, {tuple((i, -e) for i, e in mono): 1})
        lead = p[R.p_lead(p)]
        if lead < 0 and sg:
            sg = -sg
        if lead != 1:
            p = R.p_scale(p, Fraction(1) / lead)
        return R.p_key(p), sg

    def prov_add(self, a, b, out, s):
        if a.is_zero():
            ta = (0, False, self.EMPTY)
        else:
            ta = self._prov(a)
        if b.is_zero():
            tb = (0, False, self.EMPTY)
        else:
            tb = self._prov(b)
        tb = (tb[0] * s, tb[1], tb[2])
        if not tb[0]:
            return
        if not ta[0]:
            self._prov_set(out, tb)
        elif not ta[2] and not tb[2] and ta[0] == tb[0]:
            self._prov_set(out, (ta[0], ta[1] or tb[1], self.EMPTY))

    def prov_mul(self, a, b, out):
        if a.is_zero() or b.is_zero():
            return
        ta, tb = self._prov(a), self._prov(b)
        odd = ta[2] ^ tb[2]
        if len(odd) <= 6:
            self._prov_set(out, (ta[0] * tb[0], ta[1] and tb[1], odd))

    def prov_pow(self, a, n, out):
        if a.is_zero() or n < 2:
            return
        t = self._prov(a)
        if n % 2 == 0:
            t = (1, t[1] and not t[2], self.EMPTY)
        self._prov_set(out, t)

    def _sign_poly(self, p):
        s = R.quick_sign(p)
        if (s is None or s in (">=", "<=")) and self.signs:
            key = R.p_key(p)
            u = self.signs.get(key)
            m = 1
            if u is None:
                key, m = self._norm(p)
                u = m and (self.signs.get(key) or
                           (s is None and self.signs.get(("weak", key))))
            if u:
                s = u if m > 0 else {"+": "-", "-": "+", ">=": "<=",
                                     "<=": ">="}[u]
        return s

    def rat_sign_quick(self, r):
        s = self._sign_poly(r.num) if r.num else "0"
        if s is None or s == "0":
            return s
        flip = False
        for f, e in r.den.items():
            if e % 2:
                t = self.signs.get(f) or R.quick_sign(dict(f))
                if t == "+":
                    continue
                if t == "-":
                    flip = not flip
                else:
                    return None
        if flip:
            s = {"+": "-", "-": "+", ">=": "<=", "<=": ">="}[s]
        return s

    def sign_known(self, p):
        """'+', '-' when provable on this path, else None (no forking)"""
        s = self._sign_poly(p)
        if s in ("+", "-", "0"):
            return s
        key = R.p_key(p)
        r = Rat(p)
        n = len(self.pc)
        miss = self.signs.get(("miss", key))
        if miss == n:
            return None
        # the sign query may itself need this sign to encode a condition:
        # answer "unknown" while it is being worked out
        self.signs[("miss", key)] = n
        self._inprog += 1
        try:
            if self._inprog > 6:
                del self.signs[("miss", key)]
                return None
            if self.feasible(Cond("<=", r)) == z3.unsat:
                self.signs[key] = "+"
                return "+"
            if self.feasible(Cond("<=", r.neg())) == z3.unsat:
                self.signs[key] = "-"
                return "-"
        finally:
            self._inprog -= 1
        return None

    def rat_sign(self, r):
        s = self.rat_sign_quick(r)
        if s in ("+", "-", "0"):
            return s
        if self.feasible(cmp0("<=", r)) == z3.unsat:
            return "+"
        if self.feasible(cmp0("<=", r.neg())) == z3.unsat:
            return "-"
        return None

    def sign_fork(self, r):
        """fork on the sign of r: -1, 0, 1"""
        if r.is_zero():
            return 0
        s = self.rat_sign_quick(r)
        if s == "+":
            return 1
        if s == "-":
            return -1
        if self.branch(cmp0("<", r.neg())):
            return 1
        if self.branch(cmp0("==", r)):
            return 0
        return -1

    def int_candidates(self, bound):
        yield 0
        for n in range(1, bound + 1):
            yield n
            yield -n

    def record(self, cond, val):
        self.known[cond.key()] = val
        self.known[cond.neg().key()] = not val
        if cond.op == ("and" if val else "or"):
            for c in cond.a:
                self.record(c, val)
        if cond.op == "b" and val:
            nm, v = cond.a.meta
            self.int_known[nm] = v
        if cond.op == "not" and not val and cond.a.op == "b":
            nm, v = cond.a.a.meta
            self.int_known[nm] = v

    def branch(self, cond, soft=False):
        k = self.decided(cond)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            self.trace.append((v, forced))
            if not forced:
                self.pc.append(cond if v else cond.neg())
            self.record(cond, v)
            if soft and forced and v and cond.op == "<":
                self.signs[R.p_key(cond.a.neg().num)] = "+"
            return v
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the harness exhausted")
        if self.maxbranch and i >= self.maxbranch:
            raise PathCut("more branches than the bound", bound=True)
        self.stats.branches += 1
        yes, no = self._witnessed(cond)
        if soft and not no:
            # a condition that is expected to hold (a scale matrix is positive
            # definite): not explored the other way unless shown possible
            f = self.feasible(cond.neg(), 400)
            if f != z3.sat:
                if f != z3.unsat:
                    self.note("assumed where undecided: " + soft)
                self.trace.append((True, True))
                self.record(cond, True)
                if cond.op == "<":
                    self.signs[R.p_key(cond.a.neg().num)] = "+"
                return True
        t = z3.sat if yes else self.feasible(cond, self.branch_ms)
        if t == z3.unsat:
            v, forced = False, True
        else:
            f = z3.sat if no else self.feasible(cond.neg(),
                                                self.branch_ms)
            if f == z3.unsat:
                v, forced = True, True
            else:
                v, forced = True, False
                tr = self.trace + [(False, False)]
                self.frontier.append(tr)
                self._seed(tr, cond.neg())
        self.trace.append((v, forced))
        if not forced:
            self.pc.append(cond if v else cond.neg())
        self.record(cond, v)
        return v

    # -- concrete points of the path: a point where a condition holds shows
    # that the branch is feasible without asking the solver
    NWIT = 64
    branch_ms = None
    halflogs = True      # exp(log(x)/2) becomes a square root
    logcmp = False       # products of exponentials are compared by logs
    limits = False       # exp underflows and overflows, epsilon is not zero

    def _witnessed(self, cond):
        ws = self._wits()
        yes = no = False
        neg = None
        for w in ws:
            try:
                if not yes and _holds(cond, w.ev):
                    yes = True
                elif not no:
                    neg = neg or cond.neg()
                    if _holds(neg, w.ev):
                        no = True
            except Exception:
                continue
            if yes and no:
                break
        if ws and not (yes and no):
            want = cond.neg() if yes else cond
            if self._search(want, ws):
                yes, no = True, yes or no
        if yes or no:
            self.stats.witnessed += yes + no
        return yes, no

    def _search(self, cond, ws, tries=80):
        """look for a point of the path where cond holds, moving the inputs
        the condition depends on"""
        names = []
        for i in self._arg_closure(cond.atoms()):
            a = self.tab.atoms[i]
            if a.kind == "base":
                names.append((a.name, a))
            elif a.kind == "ind" and (a.meta[0], None) not in names:
                names.append((a.meta[0], None))
        if not names:
            return False
        rnd = random.Random(len(self.trace) * 7919 + len(names))
        t0 = time.time()
        for t in range(tries):
            w0 = ws[t % len(ws)]
            env = dict(w0.env)
            ks = rnd.sample(names, min(len(names), 1 + t % 5))
            w = _Wit(self, rnd.randrange(1 << 30), env)
            for nm, a in ks:
                env.pop(nm, None)
                if a is not None and t % 3:
                    env[nm] = w.wild(a, rnd)
            try:
                if _holds(cond, w.ev) and all(_holds(c, w.ev)
                                              for c in self.pc):
                    self.wit.append(w)
                    return True
            except Exception:
                continue
            if time.time() - t0 > 0.3:
                break
        return False

    def _seed(self, trace, cond):
        """keep known points of a path left for later"""
        envs = []
        for w in self.wit or ():
            try:
                if _holds(cond, w.ev):
                    envs.append(dict(w.env))
            except Exception:
                continue
            if len(envs) >= 8:
                break
        if envs:
            self.seeds[tuple(trace)] = envs

    def _wits(self):
        n = len(self.pc)
        if self.wit is None:
            envs = self.seeds.pop(tuple(self.prefix), None)
            if envs:
                self.wit = [_Wit(self, 5000 + t, dict(e))
                            for t, e in enumerate(envs)]
                self.wit += [w.mutate(self, t) for t in range(3)
                             for w in self.wit[:8]]
            else:
                self.wit = [_Wit(self, 1000 + t) for t in range(self.NWIT)]
            self.wit_n = 0
        if self.wit_n < n:
            new = self.pc[self.wit_n:]
            keep = []
            for w in self.wit:
                try:
                    if all(_holds(c, w.ev) for c in new):
                        keep.append(w)
                except Exception:
                    pass
            self.wit, self.wit_n = keep, n
            if keep and len(keep) < 12 and self.wit_tries < 40:
                self.wit_tries += 1
                for t in range(48):
                    w = keep[t % len(keep)].mutate(self, t)
                    try:
                        if all(_holds(c, w.ev) for c in self.pc):
                            self.wit.append(w)
                    except Exception:
                        pass
                    if len(self.wit) >= 32:
                        break
        return self.wit

    def witness_envs(self, extra=(), n=4):
        """known points of the path where the extra conditions hold"""
        out = []
        for w in self._wits():
            try:
                if not all(_holds(c, w.ev) for c in extra):
                    continue
                for b in self.bases:
                    if isinstance(b, Atom):
                        w.ev(b.id)
                    elif b.name not in w.env:
                        w.ev(next(iter(b.dom.values())).id)
            except Exception:
                continue
            out.append(dict(w.env))
            if len(out) >= n:
                break
        return out

    def assume(self, cond):
        k = self.decided(cond)
        if k is True:
            return
        if k is False:
            raise PathCut("assumption violated")
        self.pc.append(cond)
        self.record(cond, True)
        # implied sign information may now be available
        for key in [k for k in self.signs if k and k[0] == "miss"]:
            del self.signs[key]

    # -- models ------------------------------------------------------------
    def _all_z3(self, extra=(), lemmas=True):
        zs = []
        seen = set()
        used = set()
        for c in list(self.pc) + list(self.facts) + list(extra):
            used |= c.atoms()
        for b in self.bases:
            if isinstance(b, Atom):
                used.add(b.id)
            else:
                for a in b.dom.values():
                    used.add(a.id)
        used = self._arg_closure(used)
        for i in used:
            for f in self._atom_facts(i):
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    zs.append(f)
        zs += [c.z3() for c in self.pc]
        zs += [c.z3() for c in self.facts]
        zs += [c.z3() for c in extra]
        if lemmas:
            zs += self._lemmas(used)
        return zs

    def models(self, extra=(), n=6, seed=0, timeout=None):
        """up to n diverse assignments of the base inputs satisfying the path
        condition and `extra` (function atoms only axiomatised)"""
        timeout = timeout or self.timeout_ms
        out = []
        rnd = random.Random(seed)
        zs = self._all_z3(extra)
        res, m = self._check(zs, timeout, want_model=True)
        if res == z3.unknown:
            zs = self._all_z3(extra, lemmas=False)
            res, m = self._check(zs, timeout, want_model=True)
        if m is not None:
            out.append(self._env(m))
        if res == z3.unsat:
            return out
        reals = [b for b in self.bases if isinstance(b, Atom)]
        for k in range(n - 1):
            s = z3.Solver()
            s.set("timeout", timeout // 4 + 50)
            s.set("random_seed", rnd.randrange(1000))
            s.add(*zs)
            order = reals[:]
            rnd.shuffle(order)
            t0 = time.time()
            for b in order[:12]:
                if time.time() - t0 > 6:
                    break
                v = self._rand_in(b, rnd)
                s.push()
                s.add(b.z3 == z3.RealVal(str(v)))
                if s.check() != z3.sat:
                    s.pop()
            try:
                if s.check() == z3.sat:
                    out.append(self._env(s.model()))
            except z3.Z3Exception:
                pass
        return out

    @staticmethod
    def _rand_in(b, rnd):
        lo = -3 if b.lo is None else b.lo
        hi = (lo + 5) if b.hi is None else b.hi
        if b.lo is None and b.hi is not None:
            lo = hi - 5
        t = Fraction(rnd.randrange(5, 96), 100)
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * t

    def _env(self, m):
        env = {}
        for b in self.bases:
            if isinstance(b, Atom):
                v = m.eval(b.z3, model_completion=True)
                env[b.name] = z3_to_float(v)
            else:
                val = None
                for v, a in b.dom.items():
                    if z3.is_true(m.eval(a.cond, model_completion=True)):
                        val = v
                env[b.name] = val if val is not None else next(iter(b.dom))
        return env

    def random_env(self, rnd):
        env = {}
        for b in self.bases:
            if isinstance(b, Atom):
                env[b.name] = float(self._rand_in(b, rnd))
            else:
                env[b.name] = self.int_known.get(
                    b.name, rnd.choice(list(b.dom)))
        return env

    def evaluator(self, env):
        """atom-id -> float under base assignment env, true functions"""
        cache = {}

        def ev(i):
            v = cache.get(i)
            if v is not None:
                return v
            a = self.tab.atoms[i]
            if a.kind == "base":
                v = float(env[a.name])
            elif a.kind == "ind":
                nm, val = a.meta
                v = 1.0 if env[nm] == val else 0.0
            elif a.kind == "pi":
                v = math.pi
            else:
                v = _fn_float(a.kind, [r.evalf(ev) for r in a.args])
            cache[i] = v
            return v
        return ev

    def pc_holds(self, env, margin=0.0):
        """the path condition holds at env, inequalities with some margin"""
        ev = self.evaluator(env)
        for c in list(self.pc) + list(self.facts):
            try:
                v = c.evalf(ev, -margin if c.op == "<=" else margin)
            except Exception:
                return False
            if not v:
                return False
        return True


class _Wit:
    """a concrete point: base inputs get values when first looked at"""

    def __init__(self, eng, seed, env=None):
        self.eng, self.seed = eng, seed
        self.rnd = random.Random(seed)
        self.env = env if env is not None else {}
        self.cache = {}

    def mutate(self, eng, seed):
        rnd = random.Random(self.seed * 31 + seed)
        env = dict(self.env)
        ks = list(env)
        for k in rnd.sample(ks, min(len(ks), 1 + seed % 4)):
            del env[k]
        return _Wit(eng, self.seed * 31 + seed, env)

    @staticmethod
    def wild(a, rnd):
        """a value near an end of the range, or far out"""
        e = 10.0 ** -rnd.randrange(1, 6)
        lo = None if a.lo is None else float(a.lo)
        hi = None if a.hi is None else float(a.hi)
        if lo is not None and hi is not None:
            return lo + (hi - lo) * (e if rnd.random() < .5 else 1 - e)
        if lo is not None:
            return lo + rnd.choice([e, 1, 8, 50, 400])
        if hi is not None:
            return hi - rnd.choice([e, 1, 8, 50, 400])
        return rnd.choice([-1, 1]) * rnd.choice([0., e, 1., 8., 40.])

    def ev(self, i):
        v = self.cache.get(i)
        if v is not None:
            return v
        a = self.eng.tab.atoms[i]
        if a.kind == "base":
            v = self.env.get(a.name)
            if v is None:
                v = self.env[a.name] = float(self.eng._rand_in(a, self.rnd))
        elif a.kind == "ind":
            nm, val = a.meta
            x = self.env.get(nm)
            if x is None:
                x = self.eng.int_known.get(nm)
                if x is None:
                    for b in self.eng.bases:
                        if not isinstance(b, Atom) and b.name == nm:
                            x = self.rnd.choice(list(b.dom))
                self.env[nm] = x
            v = 1.0 if x == val else 0.0
        elif a.kind == "pi":
            v = math.pi
        else:
            v = _fn_float(a.kind, [r.evalf(self.ev) for r in a.args])
        self.cache[i] = v
        return v


def _holds(c, ev, m=1e-6):
    """c holds at the point with some margin"""
    o = c.op
    if o in ("<", "<=", "==", "!="):
        v = c.a.evalf(ev)
        if isinstance(v, complex) or v != v or abs(v) > 1e12:
            return False
        if o in ("<", "<="):
            return v < -m
        return o == "!=" and abs(v) > m
    if o == "b":
        return ev(c.a.id) > 0.5
    if o == "not":
        a = c.a
        return ev(a.a.id) < 0.5 if a.op == "b" else _holds(a.neg(), ev, m)
    if o == "and":
        return all(_holds(x, ev, m) for x in c.a)
    if o == "or":
        return any(_holds(x, ev, m) for x in c.a)
    return o == "T"


def _sign_decides(op, s):
    if s is None:
        return None
    if op == "<":
        return {"+": False, "-": True, "0": False, ">=": False}.get(s)
    if op == "<=":
        return {"+": False, "-": True, "0": True, "<=": True}.get(s)
    if op == "==":
        return {"+": False, "-": False, "0": True}.get(s)
    return {"+": True, "-": True, "0": False}.get(s)


def z3_to_float(v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    try:
        return float(v.as_decimal(20).rstrip("?"))
    except Exception:
        return 0.5
