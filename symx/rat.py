"""Exact rational functions over named atoms.

A `Rat` is  num / prod(f ** e)  where `num` is a Laurent polynomial (integer
exponents, possibly negative) over atoms with rational coefficients and the
`f` are non-monomial polynomials.  Atoms are either *base* atoms (inputs and
environment draws, mapped to z3 constants) or *function* atoms (log(t),
digamma(t), sqrt(t), ...; mapped to fresh z3 constants which the engine
constrains with instances of true axioms of the function).
"""
from fractions import Fraction
import hashlib
import math

P = (1 << 61) - 1


class Atom:
    __slots__ = ("id", "name", "kind", "args", "z3", "lo", "hi", "lo_open",
                 "hi_open", "idem", "res", "isint", "meta", "cond")

    def __init__(self, id, name, kind, args=(), z3=None, lo=None, hi=None,
                 lo_open=True, hi_open=True, idem=False, isint=False,
                 meta=None, cond=None):
        self.id = id
        self.name = name
        self.kind = kind
        self.args = args
        self.z3 = z3
        self.lo = lo
        self.hi = hi
        self.lo_open = lo_open
        self.hi_open = hi_open
        self.idem = idem
        self.isint = isint
        self.meta = meta
        self.cond = cond
        h = hashlib.sha256(name.encode()).digest()
        self.res = int.from_bytes(h[:8], "big") % P or 1

    def __repr__(self):
        return self.name


class Table:
    """Atom table of one path execution."""

    def __init__(self):
        self.atoms = []
        self.uf = {}
        self.roots = set()      # ids of sqrt atoms

    def new(self, name, kind, **kw):
        a = Atom(len(self.atoms), name, kind, **kw)
        self.atoms.append(a)
        if kind == "sqrt":
            self.roots.add(a.id)
        return a


TAB = Table()


def set_table(t):
    global TAB
    TAB = t


def _c(x):
    """normalise a coefficient"""
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _c(v)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    atoms = TAB.atoms
    for i, e in b:
        v = d.get(i, 0) + e
        if v == 0:
            del d[i]
        else:
            if v > 1 and atoms[i].idem:
                v = 1
            d[i] = v
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            r[m] = v
    return {m: _c(c) for m, c in r.items() if c != 0}


def p_scale(a, c):
    if c == 0:
        return {}
    return {m: _c(v * c) for m, v in a.items()}


def p_pow(a, n):
    r = {(): 1}
    while n:
        if n & 1:
            r = p_mul(r, a)
        a = p_mul(a, a)
        n >>= 1
    return r


def p_monocontent(a):
    """greatest monomial (Laurent) dividing every term; idempotent atoms are
    never pulled out"""
    it = iter(a)
    first = dict(next(it))
    common = {i: e for i, e in first.items() if not TAB.atoms[i].idem}
    neg = {}
    for m in a:
        d = dict(m)
        for i in list(common):
            if i not in d:
                common[i] = min(common[i], 0)
            else:
                common[i] = min(common[i], d[i])
        for i, e in d.items():
            if e < 0 and i not in common:
                common[i] = e
    return tuple(sorted((i, e) for i, e in common.items() if e != 0))


def p_key(a):
    return tuple(sorted(a.items()))


def p_atoms(a):
    s = set()
    for m in a:
        for i, _ in m:
            s.add(i)
    return s


def p_lead(a):
    # lex by (atom id, exp)
    def key(m):
        return tuple((-i, e) for i, e in m)
    return max(a, key=lambda m: _LexKey(m))


class _LexKey:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        return _lex_lt(self.m, o.m)


def _lex_lt(a, b):
    i = j = 0
    while i < len(a) or j < len(b):
        if i < len(a) and (j >= len(b) or a[i][0] < b[j][0]):
            ea, eb = a[i][1], 0
            i += 1
        elif j < len(b) and (i >= len(a) or b[j][0] < a[i][0]):
            ea, eb = 0, b[j][1]
            j += 1
        else:
            ea, eb = a[i][1], b[j][1]
            i += 1
            j += 1
        if ea != eb:
            return ea < eb
    return False


def p_exact_div(a, f, limit=400):
    """a / f for polynomials without negative exponents, or None"""
    if len(a) > limit or len(f) > 40:
        return None
    lf = p_lead(f)
    cf = f[lf]
    dlf = dict(lf)
    q = {}
    r = dict(a)
    steps = 0
    while r:
        steps += 1
        if steps > limit:
            return None
        lr = p_lead(r)
        d = dict(lr)
        m = {}
        for i, e in dlf.items():
            v = d.get(i, 0) - e
            if v < 0:
                return None
        for i, e in d.items():
            v = e - dlf.get(i, 0)
            if v:
                m[i] = v
        m = tuple(sorted(m.items()))
        c = _c(Fraction(r[lr]) / cf)
        q[m] = c
        r = p_add(r, p_mul({m: c}, f), -1)
    return q


class Rat:
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._h = None

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(c):
        c = _c(Fraction(c)) if not isinstance(c, int) else c
        return Rat({(): c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Rat({((a.id, 1),): 1})

    def is_const(self):
        return not self.den and (not self.num or
                                 (len(self.num) == 1 and () in self.num))

    def const_value(self):
        return self.num.get((), 0)

    def is_zero(self):
        return not self.num

    def single_atom(self):
        """the Atom when this is exactly one atom, else None"""
        if self.den or len(self.num) != 1:
            return None
        (m, c), = self.num.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        return TAB.atoms[m[0][0]]

    # -- arithmetic --------------------------------------------------------
    def _common(self, o):
        if self.den == o.den:
            return self.num, o.num, dict(self.den)
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = max(den.get(f, 0), e)
        n1, n2 = self.num, o.num
        for f, e in den.items():
            k1 = e - self.den.get(f, 0)
            k2 = e - o.den.get(f, 0)
            if k1:
                n1 = p_mul(n1, p_pow(dict(f), k1))
            if k2:
                n2 = p_mul(n2, p_pow(dict(f), k2))
        return n1, n2, den

    def add(self, o, s=1):
        if not o.num:
            return self
        if not self.num:
            return o if s == 1 else o.neg()
        n1, n2, den = self._common(o)
        r = Rat(p_add(n1, n2, s), den)
        if den and TAB.roots:
            r = r._roots()
        return r._cancel()

    def neg(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den)

    def mul(self, o):
        if not self.num or not o.num:
            return Rat({})
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = den.get(f, 0) + e
        r = Rat(p_mul(self.num, o.num), den)
        if TAB.roots:
            r = r._roots()
        return r._cancel() if r.den else r

    def _roots(self):
        """powers of square roots other than the first are rewritten"""
        roots = TAB.roots
        bad = [m for m in self.num if any(
            i in roots and e != 1 for i, e in m)]
        if not bad:
            return self
        num = {m: c for m, c in self.num.items() if m not in set(bad)}
        out = Rat(num)
        for m in bad:
            t = Rat({tuple((i, (e % 2 if i in roots else e)) for i, e in m
                           if i not in roots or e % 2): self.num[m]})
            for i, e in m:
                if i in roots and e != 1:
                    t = t.mul(TAB.atoms[i].args[0].ipow(e // 2))
            out = out.add(t)
        if self.den:
            den = dict(out.den)
            for f, e in self.den.items():
                den[f] = den.get(f, 0) + e
            out = Rat(out.num, den)
        return out._roots()

    def inv(self):
        """1/self; self must be non-zero"""
        num = self.num
        if len(num) == 1:
            (m, c), = num.items()
            if not any(TAB.atoms[i].idem for i, _ in m):
                out = Rat({tuple((i, -e) for i, e in m): _c(Fraction(1) / c)})
                for f, e in self.den.items():
                    out = Rat(p_mul(out.num, p_pow(dict(f), e)))
                return out._roots()._cancel() if TAB.roots else out
        # num = c * mono * f  with f primitive normalised
        mono = p_monocontent(num)
        inv_m = tuple((i, -e) for i, e in mono)
        f = p_mul(num, {inv_m: 1}) if mono else num
        lead = f[p_lead(f)]
        f = p_scale(f, Fraction(1) / lead)
        outnum = {inv_m: _c(Fraction(1) / lead)}
        den = {}
        for g, e in self.den.items():
            outnum = p_mul(outnum, p_pow(dict(g), e))
        den[p_key(f)] = 1
        r = Rat(outnum, den)
        if TAB.roots:
            r = r._roots()
        return r._cancel()

    def div(self, o):
        return self.mul(o.inv())

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        if n == 0:
            return Rat.const(1)
        r = Rat(p_pow(self.num, n), {f: e * n for f, e in self.den.items()})
        return r._roots()._cancel() if TAB.roots else r

    def _cancel(self):
        if not self.num:
            return Rat({})
        if not self.den:
            return self
        num = self.num
        den = {}
        changed = False
        for f, e in self.den.items():
            fd = dict(f)
            while e:
                mono = None
                n = num
                if any(ex < 0 for m in n for _, ex in m):
                    mono = p_monocontent(n)
                    mono = tuple((i, x) for i, x in mono if x < 0)
                    n = p_mul(n, {tuple((i, -x) for i, x in mono): 1})
                q = p_exact_div(n, fd)
                if q is None:
                    break
                changed = True
                num = p_mul(q, {mono: 1}) if mono else q
                e -= 1
            if e:
                den[f] = e
        if changed:
            return Rat(num, den)
        return self

    # -- comparison / hashing ---------------------------------------------
    def equals(self, o):
        if self.num == o.num and self.den == o.den:
            return True
        return self.add(o, -1).is_zero()

    def h(self):
        if self._h is None:
            v = _phash(self.num)
            for f, e in self.den.items():
                d = _phash(dict(f))
                if d == 0:
                    d = 1
                v = v * pow(d, -e, P) % P
            self._h = v
        return self._h

    def atoms(self):
        s = p_atoms(self.num)
        for f in self.den:
            s |= p_atoms(dict(f))
        return s

    # -- evaluation --------------------------------------------------------
    def evalf(self, env):
        """env: function atom-id -> float"""
        v = _peval(self.num, env)
        for f, e in self.den.items():
            v = v / _peval(dict(f), env) ** e
        return v

    def size(self):
        return len(self.num) + sum(len(f) for f in self.den)

    def __repr__(self):
        s = _pstr(self.num)
        if self.den:
            s = "(" + s + ")/" + "/".join(
                "(" + _pstr(dict(f)) + ")" + (f"^{e}" if e != 1 else "")
                for f, e in self.den.items())
        return s


def _phash(p):
    v = 0
    atoms = TAB.atoms
    for m, c in p.items():
        if type(c) is Fraction:
            t = c.numerator * pow(c.denominator, -1, P) % P
        else:
            t = c % P
        for i, e in m:
            t = t * pow(atoms[i].res, e, P) % P
        v = (v + t) % P
    return v


def _peval(p, env):
    v = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in m:
            t *= env(i) ** e
        v += t
    return v


def _pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in list(p.items())[:12]:
        s = "*".join(TAB.atoms[i].name + (f"^{e}" if e != 1 else "")
                     for i, e in m)
        out.append(f"{c}*{s}" if s else f"{c}")
    if len(p) > 12:
        out.append("...")
    return " + ".join(out)


# -- interval sign analysis ------------------------------------------------
INF = math.inf


def _imul(a, b):
    """interval product; interval = (lo, lo_open, hi, hi_open)"""
    def prod(x, xo, y, yo):
        if (x == 0 and not xo) or (y == 0 and not yo):
            return 0, False
        if x == 0 or y == 0:
            return 0, True
        return x * y, xo or yo
    c = [prod(a[0], a[1], b[0], b[1]), prod(a[0], a[1], b[2], b[3]),
         prod(a[2], a[3], b[0], b[1]), prod(a[2], a[3], b[2], b[3])]
    lo = min(c, key=lambda t: (t[0], t[1]))
    hi = max(c, key=lambda t: (t[0], not t[1]))
    return (lo[0], lo[1], hi[0], hi[1])


def atom_interval(a):
    lo = -INF if a.lo is None else a.lo
    hi = INF if a.hi is None else a.hi
    return (lo, a.lo_open, hi, a.hi_open)


def _ipow(iv, e):
    if e < 0:
        if iv[0] > 0 or (iv[0] == 0 and iv[1]):
            lo, loo, hi, hio = iv
            nlo = (0, True) if hi == INF else (1 / Fraction(hi), hio)
            nhi = (INF, True) if lo == 0 else (1 / Fraction(lo), loo)
            return _ipow((nlo[0], nlo[1], nhi[0], nhi[1]), -e)
        return (-INF, True, INF, True)
    r = iv
    if e % 2 == 0 and iv[0] < 0:
        # even power of a sign-unknown atom
        if iv[2] <= 0:
            iv = (-iv[2], iv[3], -iv[0], iv[1])
            r = iv
        else:
            m = max(-iv[0], iv[2])
            return (0, False, m ** e if m != INF else INF, True)
    for _ in range(e - 1):
        r = _imul(r, iv)
    return r


def interval(p):
    lo = hi = 0
    loo = hio = False
    for m, c in p.items():
        t = (1, False, 1, False)
        for i, e in m:
            t = _imul(t, _ipow(atom_interval(TAB.atoms[i]), e))
        t = _imul(t, (c, False, c, False))
        lo += t[0]
        hi += t[2]
        loo = loo or t[1]
        hio = hio or t[3]
        if lo == -INF and hi == INF:
            return (-INF, True, INF, True)
    return (lo, loo, hi, hio)


def quick_sign(p):
    """'+', '-', '0', '>=', '<=' or None"""
    if not p:
        return "0"
    # factor out monomial content of strictly positive atoms first
    lo, loo, hi, hio = interval(p)
    if lo > 0 or (lo == 0 and loo):
        return "+"
    if hi < 0 or (hi == 0 and hio):
        return "-"
    mono = p_monocontent(p)
    if mono and len(p) > 1:
        s = 1
        for i, e in mono:
            iv = atom_interval(TAB.atoms[i])
            if iv[0] > 0 or (iv[0] == 0 and iv[1]):
                continue
            s = 0
            break
        if s:
            q = p_mul(p, {tuple((i, -e) for i, e in mono): 1})
            lo2, loo2, hi2, hio2 = interval(q)
            if lo2 > 0 or (lo2 == 0 and loo2):
                return "+"
            if hi2 < 0 or (hi2 == 0 and hio2):
                return "-"
            if lo2 == 0:
                return ">="
            if hi2 == 0:
                return "<="
    if lo == 0:
        return ">="
    if hi == 0:
        return "<="
    return None
