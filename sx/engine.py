"""Symbolic execution engine: real arithmetic values, path forking, solver queries.

One `Engine` lives for one execution (= one path) of a harness.  The explorer re-executes the
harness once per path, steering `fork` with the recorded decisions.
"""
import itertools
import math as _m
import random
import time
from fractions import Fraction

import z3

from . import poly as P
from .poly import Poly

CUR = None  # the engine of the running path


class Unsupported(BaseException):
    """The encoding does not cover something the code did: the run is inconclusive."""


class PathAbort(BaseException):
    """The current path is infeasible or has been cut by an assumption."""


class Defer(BaseException):
    """Raised inside a deferred constructor when it reaches a symbolic branch."""


# --------------------------------------------------------------------------- formulas
# ('T',) ('F',) ('lt',p) p<0 ('le',p) p<=0 ('eq',p) p==0 ('ne',p) ('and',(..)) ('or',(..)) ('int',v)
T = ("T",)
F = ("F",)


def f_atom(op, p):
    if p.is_const():
        c = p.const_value()
        v = {"lt": c < 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[op]
        return T if v else F
    c = p.content()
    if c != 1:
        p = p.scale(1 / c)
    if op in ("eq", "ne"):
        _, lc = p.lead()
        if lc < 0:
            p = -p
    return (op, p)


def f_and(*fs):
    out = []
    for f in fs:
        if f is F or f[0] == "F":
            return F
        if f[0] == "T":
            continue
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f[0] == "T":
            return T
        if f[0] == "F":
            continue
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def f_not(f):
    k = f[0]
    if k == "T":
        return F
    if k == "F":
        return T
    if k == "lt":
        return f_atom("le", -f[1])
    if k == "le":
        return f_atom("lt", -f[1])
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return f_or(*[f_not(x) for x in f[1]])
    if k == "or":
        return f_and(*[f_not(x) for x in f[1]])
    raise Unsupported(f"negation of {k}")


def f_vars(f):
    k = f[0]
    if k in ("lt", "le", "eq", "ne"):
        return f[1].vars()
    if k == "int":
        return frozenset((f[1],))
    if k in ("and", "or"):
        s = frozenset()
        for x in f[1]:
            s |= f_vars(x)
        return s
    return frozenset()


def f_subs(f, mp):
    k = f[0]
    if k in ("lt", "le", "eq", "ne"):
        p = f[1].subs(mp)
        return f if p is f[1] else f_atom(k, p)
    if k == "and":
        return f_and(*[f_subs(x, mp) for x in f[1]])
    if k == "or":
        return f_or(*[f_subs(x, mp) for x in f[1]])
    return f


def f_evalf(f, env):
    """True / False / None (too close to call)."""
    k = f[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k in ("lt", "le", "eq", "ne"):
        try:
            v = f[1].evalf(env)
            s = f[1].evalabs(env)
        except (OverflowError, KeyError, TypeError, ZeroDivisionError):
            return None
        if v != v or s == _m.inf:
            return None
        tol = 1e-9 * (s + 1e-30)
        if abs(v) <= tol:
            if s == 0 or v == 0:
                return {"lt": False, "le": True, "eq": True, "ne": False}[k]
            return None
        return {"lt": v < 0, "le": v < 0, "eq": False, "ne": True}[k]
    if k == "and":
        r = True
        for x in f[1]:
            v = f_evalf(x, env)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if k == "or":
        r = False
        for x in f[1]:
            v = f_evalf(x, env)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if k == "int":
        x = env.get(f[1])
        return None if x is None else x == int(x)
    return None


class Z3Ctx:
    """Translation of formulas to z3 expressions."""

    def __init__(self, eng):
        self.e = eng
        self.v = {}

    def var(self, v):
        r = self.v.get(v)
        if r is None:
            if v in self.e.int_vars:
                r = z3.ToReal(z3.Int(self.e.names[v]))
            else:
                r = z3.Real(self.e.names[v])
            self.v[v] = r
        return r

    def poly(self, p):
        if p._z is not None and p._z[0] is self:
            return p._z[1]
        terms = []
        for m, c in p.t.items():
            fs = []
            for v, e in m:
                x = self.var(v)
                fs.extend([x] * e)
            if not fs:
                terms.append(z3.RealVal(Fraction(c) if type(c) is not int else c))
                continue
            t = fs[0]
            for x in fs[1:]:
                t = t * x
            if c != 1:
                t = z3.RealVal(str(c)) * t
            terms.append(t)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        p._z = (self, r)
        return r

    def formula(self, f):
        k = f[0]
        if k == "T":
            return z3.BoolVal(True)
        if k == "F":
            return z3.BoolVal(False)
        if k == "lt":
            return self.poly(f[1]) < 0
        if k == "le":
            return self.poly(f[1]) <= 0
        if k == "eq":
            return self.poly(f[1]) == 0
        if k == "ne":
            return self.poly(f[1]) != 0
        if k == "and":
            return z3.And(*[self.formula(x) for x in f[1]])
        if k == "or":
            return z3.Or(*[self.formula(x) for x in f[1]])
        raise Unsupported(k)


# --------------------------------------------------------------------------- values
def _as_const(x):
    """Python number -> Fraction/int, or special float string, or None."""
    tx = type(x)
    if tx is int:
        return x
    if tx is bool:
        return int(x)
    if tx is Fraction:
        return x
    if tx is float:
        if x != x or x in (_m.inf, -_m.inf):
            return x
        return Fraction(x)
    return None


def special(x):
    return type(x) is float and (x != x or x in (_m.inf, -_m.inf))


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CUR.fork(self.f)

    def __and__(self, o):
        return SymBool(f_and(self.f, to_f(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(f_or(self.f, to_f(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(f_not(self.f))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__


def to_f(x):
    if isinstance(x, SymBool):
        return x.f
    return T if x else F


def mkbool(f):
    if f[0] == "T":
        return True
    if f[0] == "F":
        return False
    return SymBool(f)


KINDS = {"i": 0, "f": 1, "q": 1, "d": 2}


class DecimalMix(TypeError):
    pass


def join_kind(a, b):
    if a == b:
        return a
    if "d" in (a, b):
        o = b if a == "d" else a
        if o == "i":
            return "d"
        raise TypeError("unsupported operand type(s): 'decimal.Decimal' and 'float'")
    return "f"


SYM_HASH = 7919


class Num:
    """An exact real value num/den; den is a product of polynomials known non-zero on the path."""

    __slots__ = ("n", "d", "k", "absof")

    def __init__(self, n, d=(), k="f"):
        self.n = n
        self.d = d  # tuple of (Poly, multiplicity), sorted by hash
        self.k = k
        self.absof = None

    # -- helpers
    def is_const(self):
        return not self.d and self.n.is_const()

    def const(self):
        return self.n.const_value()

    def _coerce(self, o):
        t = type(o)
        if t is Num:
            return o
        if t is AbsNum:
            return o.force()
        if t is int or t is bool:
            return Num(Poly.const(int(o)), (), "i")
        if t is float:
            if special(o):
                return o
            return Num(Poly.const(Fraction(o)), (), "f")
        if t is Fraction:
            return Num(Poly.const(o), (), "f")
        if isinstance(o, Num):
            return o
        if t.__name__ == "Decimal":
            return Num(Poly.const(Fraction(o)), (), "d")
        return None

    def __add__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return num_add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return -o
        return num_add(self, num_neg(o))

    def __rsub__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return num_add(o, num_neg(self))

    def __mul__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if o != o:
                return o
            s = CUR.sign(self)
            return _m.nan if s == 0 else o * s
        return num_mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            if o != o:
                return o
            return Num(P.ZERO, (), "f")
        return num_div(self, o)

    def __rtruediv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            s = CUR.sign(self)
            if s == 0:
                raise ZeroDivisionError("float division by zero")
            return o if o != o else o * s
        return num_div(o, self)

    def __floordiv__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        k = join_kind(self.k, o.k)
        q = num_div(self, o)
        r = CUR.floor(q)
        return Num(r.n, r.d, k)

    def __rfloordiv__(self, o):
        o = self._coerce(o)
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        q = self.__floordiv__(o)
        r = num_add(self, num_neg(num_mul(q, o)))
        r.k = join_kind(self.k, o.k)
        return r

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._coerce(o).__mod__(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        o = self._coerce(o)
        return (o // self, o % self)

    def __neg__(self):
        return num_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return num_abs(self)

    def __pow__(self, o, mod=None):
        o = self._coerce(o)
        if o is None or mod is not None:
            return NotImplemented
        return num_pow(self, o)

    def __rpow__(self, o):
        return num_pow(self._coerce(o), self)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, Ang):
            return NotImplemented
        if type(o) is AbsNum:
            return NotImplemented
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            if o2 != o2:
                return op == "ne"
            pos = o2 > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        return mkbool(cmp_f(self, o2, op))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return r

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __hash__(self):
        """Equal numbers (on this path) get equal hashes: 0, 1 and constant integers that of the integer."""
        if self.is_const():
            c = Fraction(self.const())
            return hash(c) if c.denominator == 1 else SYM_HASH
        return 0 if self == 0 else 1 if self == 1 else SYM_HASH

    def __bool__(self):
        return bool(self._cmp(0, "ne"))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic number in uninstrumented code")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return CUR.concretize(CUR.trunc(self))

    __trunc__ = __int__

    def __floor__(self):
        return CUR.floor(self)

    def __ceil__(self):
        return num_neg(CUR.floor(num_neg(self)))

    def __index__(self):
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.concretize(self)

    def __round__(self, nd=None):
        return CUR.round(self, nd)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return CUR.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return CUR.format(self, spec)

    # float / int / Decimal API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return bool(CUR.floor(self) == self)

    def fma(self, a, b):
        return self * a + b

    def sqrt(self, context=None):
        r = CUR.sqrt(self)
        if type(r) is AbsNum:
            return AbsNum(Num(r.x.n, r.x.d, "d"))
        return Num(r.n, r.d, "d") if type(r) is Num else r

    def copy_abs(self):
        return abs(self)

    def hypot(self, o):
        return CUR.sqrt(self * self + o * o)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")


class Cased:
    """A word whose letters are each in lower or upper case; the case is decided only where it matters."""

    __class__ = property(lambda self: str)

    def __init__(self, letters):
        self.letters = letters

    def text(self):
        return "".join(lo if b is None or not bool(b == 1) else up for lo, up, b in self.letters)

    def lower(self):
        return "".join(lo for lo, _, _ in self.letters)

    casefold = lower

    def upper(self):
        return "".join(up for _, up, _ in self.letters)

    def isalpha(self):
        return self.lower().isalpha()

    def isalnum(self):
        return self.lower().isalnum()

    def isascii(self):
        return self.lower().isascii()

    def isdigit(self):
        return self.lower().isdigit()

    def strip(self, *a):
        return self if not a and self.lower().strip() == self.lower() else self.text().strip(*a)

    def capitalize(self):
        return self.lower().capitalize()

    def title(self):
        return self.lower().title()

    def __len__(self):
        return len(self.letters)

    def __bool__(self):
        return bool(self.letters)

    def __str__(self):
        return self.text()

    def __repr__(self):
        return repr(self.text())

    def __format__(self, spec):
        return format(self.text(), spec)

    def __hash__(self):
        return hash(self.text())

    def __eq__(self, o):
        o = o.text() if type(o) is Cased else o
        if not isinstance(o, str) or o.lower() != self.lower():
            return False
        return self.text() == o

    def __iter__(self):
        return iter(self.text())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Cased(self.letters[i])
        lo, up, b = self.letters[i]
        return lo if b is None or not bool(b == 1) else up

    def __contains__(self, o):
        return o in self.text()

    def __add__(self, o):
        return self.text() + o

    def __radd__(self, o):
        return o + self.text()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.text(), name)


class AbsNum(Num):
    """|x|, materialised only when used in arithmetic; comparisons stay formulas."""

    __slots__ = ("x", "val")

    def __init__(self, x):
        self.x = x
        self.val = None
        self.k = x.k
        self.absof = x

    def force(self):
        if self.val is None:
            if self.x >= 0:
                self.val = self.x
            else:
                self.val = num_neg(self.x)
        return self.val

    n = property(lambda s: s.force().n)
    d = property(lambda s: s.force().d)

    def is_const(self):
        return False

    def _cmp(self, o, op):
        if self.val is not None:
            return self.val._cmp(o, op)
        if type(o) is AbsNum:
            if o.val is None:
                # |a| op |b|  <=>  a^2 op b^2
                return mkbool(cmp_f(num_mul(self.x, self.x), num_mul(o.x, o.x), op))
            o = o.val
        o2 = self._coerce(o)
        if o2 is None:
            return NotImplemented
        if type(o2) is float:
            return Num._cmp(self.x, o, op)
        x, nx = self.x, num_neg(self.x)
        if op in ("le", "lt"):
            return mkbool(f_and(cmp_f(x, o2, op), cmp_f(nx, o2, op)))
        if op in ("ge", "gt"):
            return mkbool(f_or(cmp_f(x, o2, op), cmp_f(nx, o2, op)))
        if op == "eq":
            return mkbool(f_and(cmp_f(o2, ZERO_N, "ge"), f_or(cmp_f(x, o2, "eq"), cmp_f(nx, o2, "eq"))))
        return mkbool(f_not(f_and(cmp_f(o2, ZERO_N, "ge"), f_or(cmp_f(x, o2, "eq"), cmp_f(nx, o2, "eq")))))

    def __abs__(self):
        return self

    def __hash__(self):
        return hash(self.force())

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __add__(self, o): return self.force() + o
    __radd__ = __add__
    def __sub__(self, o): return self.force() - o
    def __rsub__(self, o): return o - self.force()
    def __mul__(self, o):
        if type(o) is AbsNum and self.val is None and o.val is None:
            return num_abs(num_mul(self.x, o.x))
        return self.force() * o
    __rmul__ = __mul__
    def __truediv__(self, o):
        if type(o) is AbsNum and self.val is None and o.val is None:
            return num_abs(num_div(self.x, o.x))
        return self.force() / o
    def __rtruediv__(self, o): return o / self.force()
    def __neg__(self): return -self.force()
    def __pos__(self): return self


def _rat(x):
    return Num(Poly.const(x), (), "f")


ZERO_N = Num(P.ZERO, (), "i")


def lit(s):
    """A float literal of the source, read as the exact decimal it spells."""
    s = s.replace("_", "")
    v = float(s)
    if v in (_m.inf,):
        return v
    return Num(Poly.const(Fraction(s)), (), "f")


def numify(x):
    """Divisors: Python ints/floats become exact values so that int/int stays exact."""
    t = type(x)
    if t is int or t is bool:
        return Num(Poly.const(int(x)), (), "i")
    if t is float and not special(x):
        return Num(Poly.const(Fraction(x)), (), "f")
    return x


# --- rational function arithmetic with factored denominators
def den_key(it):
    return hash(it[0])


def split_const(p):
    c, q = p.primitive()
    return Fraction(c), q


def den_norm(n, dmap):
    """Cancel factors of the denominator against the numerator; reduce h^2 -> e."""
    changed = True
    while changed:
        changed = False
        for f, m in list(dmap.items()):
            if f.is_const():
                n = n.scale(Fraction(1) / Fraction(f.const_value()) ** m)
                del dmap[f]
                changed = True
                break
            # a root variable squared in the denominator
            if len(f.t) == 1:
                (mono, c), = f.t.items()
                if len(mono) == 1:
                    v, e = mono[0]
                    ru = P.RULES.get(v)
                    if ru and e * m >= 1 and c == 1 and e == 1:
                        # 1/h^m : multiply num by h^(k*n - m) and use rep^k
                        nn, rep = ru
                        k = -(-m // nn)
                        extra = k * nn - m
                        if extra:
                            n = n * Poly.var(v).pow(extra)
                        del dmap[f]
                        cc, prim = split_const(rep)
                        n = n.scale(Fraction(1) / cc ** k)
                        if not prim.is_const():
                            dmap[prim] = dmap.get(prim, 0) + k
                        changed = True
                        break
    if not n.t:
        return n, ()
    for f in list(dmap):
        while dmap.get(f, 0) > 0:
            q = n.divexact(f)
            if q is None:
                break
            n = q
            dmap[f] -= 1
        if dmap.get(f) == 0:
            del dmap[f]
    return n, tuple(sorted(dmap.items(), key=den_key))


def num_neg(a):
    if type(a) is float:
        return -a
    if type(a) is AbsNum:
        a = a.force()
    return Num(-a.n, a.d, a.k)


def num_add(a, b):
    if type(a) is AbsNum:
        a = a.force()
    if type(b) is AbsNum:
        b = b.force()
    k = join_kind(a.k, b.k)
    if a.d == b.d:
        n = a.n + b.n
        if not a.d:
            return Num(n, (), k)
        n, d = den_norm(n, dict(a.d))
        return Num(n, d, k)
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for f, m in db.items():
        if l.get(f, 0) < m:
            l[f] = m
    na, nb = a.n, b.n
    for f, m in l.items():
        x = m - da.get(f, 0)
        if x:
            na = na * f.pow(x)
        x = m - db.get(f, 0)
        if x:
            nb = nb * f.pow(x)
    n, d = den_norm(na + nb, l)
    return Num(n, d, k)


def num_mul(a, b):
    if type(a) is AbsNum:
        a = a.force()
    if type(b) is AbsNum:
        b = b.force()
    k = join_kind(a.k, b.k)
    if not a.d and not b.d:
        return Num(a.n * b.n, (), k)
    d = dict(a.d)
    for f, m in b.d:
        d[f] = d.get(f, 0) + m
    n, d = den_norm(a.n * b.n, d)
    return Num(n, d, k)


def num_inv_nocheck(b):
    """1/b for b known non-zero."""
    c, p = split_const(b.n)
    n = P.ONE.scale(Fraction(1) / c)
    for f, m in b.d:
        n = n * f.pow(m)
    d = {} if p.is_const() else {p: 1}
    if not p.is_const():
        # split off monomial factors: cheap factorisation
        d = split_factors(p)
    n, d = den_norm(n, d)
    return Num(n, d, "f")


def split_factors(p):
    """Split p into monomial variable factors and a remaining polynomial."""
    mins = None
    for m in p.t:
        dm = dict(m)
        if mins is None:
            mins = dm
        else:
            mins = {v: min(e, dm[v]) for v, e in mins.items() if v in dm}
        if not mins:
            break
    d = {}
    if mins:
        for v, e in mins.items():
            f = Poly.var(v)
            d[f] = e
            for _ in range(e):
                p = p.divexact(f)
    if not p.is_const():
        d[p] = d.get(p, 0) + 1
    return d


def num_div(a, b):
    if type(a) is AbsNum:
        a = a.force()
    if type(b) is AbsNum:
        b = b.force()
    k = join_kind(a.k, b.k)
    if k == "i":
        k = "f"
    if b.is_const():
        c = b.const()
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return Num(a.n.scale(Fraction(1) / Fraction(c)), a.d, k)
    if CUR.fork(f_atom("eq", b.n)):
        raise ZeroDivisionError("division by zero")
    r = num_mul(a, num_inv_nocheck(b)) if k != "d" else num_mul(Num(a.n, a.d, "f"), num_inv_nocheck(b))
    return Num(r.n, r.d, k)


def num_abs(a):
    if type(a) is AbsNum:
        return a
    if a.is_const():
        return Num(Poly.const(abs(a.const())), (), a.k)
    s = CUR.quick_sign(a)
    if s is not None:
        return a if s >= 0 else num_neg(a)
    return AbsNum(a)


def num_pow(a, b):
    if type(a) is AbsNum:
        a = a.force()
    if b.is_const():
        e = Fraction(b.const())
        if e.denominator == 1:
            e = int(e)
            k = join_kind(a.k, b.k) if not (a.k == "i" and b.k == "i") else "i"
            if e == 0:
                return Num(P.ONE, (), k)
            if e > 0:
                r = a
                for _ in range(e - 1):
                    r = num_mul(r, a)
                return Num(r.n, r.d, k)
            r = num_pow(a, Num(Poly.const(-e), (), b.k))
            return num_div(Num(P.ONE, (), "i"), r)
        if e == Fraction(1, 2):
            if a.is_const() and a.const() < 0:
                raise Unsupported("complex power")
            if CUR.fork(f_not(cmp_f(a, ZERO_N, "ge"))):
                raise Unsupported("complex power")
            return CUR.sqrt(a)
        if e == Fraction(-1, 2):
            return num_div(Num(P.ONE, (), "i"), CUR.sqrt(a))
        if e == Fraction(3, 2):
            return num_mul(a, CUR.sqrt(a))
        if abs(e - Fraction(1, 3)) < Fraction(1, 10**15):
            if CUR.fork(cmp_f(a, ZERO_N, "lt")):
                raise Unsupported("complex power")
            return CUR.cbrt(a)
    if a.is_const() and b.k == "i":
        return num_pow(a, Num(Poly.const(CUR.concretize(b)), (), "i"))
    if b.k == "i":
        return num_pow(a, Num(Poly.const(CUR.concretize(b)), (), "i"))
    raise Unsupported("symbolic power")


def cmp_poly(a, b):
    """Polynomial p with sign(p) == sign(a-b) on the path."""
    if type(a) is AbsNum:
        a = a.force()
    if type(b) is AbsNum:
        b = b.force()
    if not a.d and not b.d:
        return a.n - b.n
    diff = num_add(Num(a.n, a.d, "f"), num_neg(Num(b.n, b.d, "f")))
    p = diff.n
    if not p.t:
        return p
    for f, m in diff.d:
        if m % 2 and not CUR.known_positive(f):
            p = p * f
    return p


def cmp_f(a, b, op):
    if op in ("eq", "ne"):
        if type(a) is AbsNum:
            a = a.force()
        if type(b) is AbsNum:
            b = b.force()
        if not a.d and not b.d:
            p = a.n - b.n
        else:
            p = num_add(Num(a.n, a.d, "f"), num_neg(Num(b.n, b.d, "f"))).n
        return CUR.canon(f_atom(op, p))
    p = cmp_poly(a, b)
    if op == "lt":
        f = f_atom("lt", p)
    elif op == "le":
        f = f_atom("le", p)
    elif op == "gt":
        f = f_atom("lt", -p)
    else:
        f = f_atom("le", -p)
    return CUR.canon(f)


class SymComplex(complex):
    """A complex point with symbolic parts (attribute access only)."""

    def __new__(cls, x, y):
        o = complex.__new__(cls, 0, 0)
        o._x = x
        o._y = y
        return o

    @property
    def real(self):
        return self._x

    @property
    def imag(self):
        return self._y

    def __iter__(self):
        raise TypeError("cannot unpack non-iterable complex object")

    def _mul(self, o):
        return SymComplex(self._x * o.real - self._y * o.imag, self._x * o.imag + self._y * o.real)

    def __neg__(self):
        return SymComplex(-self._x, -self._y)

    def __pos__(self):
        return self

    def __rsub__(self, o):
        return -self + o

    def conjugate(self):
        return SymComplex(self._x, -self._y)

    def __bool__(self):
        return not bool(self == 0)

    def __complex__(self):
        raise Unsupported("complex() of a symbolic point")

    def __hash__(self):
        return hash((self._x, self._y))

    def __repr__(self):
        return f"({self._x}+{self._y}j)"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __sub__(self, o):
        if isinstance(o, SymComplex):
            return SymComplex(self._x - o._x, self._y - o._y)
        if isinstance(o, complex):
            return SymComplex(self._x - o.real, self._y - o.imag)
        return SymComplex(self._x - o, self._y)

    def __add__(self, o):
        if isinstance(o, complex):
            return SymComplex(self._x + o.real, self._y + o.imag)
        return SymComplex(self._x + o, self._y)

    __radd__ = __add__

    def __truediv__(self, o):
        if isinstance(o, complex):
            q = o.real * o.real + o.imag * o.imag
            n = self._mul(o.conjugate())
            return SymComplex(n._x / numify(q), n._y / numify(q))
        return SymComplex(self._x / numify(o), self._y / numify(o))

    def __rtruediv__(self, o):
        return SymComplex(o.real, o.imag) / self

    def __mul__(self, o):
        if isinstance(o, complex):
            return self._mul(o)
        return SymComplex(self._x * o, self._y * o)

    __rmul__ = __mul__

    def __abs__(self):
        return CUR.sqrt(self._x * self._x + self._y * self._y)

    def __eq__(self, o):
        if isinstance(o, complex):
            return mkbool(f_and(to_f(self.real == o.real), to_f(self.imag == o.imag)))
        if isinstance(o, (int, float, Num)):
            return mkbool(f_and(to_f(self.real == o), to_f(self.imag == 0)))
        return False

    def __ne__(self, o):
        if isinstance(o, complex):
            return mkbool(f_or(to_f(self.real != o.real), to_f(self.imag != o.imag)))
        if isinstance(o, (int, float, Num)):
            return mkbool(f_or(to_f(self.real != o), to_f(self.imag != 0)))
        return True

    __hash__ = None
    def _u(self, *a):
        raise Unsupported("power of a symbolic point")

    __pow__ = _u


# --------------------------------------------------------------------------- angles
class AngBase:
    """An opaque angle A (radians) known through (cos A, sin A) and a range."""

    __slots__ = ("c", "s", "rng", "third")

    def __init__(self, c, s, rng):
        self.c = c
        self.s = s
        self.rng = rng
        self.third = None


def pi_trig(q):
    """(cos, sin) of q*pi exactly, for q a multiple of 1/12 (else Unsupported)."""
    q = Fraction(q) % 2
    if (q * 6).denominator == 1:
        k = int(q * 6)  # multiples of 30 degrees
        if k % 3 == 0:
            t = {0: (1, 0), 3: (0, 1), 6: (-1, 0), 9: (0, -1)}[k]
            return _rat(t[0]), _rat(t[1])
        r3 = num_mul(CUR.sqrt(_rat(3)), _rat(Fraction(1, 2)))
        h = _rat(Fraction(1, 2))
        cs = {1: (r3, h), 2: (h, r3), 4: (num_neg(h), r3), 5: (num_neg(r3), h),
              7: (num_neg(r3), num_neg(h)), 8: (num_neg(h), num_neg(r3)),
              10: (h, num_neg(r3)), 11: (r3, num_neg(h))}
        return cs[k]
    if (q * 4).denominator == 1:
        r2 = num_mul(CUR.sqrt(_rat(2)), _rat(Fraction(1, 2)))
        k = int(q * 4)
        c = r2 if k in (1, 7) else num_neg(r2)
        s = r2 if k in (1, 3) else num_neg(r2)
        return c, s
    return CUR.const_trig(q)


class Ang:
    """Value (sum k_i*A_i + q*pi) * pi**e with e in {0 (radians), -1 (degrees and the like)}."""

    __slots__ = ("b", "q", "e")

    def __init__(self, b, q=0, e=0):
        self.b = b  # tuple of (AngBase, Fraction)
        self.q = Fraction(q)
        self.e = e

    @staticmethod
    def make(b, q, e):
        b = tuple((x, k) for x, k in b if k)
        if not b and e == -1:
            return Num(Poly.const(q), (), "f")
        if not b and q == 0:
            return Num(P.ZERO, (), "f")
        return Ang(b, q, e)

    def scale(self, r):
        return Ang.make([(x, k * r) for x, k in self.b], self.q * r, self.e)

    def _num(self, o):
        c = _as_const(o)
        if c is None and type(o) is Num and o.is_const():
            c = o.const()
        if c is None or type(c) is float:
            return None
        return Fraction(c)

    def __neg__(self):
        return self.scale(Fraction(-1))

    def __pos__(self):
        return self

    def __add__(self, o):
        if isinstance(o, Ang):
            if o.e != self.e:
                raise Unsupported("adding angles of different units")
            m = {}
            for x, k in self.b + o.b:
                m[id(x)] = (x, m.get(id(x), (x, Fraction(0)))[1] + k)
            return Ang.make(list(m.values()), self.q + o.q, self.e)
        r = self._num(o)
        if r is None:
            raise Unsupported("angle + symbolic number")
        if r == 0:
            return self
        if self.e == -1:
            return Ang.make(self.b, self.q + r, -1)
        raise Unsupported("radians + rational")

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Ang):
            if not o.b and o.e == 0:
                if self.e == -1:
                    return Ang.make([(x, k * o.q) for x, k in self.b], self.q * o.q, 0)
            if not self.b and self.e == 0 and o.e == -1:
                return o * self
            return AngProd([self, o])
        r = self._num(o)
        if r is None:
            raise Unsupported("angle * symbolic number")
        return self.scale(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Ang):
            if not o.b and o.e == 0 and self.e == 0:
                if not self.b:
                    return Num(Poly.const(self.q / o.q), (), "f")
                return Ang.make([(x, k / o.q) for x, k in self.b], self.q / o.q, -1)
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            return AngProd([self, o])  # only its sign is ever asked for
        r = self._num(o)
        if r is None:
            raise Unsupported("angle / symbolic number")
        if r == 0:
            raise ZeroDivisionError("float division by zero")
        return self.scale(1 / r)

    def __rtruediv__(self, o):
        if not self.b and self.e == 0:
            # number / pi : only meaningful when later multiplied by an angle
            r = self._num(o)
            if r is not None:
                return InvPi(r / self.q)
        raise Unsupported("number / angle")

    def __mod__(self, o):
        # same direction, reduced range
        if self.e == -1:
            r = self._num(o)
        elif isinstance(o, Ang) and not o.b and o.e == 0:
            r = o.q * 180
        else:
            r = None
        full = 360 if self.e == -1 else 360
        if r is None or r != full or not self.b:
            raise Unsupported("angle modulo")
        c, s = CUR.trig(self if self.e == 0 else self * PI / 180)
        base = AngBase(c, s, "turn")
        return Ang.make([(base, Fraction(1) if self.e == 0 else Fraction(180))], 0, self.e)

    def __float__(self):
        raise Unsupported("float() of a symbolic angle")

    def __abs__(self):
        s = bool(self >= 0)
        return self if s else -self

    def __bool__(self):
        return bool(self != 0)

    __hash__ = None

    def _cmp(self, o, op):
        if type(o) is float and special(o):
            return Num(P.ZERO)._cmp(o, op)
        if isinstance(o, Ang):
            d = self + (-o) if o.e == self.e else None
            if d is None:
                raise Unsupported("comparison of angle units")
        else:
            r = self._num(o)
            if r is None:
                raise Unsupported("comparison of an angle with a symbolic number")
            if r == 0:
                d = self
            elif self.e == -1:
                d = self + (-r)
            else:
                d = self + Ang((), -_pi_approx(r), 0)
        if not isinstance(d, Ang):
            return d._cmp(0, op)
        if not d.b:
            return {"lt": d.q < 0, "le": d.q <= 0, "gt": d.q > 0, "ge": d.q >= 0, "eq": d.q == 0, "ne": d.q != 0}[op]
        if len(d.b) == 2 and d.q == 0 and d.b[0][1] == -d.b[1][1]:
            (x, k), (y, _) = d.b
            if k < 0:
                x, y = y, x
            return mkbool(ang_order(x, y, op))
        if len(d.b) != 1:
            raise Unsupported("comparison of two symbolic angles")
        (base, k), = d.b
        r = -d.q / k  # A op r*pi
        if k < 0:
            op = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(op, op)
        return mkbool(ang_cmp(base, r, op))

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __round__(self, nd=None):
        raise Unsupported("rounding an angle")

    def __str__(self):
        return CUR.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return CUR.token(self)


class InvPi:
    """r/pi, as in 180/pi."""

    def __init__(self, r):
        self.r = r

    def __mul__(self, o):
        if isinstance(o, Ang) and o.e == 0:
            return Ang.make([(x, k * self.r) for x, k in o.b], o.q * self.r, -1)
        if (c := self._rational(o)) is not None:
            return InvPi(self.r * c)
        raise Unsupported("1/pi product")

    __rmul__ = __mul__

    @staticmethod
    def _rational(o):
        if isinstance(o, Num) and o.is_const():
            return Fraction(o.const())
        return Fraction(o) if isinstance(o, (int, Fraction)) else None

    def __truediv__(self, o):
        c = self._rational(o)
        if not c:
            raise Unsupported("1/pi quotient")
        return InvPi(self.r / c)

    def __neg__(self):
        return InvPi(-self.r)


class AngProd:
    """A product of angles; only its sign is known."""

    __hash__ = None

    def __init__(self, fs):
        self.fs = fs

    def __mul__(self, o):
        if isinstance(o, Ang):
            return AngProd(self.fs + [o])
        if isinstance(o, AngProd):
            return AngProd(self.fs + o.fs)
        r = self.fs[0]._num(o)
        if r is None:
            raise Unsupported("product of angles")
        return AngProd([self.fs[0].scale(r)] + self.fs[1:]) if r else Num(P.ZERO, (), "f")

    __rmul__ = __mul__

    def __neg__(self):
        return AngProd([-self.fs[0]] + self.fs[1:])

    def _cmp(self, o, op):
        if isinstance(o, (Ang, AngProd)) or not (type(o) in (int, float) or isinstance(o, Num)) or o != 0:
            raise Unsupported("comparison of a product of angles")
        pos, neg = T, F
        for a in self.fs:
            p, n = to_f(a > 0), to_f(a < 0)
            pos, neg = f_or(f_and(pos, p), f_and(neg, n)), f_or(f_and(pos, n), f_and(neg, p))
        f = {"gt": pos, "lt": neg, "ge": f_not(neg), "le": f_not(pos), "eq": f_not(f_or(pos, neg)), "ne": f_or(pos, neg)}
        return mkbool(f[op])

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")
    def __bool__(self): return bool(self != 0)


class AngExt:
    """The least or greatest of several angles, decided only when it has to be."""

    __hash__ = None

    def __init__(self, xs, least):
        self.xs = xs
        self.least = least

    def force(self):
        if len(self.xs) != 1:
            self.xs = [(min if self.least else max)(self.xs)]
        return self.xs[0]

    def _cmp(self, o, op):
        if isinstance(o, AngExt):
            o = o.force()
        fs = lambda op: [to_f({"lt": x < o, "le": x <= o, "gt": x > o, "ge": x >= o}[op]) for x in self.xs]
        if op in ("eq", "ne"):
            f = f_and(to_f(self._cmp(o, "le")), to_f(self._cmp(o, "ge")))
            return mkbool(f if op == "eq" else f_not(f))
        return mkbool((f_or if (op in ("lt", "le")) == self.least else f_and)(*fs(op)))

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")
    def __bool__(self): return bool(self != 0)
    def __neg__(self): return AngExt([-x for x in self.xs], not self.least)
    def __add__(self, o): return self.force() + o
    def __radd__(self, o): return o + self.force()
    def __sub__(self, o): return self.force() - o
    def __rsub__(self, o): return o - self.force()
    def __mul__(self, o): return self.force() * (o.force() if isinstance(o, AngExt) else o)
    def __rmul__(self, o): return o * self.force()
    def __truediv__(self, o): return self.force() / o
    def __abs__(self): return abs(self.force())


def _pi_approx(r):
    """Rational q with q*pi ~ r for a radian constant (used for comparisons only)."""
    q = Fraction(float(r) / _m.pi).limit_denominator(10**6)
    near = q.limit_denominator(48)
    if abs(float(near) * _m.pi - float(r)) < 1e-12:
        return near
    return q


def ang_order(x, y, op):
    """Formula for X op Y of two angles of the same range."""
    if op == "ne":
        return f_not(ang_order(x, y, "eq"))
    if op == "gt":
        return ang_order(y, x, "lt")
    if op == "ge":
        return f_not(ang_order(x, y, "lt"))
    if op == "le":
        return f_not(ang_order(y, x, "lt"))
    if x.rng != y.rng or x.rng not in ("acos", "atan2"):
        raise Unsupported("comparison of two symbolic angles")
    if x.rng == "acos":
        return cmp_f(x.c, y.c, "eq" if op == "eq" else "gt")
    Z = ZERO_N
    cross = num_add(num_mul(x.c, y.s), num_neg(num_mul(x.s, y.c)))
    low = [cmp_f(b.s, Z, "lt") for b in (x, y)]
    zero = [f_and(cmp_f(b.s, Z, "eq"), cmp_f(b.c, Z, "ge")) for b in (x, y)]
    up = [f_and(f_not(l), f_not(z)) for l, z in zip(low, zero)]
    if op == "eq":
        return f_or(f_and(*zero), f_and(cmp_f(cross, Z, "eq"), f_or(f_and(*low), f_and(*up))))
    pos = cmp_f(cross, Z, "gt")
    return f_or(f_and(low[0], f_or(f_not(low[1]), pos)), f_and(zero[0], up[1]), f_and(up[0], up[1], pos))


def ang_cmp(base, r, op):
    """Formula for A op r*pi."""
    if op == "ne":
        return f_not(ang_cmp(base, r, "eq"))
    if op == "lt":
        return f_not(ang_cmp(base, r, "ge"))
    if op == "le":
        return f_not(ang_cmp(base, r, "gt"))
    c, s = base.c, base.s
    Z = ZERO_N
    s0 = cmp_f(s, Z, "eq")
    if base.rng == "acos":  # [0, pi], s >= 0
        if r < 0:
            return F if op == "eq" else T
        if r > 1:
            return F
        cr, _ = pi_trig(r)
        return cmp_f(c, cr, {"gt": "lt", "ge": "le", "eq": "eq"}[op])
    if base.rng == "atan2":  # (-pi, pi]
        neg1 = f_and(s0, cmp_f(c, Z, "lt"))
        upper = f_or(cmp_f(s, Z, "gt"), neg1)
        if r <= -1:
            if op == "eq":
                return F
            return T
        if r > 1:
            return F
        if r == 1:
            return F if op == "gt" else neg1
        cr, sr = pi_trig(r)
        cross = num_add(num_mul(s, cr), num_neg(num_mul(c, sr)))
        eq = f_and(cmp_f(s, sr, "eq"), cmp_f(c, cr, "eq"))
        if op == "eq":
            return eq
        if r >= 0:
            gt = f_and(upper, f_or(cmp_f(cross, Z, "gt"), neg1))
            if r == 0:
                gt = upper
        else:
            # A <= r : lower half and cross <= 0
            low = cmp_f(s, Z, "lt")
            gt = f_not(f_and(low, cmp_f(cross, Z, "le")))
        return gt if op == "gt" else f_or(gt, eq)
    if base.rng == "turn":  # [0, 2pi)
        if r < 0:
            return F if op == "eq" else T
        if r >= 2:
            return F
        cr, sr = pi_trig(r)
        eq = f_and(cmp_f(s, sr, "eq"), cmp_f(c, cr, "eq"))
        if op == "eq":
            return eq
        zero = f_and(s0, cmp_f(c, Z, "gt"))
        cross = num_add(num_mul(s, cr), num_neg(num_mul(c, sr)))
        if r == 0:
            gt = f_not(zero)
        elif r < 1:
            gt = f_and(f_not(zero), f_or(f_and(cmp_f(s, Z, "ge"), cmp_f(cross, Z, "gt")), cmp_f(s, Z, "lt"),
                                         f_and(s0, cmp_f(c, Z, "lt"))))
        else:
            gt = f_and(cmp_f(s, Z, "lt"), cmp_f(cross, Z, "gt"))
        return gt if op == "gt" else f_or(gt, eq)
    raise Unsupported("comparison of an unbounded angle")


PI = Ang((), 1, 0)
TAU = Ang((), 2, 0)


# --------------------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.queries = 0
        self.feas_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.cvc5 = 0
        self.witness = 0
        self.confirmed = 0


CB = 192


def _icbrt(n):
    """Floor of the cube root of an integer."""
    if n < 0:
        r = _icbrt(-n)
        return -r if r ** 3 == -n else -r - 1
    if n == 0:
        return 0
    x = 1 << (-(-n.bit_length() // 3))
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


class Engine:
    def __init__(self, prefix, opts, stats, rng_seed=1):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.opts = opts
        self.stats = stats
        self.names = []
        self.int_vars = set()
        self.inputs = {}      # name -> (var id, lo, hi, kind)
        self.groups = []      # input sampling groups: function(rng, env)
        self.pc = []          # formulas (branch conditions and assumptions)
        self.defs = []        # defining constraints of auxiliary variables
        self.aux = []         # (var, evalf(env)) in creation order
        self.memo = {}
        self.sub = {}         # equality substitutions var -> Poly
        self.pos = set()      # polynomials known positive
        self.samples = []     # numeric environments satisfying pc (approximately)
        self.rng = random.Random(rng_seed)
        self.z = Z3Ctx(self)
        self.tokens = []
        self.token_of = {}
        self.defer = 0
        self.deferred_flag = False
        self.pending = {}
        self.aborted = None
        self.checks = []
        self.depth = 0
        self.started = False
        self.angvals = {}
        self.civ = {}
        P.RULES.clear()

    # -- variables
    def new_var(self, name, integer=False):
        v = len(self.names)
        self.names.append(name)
        if integer:
            self.int_vars.add(v)
        return v

    def seed_samples(self, n):
        """Create numeric samples lazily: at the first fork."""
        for _ in range(n):
            self.samples.append({})

    def input_real(self, name, lo=None, hi=None, kind="f", integer=False):
        if name in self.inputs:
            v, lo0, hi0, k = self.inputs[name]
            if (lo0, hi0, k) != (lo, hi, kind):
                raise Unsupported("input asked for twice, differently: " + name)
            return Num(Poly.var(v), (), kind)
        v = self.new_var(name, integer)
        self.inputs[name] = (v, lo, hi, kind)
        x = Num(Poly.var(v), (), kind)
        if lo is not None:
            self.add_pc(f_atom("le", Poly.const(Fraction(lo)) - x.n))
        if hi is not None:
            self.add_pc(f_atom("le", x.n - Poly.const(Fraction(hi))))

        r = self.rng

        def gen(env):
            l = lo if lo is not None else (-(10 ** r.choice([0, 1, 2])) if hi is None else hi - 100)
            h = hi if hi is not None else (-l if lo is None else lo + 100)
            if integer:
                env[v] = float(r.randint(int(l), int(h)))
            elif r.random() < 0.25:
                a, b = int(_m.ceil(l)), int(_m.floor(h))
                env[v] = float(r.randint(a, b)) if a <= b else r.uniform(float(l), float(h))
            else:
                env[v] = r.uniform(float(l), float(h))

        self.groups.append(gen)
        for env in self.samples:
            gen(env)
        self.filter_samples()
        return x

    def input_dir(self, name):
        """A free point (c, s) of the unit circle."""
        cv = self.new_var(name + ".c")
        sv = self.new_var(name + ".s")
        self.inputs[name + ".c"] = (cv, -1, 1, "f")
        self.inputs[name + ".s"] = (sv, -1, 1, "f")
        # s^2 = 1 - c^2
        P.RULES[sv] = (2, P.ONE - Poly.var(cv) * Poly.var(cv))
        self.defs.append(("eq", Poly({((cv, 2),): 1, ((sv, 2),): 1, (): -1})))
        r = self.rng

        def gen(env):
            t = r.uniform(-_m.pi, _m.pi)
            env[cv] = _m.cos(t)
            env[sv] = _m.sin(t)

        self.groups.append(gen)
        for env in self.samples:
            gen(env)
        self.filter_samples()
        return Num(Poly.var(cv)), Num(Poly.var(sv))

    def new_aux(self, name, evalf, integer=False):
        v = self.new_var(f"{name}_{len(self.names)}", integer)
        self.aux.append((v, evalf))
        for env in self.samples:
            try:
                env[v] = evalf(env)
            except (ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
                env[v] = _m.nan
        return v

    def filter_samples(self):
        self.samples = [e for e in self.samples if all(f_evalf(f, e) is not False for f in self.pc)]

    def add_pc(self, f):
        f = self.canon(f)
        if f[0] == "T":
            return
        if f[0] == "and":
            for g in f[1]:
                self.add_pc(g)
            return
        self.pc.append(f)
        if f[0] == "lt":
            self.pos.add(-f[1])
        if f[0] in ("lt", "ne"):
            self.learn_pos(f)
        if f[0] == "eq":
            self.learn_eq(f[1])
        if self.samples:
            self.samples = [e for e in self.samples if f_evalf(f, e) is not False]

    def learn_pos(self, f):
        """Signs that follow from a strict atom on a root variable or an even form."""
        p = f[1] if f[0] == "ne" else -f[1]
        if f[0] == "ne":
            if self.nonneg(p):
                self.mark_pos(p)
            elif self.nonneg(-p):
                p = -p
                self.mark_pos(p)
            else:
                return
        if len(p.t) == 1:
            (m, _c), = p.t.items()
            if len(m) == 1 and m[0][0] in self.memo_nonneg:
                ru = P.RULES.get(m[0][0])
                self.mark_pos(Poly.var(m[0][0]))
                if ru is not None:
                    self.mark_pos(ru[1])

    def learn_eq(self, p):
        """p == 0 and linear in a variable with constant coefficient: substitute it."""
        for m, c in sorted(p.t.items(), key=lambda mc: mono_rank(mc[0]), reverse=True):
            if len(m) != 1 or m[0][1] != 1:
                continue
            v = m[0][0]
            if p.degree_in(v) != 1 or v in P.RULES:
                continue
            if sum(1 for mm in p.t if any(w == v for w, _ in mm)) != 1:
                continue
            if any(v in rep.vars() for _, rep in P.RULES.values()):
                continue
            rep = (p - Poly({m: c})).scale(Fraction(-1) / Fraction(c))
            rep = rep.subs(self.sub)
            if v in rep.vars():
                continue
            self.sub = {w: q.subs({v: rep}) for w, q in self.sub.items()}
            self.sub[v] = rep
            return

    # -- rational enclosures of constants (roots of rational numbers and what is made of them)
    def enclose(self, p):
        """(lo, hi) in units of 2**-CB enclosing the constant p, or None."""
        civ = self.civ
        for v in p.vars():
            if v not in civ:
                return None
        one = 1 << CB
        lo = hi = 0
        for m, c in p.t.items():
            tl = th = one
            for v, e in m:
                l, h = civ[v]
                for _ in range(e):
                    ps = (tl * l, tl * h, th * l, th * h)
                    tl, th = min(ps) >> CB, -((-max(ps)) >> CB)
            c = Fraction(c)
            a, b = c.numerator, c.denominator
            if a >= 0:
                tl, th = (tl * a) // b, -((-th * a) // b)
            else:
                tl, th = (th * a) // b, -((-tl * a) // b)
            lo += tl
            hi += th
        return lo, hi

    def enclose_root(self, v, p, n):
        e = self.enclose(p)
        if e is None:
            return
        lo, hi = e
        if n == 2:
            if lo < 0:
                return
            self.civ[v] = (_m.isqrt(lo << CB), _m.isqrt(hi << CB) + 1)
        else:
            self.civ[v] = (_icbrt(lo << (2 * CB)), _icbrt(hi << (2 * CB)) + 1)

    def decide_const(self, f):
        if not self.civ:
            return f
        k = f[0]
        if k in ("lt", "le", "eq", "ne"):
            e = self.enclose(f[1])
            if e is None:
                return f
            lo, hi = e
            if lo > 0:
                return T if k == "ne" else F
            if hi < 0:
                return F if k == "eq" else T
            return f
        if k == "and":
            return f_and(*[self.decide_const(x) for x in f[1]])
        if k == "or":
            return f_or(*[self.decide_const(x) for x in f[1]])
        return f

    def canon(self, f):
        if self.sub:
            f = f_subs(f, self.sub)
        f = self.decide_const(f)
        if f[0] in ("lt", "le"):
            p = f[1]
            if f[0] == "lt" and self.nonneg(p):
                return F
            if f[0] == "le" and self.nonneg(-p):
                return T
            if f[0] == "lt" and self.known_positive(-p):
                return T
            if f[0] == "le" and self.known_positive(p):
                return F
        elif f[0] in ("eq", "ne"):
            if self.known_positive(f[1]) or self.known_positive(-f[1]):
                return F if f[0] == "eq" else T
        return f

    def nonneg(self, p):
        """Sum of even monomials (in variables or known non-negative roots) with coefficients >= 0."""
        if not p.t:
            return True
        for m, c in p.t.items():
            if c < 0:
                return False
            for v, e in m:
                if e % 2 and v not in self.memo_nonneg:
                    return False
        return True

    @property
    def memo_nonneg(self):
        return self.memo.setdefault("_nonneg", set())

    def known_positive(self, p):
        if p in self.pos:
            return True
        if p.t.get((), 0) > 0 and self.nonneg(p):
            return True
        if len(p.t) > 1 and p.t:
            c, q = p.primitive()
            if c > 0 and q in self.pos:
                return True
        return False

    # -- samples
    def ensure_samples(self):
        if self.started:
            return
        self.started = True
        n = self.opts.get("samples", 24)
        for _ in range(n * 4):
            env = {}
            for g in self.groups:
                g(env)
            for v, fn in self.aux:
                try:
                    env[v] = fn(env)
                except (ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
                    env[v] = _m.nan
            if all(f_evalf(f, env) is not False for f in self.pc):
                self.samples.append(env)
            if len(self.samples) >= n:
                break

    # -- forking
    def fork(self, f):
        f = self.canon(f)
        if f[0] == "T":
            return True
        if f[0] == "F":
            return False
        if self.aborted:
            raise PathAbort()
        if self.defer:
            self.deferred_flag = True
            raise Defer()
        key = ("fork", f)
        got = self.memo.get(key)
        if got is not None:
            return got
        nf = f_not(f)
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i >= self.opts.get("max_forks", 400):
                self.aborted = "bound"
                raise Unsupported("fork bound reached on a path")
            self.stats.forks += 1
            self.ensure_samples()
            can_t = can_f = None
            for env in self.samples:
                v = f_evalf(f, env)
                if v is True:
                    can_t = True
                elif v is False:
                    can_f = True
                if can_t and can_f:
                    break
            if not can_t:
                can_t = self.feasible(f)
            if not can_f:
                can_f = self.feasible(nf) if can_t else True
            if can_t and can_f:
                self.alts.append(self.taken + [False])
                d = True
            elif can_t:
                d = True
            elif can_f:
                d = False
            else:
                self.aborted = "infeasible"
                raise PathAbort()
        self.taken.append(d)
        g = f if d else nf
        self.add_pc(g)
        self.memo[key] = d
        self.memo[("fork", nf)] = not d
        return d

    def decided(self, f):
        """True or False if the path condition settles f, else None."""
        key = ("decided", self.canon(f), len(self.taken))
        if key not in self.memo:
            self.ensure_samples()
            seen = {f_evalf(f, env) for env in self.samples}
            r = None
            if True not in seen and not self.feasible(f):
                r = False
            elif False not in seen and not self.feasible(f_not(f)):
                r = True
            self.memo[key] = r
        return self.memo[key]

    def choose(self, n):
        """Concrete choice among n alternatives (all explored)."""
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [k])
        self.taken.append(d)
        return d

    def feasible(self, f):
        r, model = self.solve([f], self.opts.get("feas_ms", 1500), feas=True)
        if r == "sat" and model is not None:
            env = self.env_from_model(model)
            if env is not None and all(f_evalf(g, env) is not False for g in self.pc) and f_evalf(f, env) is not False:
                self.samples.append(env)
        return r != "unsat"

    def env_from_model(self, model):
        env = {}
        for name, (v, *_r) in self.inputs.items():
            env[v] = self.model_float(model, v)
        drawn = {}
        for name, (v, *_r) in self.inputs.items():
            if name.endswith(".s") and name[:-2] + ".c" in self.inputs:  # a direction the model leaves open
                c = self.inputs[name[:-2] + ".c"][0]
                if abs(env[c] ** 2 + env[v] ** 2 - 1) > 1e-6:
                    if not drawn:
                        for g in self.groups:
                            g(drawn)
                    env[c], env[v] = drawn[c], drawn[v]
        for v, fn in self.aux:
            try:
                env[v] = fn(env)
            except (ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
                env[v] = _m.nan
        return env

    def model_value(self, model, v):
        if v in self.sub:
            s = Fraction(0)
            for mono, c in self.sub[v].t.items():
                t = Fraction(c)
                for w, e in mono:
                    t *= self.model_value(model, w) ** e
                s += t
            return s
        x = z3.Int(self.names[v]) if v in self.int_vars else z3.Real(self.names[v])
        r = model.eval(x, model_completion=True)
        if z3.is_int_value(r):
            return Fraction(r.as_long())
        if z3.is_rational_value(r):
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        if z3.is_algebraic_value(r):
            a = r.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return Fraction(0)

    def model_float(self, model, v):
        return float(self.model_value(model, v))

    # -- solving
    def slice(self, goals):
        """Constraints connected to the goals through shared variables."""
        cons = self.defs + self.pc
        vs = set()
        for g in goals:
            vs |= f_vars(g)
        rest = [(f, f_vars(f)) for f in cons]
        used = []
        changed = True
        while changed:
            changed = False
            nrest = []
            for f, v in rest:
                if v & vs:
                    vs |= v
                    used.append(f)
                    changed = True
                else:
                    nrest.append((f, v))
            rest = nrest
        return used, [f for f, _ in rest]

    def solve(self, goals, ms, feas=False, full=False):
        """Satisfiability of pc + defs + goals -> ('sat'|'unsat'|'unknown', model)."""
        goals = [self.canon(g) for g in goals]
        if any(g[0] == "F" for g in goals):
            goals = [F]
        used, rest = self.slice(goals)
        if full:
            used = self.defs + self.pc
        t0 = time.time()
        r, m = self._solve(used + goals, ms)
        self.stats.solver_s += time.time() - t0
        if feas:
            self.stats.feas_queries += 1
        else:
            self.stats.queries += 1
        return r, m

    def _solve(self, fs, ms):
        fs = [f_subs(f, self.sub) for f in fs] if self.sub else fs
        if any(f[0] == "F" for f in fs):
            s = z3.Solver()
            s.add(z3.BoolVal(False))
            return ("unsat" if s.check() == z3.unsat else "unknown"), None
        exprs = [self.z.formula(f) for f in fs if f[0] != "T"]
        has_int = any(v in self.int_vars for f in fs for v in f_vars(f))
        nonlin = any(_nonlin(f) for f in fs)
        if not nonlin:
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.add(*exprs)
            return _res(s)
        if has_int:
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.add(*exprs)
            return _res(s)
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", int(ms * 0.5))
        s.add(*exprs)
        try:
            r, m = _res(s)
        except z3.Z3Exception:
            r, m = "unknown", None
        if r != "unknown":
            return r, m
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(ms * 0.5))
        s.add(*exprs)
        try:
            return _res(s)
        except z3.Z3Exception:
            return "unknown", None

    # -- derived values
    def sign(self, x):
        if x > 0:
            return 1
        if x < 0:
            return -1
        return 0

    def quick_sign(self, x):
        p = x.n
        for f, m in x.d:
            if m % 2 and not self.known_positive(f):
                return None
        if self.nonneg(p) or self.known_positive(p):
            return 1
        if self.nonneg(-p) or self.known_positive(-p):
            return -1
        return None

    def sqrt(self, x):
        """Square root; raises ValueError on the paths where x < 0."""
        if special(x):
            if x == -_m.inf:
                raise ValueError("math domain error")
            return x
        if type(x) is int or type(x) is bool or type(x) is float or type(x) is Fraction:
            x = Num(Poly.const(Fraction(x)), (), "f")
        if type(x) is AbsNum:
            x = x.force()
        if not isinstance(x, Num):
            raise TypeError("must be real number")
        if self.sub:
            x = Num(x.n.subs(self.sub), x.d, x.k)
        if self.fork(cmp_f(x, ZERO_N, "lt")):
            raise ValueError("math domain error")
        return self._sqrt_nonneg(x)

    def _sqrt_nonneg(self, x):
        if x.is_const():
            c = Fraction(x.const())
            r = P.frac_sqrt(c)
            if r is not None:
                return _rat(r)
        # x = n / prod f^m ; multiply so that the denominator is a square
        n = x.n
        out = {}
        for f, m in x.d:
            if m % 2:
                n = n * f
                m += 1
            out[f] = m // 2
        # perfect square?
        r = n.sqrt()
        if r is not None:
            num = num_abs(Num(r))
        else:
            c, p = n.primitive()
            c = Fraction(c)
            if c < 0:
                c, p = -c, -p
            rc = P.frac_sqrt(c)
            if rc is None:
                # c = a/b ; sqrt(c p) = sqrt(a*b*p)/b
                k = c.numerator * c.denominator
                sq = 1
                d = 2
                kk = k
                while d * d <= kk and d < 2000:
                    while kk % (d * d) == 0:
                        kk //= d * d
                        sq *= d
                    d += 1
                rc = Fraction(sq, c.denominator)
                p = p.scale(kk)
            key = ("sqrt", p)
            v = self.memo.get(key)
            if v is None:
                v = self.new_aux("sq", lambda env, p=p: _m.sqrt(max(0.0, p.evalf(env))))
                P.RULES[v] = (2, p)
                self.memo[key] = v
                self.memo_nonneg.add(v)
                self.enclose_root(v, p, 2)
                pv = Poly.var(v)
                self.defs.append(("le", -pv))
                self.defs.append(("eq", Poly({((v, 2),): 1}) - p))
                if self.known_positive(p):
                    self.pos.add(pv)
            num = Num(Poly.var(v).scale(rc))
        if not out:
            return num
        # |denominator|
        den = Num(P.ONE)
        for f, m in out.items():
            g = Num(f.pow(m))
            if not (m % 2 == 0 or self.known_positive(f)):
                g = num_abs(g)
                if type(g) is AbsNum:
                    g = g.force()
            den = num_mul(den, g)
        if type(num) is AbsNum:
            num = num.force()
        return num_mul(num, num_inv_nocheck(den))

    def hypot(self, *xs):
        xs = [self._n(x) for x in xs]
        tot = ZERO_N
        nz = []
        for x in xs:
            if special(x):
                raise Unsupported("hypot of inf/nan")
            if type(x) is AbsNum:
                x = x.x
            if x.is_const() and x.const() == 0:
                continue
            nz.append(x)
        if not nz:
            return _rat(0)
        if len(nz) == 1:
            r = num_abs(nz[0])
            return r
        for x in nz:
            y = Num(x.n, x.d, "f")
            tot = num_add(tot, num_mul(y, y))
        return self._sqrt_nonneg(tot)

    def _n(self, x):
        if isinstance(x, Num):
            return x
        if special(x):
            return x
        c = _as_const(x)
        if c is None:
            if type(x).__name__ == "Decimal":
                return Num(Poly.const(Fraction(x)), (), "d")
            raise TypeError("must be real number, not " + type(x).__name__)
        return Num(Poly.const(c), (), "f")

    def cbrt(self, x):
        if x.is_const():
            c = Fraction(x.const())
            for s in (1,):
                a = round(abs(c.numerator) ** (1 / 3))
                b = round(c.denominator ** (1 / 3))
                if a ** 3 == abs(c.numerator) and b ** 3 == c.denominator:
                    return _rat(Fraction(a if c >= 0 else -a, b))
        n, d = x.n, x.d
        out = {}
        for f, m in d:
            while m % 3:
                n = n * f
                m += 1
            out[f] = m // 3
        c, p = n.primitive()
        # sqrt variables cubed: (k*h)^3 patterns, e.g. h^2*h with h^2 rewritten
        key = ("cbrt", n)
        v = self.memo.get(key)
        if v is None:
            v = self.new_aux("cb", lambda env, n=n: _m.copysign(abs(n.evalf(env)) ** (1 / 3), n.evalf(env)))
            P.RULES[v] = (3, n)
            self.memo[key] = v
            self.enclose_root(v, n, 3)
            self.defs.append(("eq", Poly({((v, 3),): 1}) - n))
            pv = Poly.var(v)
            self.defs.append(f_or(f_and(f_atom("le", -pv), f_atom("le", -n)), f_and(f_atom("lt", pv), f_atom("lt", n))))
            if self.nonneg(n) or self.known_positive(n):
                self.memo_nonneg.add(v)
        r = Num(Poly.var(v))
        if out:
            den = P.ONE
            for f, m in out.items():
                den = den * f.pow(m)
            r = num_mul(r, num_inv_nocheck(Num(den)))
        return r

    def floor(self, x):
        if special(x):
            raise OverflowError("cannot convert float infinity to integer")
        x = self._n(x)
        if x.is_const():
            return Num(Poly.const(_m.floor(Fraction(x.const()))), (), "i")
        if x.k == "i" and not x.d:
            return x
        key = ("floor", x.n, x.d)
        v = self.memo.get(key)
        if v is None:
            v = self.new_aux("fl", lambda env, x=x: float(_m.floor(num_evalf(x, env) + 1e-12)), True)
            self.memo[key] = v
            y = Num(Poly.var(v), (), "i")
            self.defs.append(cmp_f(y, x, "le"))
            self.defs.append(cmp_f(x, y + 1, "lt"))
        return Num(Poly.var(v), (), "i")

    def trunc(self, x):
        if x >= 0:
            return self.floor(x)
        return num_neg(self.floor(num_neg(x)))

    def round(self, x, nd=None):
        if x.is_const():
            c = Fraction(x.const())
            if nd is None:
                return round(c)
            return Num(Poly.const(round(c, nd)), (), x.k)
        if nd is None:
            key = ("round", x.n, x.d)
            v = self.memo.get(key)
            if v is None:
                v = self.new_aux("rd", lambda env, x=x: float(round(num_evalf(x, env))), True)
                self.memo[key] = v
                y = Num(Poly.var(v), (), "i")
                h = _rat(Fraction(1, 2))
                xf = Num(x.n, x.d, "f")
                self.defs.append(cmp_f(xf - h, y, "le"))
                self.defs.append(cmp_f(y, xf + h, "le"))
            return Num(Poly.var(v), (), "i")
        nd = int(nd)
        if nd >= 12 and x.k != "d":
            return x  # rounding noise below the exact-arithmetic reading
        if x.k == "i" and nd >= 0:
            return x
        key = ("roundn", x.n, x.d, nd)
        v = self.memo.get(key)
        sc = Fraction(10) ** nd
        if v is None:
            v = self.new_aux("rd", lambda env, x=x: float(round(num_evalf(x, env) * float(sc))), True)
            self.memo[key] = v
            y = Num(Poly.var(v), (), "f")
            h = _rat(Fraction(1, 2))
            xs = Num(x.n, x.d, "f") * _rat(sc)
            self.defs.append(cmp_f(xs - h, y, "le"))
            self.defs.append(cmp_f(y, xs + h, "le"))
        return Num(Poly.var(v).scale(1 / sc), (), x.k)

    def concretize(self, x):
        """Enumerate the feasible integer values of x (forks)."""
        if type(x) is int:
            return x
        if x.is_const():
            return int(x.const())
        if self.aborted:
            raise PathAbort()
        for _ in range(self.opts.get("max_enum", 200)):
            i = len(self.taken)
            if i < len(self.prefix):
                _tag, val, eq = self.prefix[i]
            else:
                val = self.pick_value(x)
                eq = True
                f = self.canon(cmp_f(x, Num(Poly.const(val), (), "i"), "ne"))
                if f[0] != "F" and (f[0] == "T" or self.feasible(f)):
                    self.stats.forks += 1
                    self.alts.append(self.taken + [("v", val, False)])
            self.taken.append(("v", val, eq))
            self.add_pc(cmp_f(x, Num(Poly.const(val), (), "i"), "eq" if eq else "ne"))
            if eq:
                return val
        raise Unsupported("too many values for a symbolic integer")

    def pick_value(self, x):
        """A feasible value of the integer term x."""
        self.ensure_samples()
        r, m = self.solve([T], 5000, feas=True, full=True)
        if r == "unsat":
            self.aborted = "infeasible"
            raise PathAbort()
        if r != "sat":
            raise Unsupported("cannot enumerate a symbolic integer")
        env = {v: self.model_value(m, v) for v in range(len(self.names))}

        def ev(p):
            s = Fraction(0)
            for mono, c in p.t.items():
                t = Fraction(c)
                for v, e in mono:
                    t *= env[v] ** e
                s += t
            return s

        s = ev(x.n)
        for f, mm in x.d:
            s /= ev(f) ** mm
        if s.denominator != 1:
            raise Unsupported("cannot enumerate a symbolic integer")
        return int(s)

    def minmax(self, a, b, is_min):
        """min/max of two values; merged into a fresh variable when undecided."""
        lt = (b < a) if is_min else (b > a)
        if lt is True or lt is False:
            return b if lt else a
        if not self.opts.get("merge_minmax", True) or self.defer:
            return b if lt else a
        na, nb = self._n(a), self._n(b)
        f = lt.f
        if type(na) is not AbsNum and type(nb) is not AbsNum and (na.is_const() or nb.is_const()):
            # clamping a value known to be in range
            d = self.decided(f)
            if d is not None:
                return b if d else a
        key0 = ("fork", f)
        if key0 in self.memo:
            return b if self.memo[key0] else a
        if type(na) is AbsNum:
            na = na.force()
        if type(nb) is AbsNum:
            nb = nb.force()
        key = ("mm", is_min, na.n, na.d, nb.n, nb.d)
        v = self.memo.get(key)
        if v is None:
            fn = min if is_min else max
            v = self.new_aux("mm", lambda env: fn(num_evalf(na, env), num_evalf(nb, env)))
            self.memo[key] = v
            self.memo[("mm", is_min, nb.n, nb.d, na.n, na.d)] = v
            y = Num(Poly.var(v), (), "f")
            op = "le" if is_min else "ge"
            self.defs.append(cmp_f(y, na, op))
            self.defs.append(cmp_f(y, nb, op))
            self.defs.append(f_or(cmp_f(y, na, "eq"), cmp_f(y, nb, "eq")))
        return Num(Poly.var(v), (), "i" if na.k == nb.k == "i" else "f")

    # -- trigonometry
    def atan2(self, y, x):
        y, x = self._n(y), self._n(x)
        if special(y) or special(x):
            raise Unsupported("atan2 of inf/nan")
        if type(y) is AbsNum:
            y = y.force()
        if type(x) is AbsNum:
            x = x.force()
        if y.is_const() and y.const() == 0:
            if x.is_const():
                return Ang.make((), 0 if x.const() >= 0 else 1, 0)
        y = Num(y.n, y.d, "f")
        x = Num(x.n, x.d, "f")
        key = ("atan2", y.n, y.d, x.n, x.d)
        got = self.memo.get(key)
        if got is not None:
            return got
        hh = num_add(num_mul(x, x), num_mul(y, y))
        if self.fork(cmp_f(hh, ZERO_N, "eq")):
            # Python: atan2(0, 0) == 0
            return _rat(0)
        self.pos.add(hh.n) if not hh.d else None
        if not hh.d:
            self.mark_pos(hh.n)
        h = self._sqrt_nonneg(hh)
        if type(h) is AbsNum:
            h = h.force()
        if not h.d:
            self.mark_pos(h.n)
        hi = num_inv_nocheck(h)
        c = num_mul(x, hi)
        s = num_mul(y, hi)
        a = Ang(((AngBase(c, s, "atan2"), Fraction(1)),), 0, 0)
        self.memo[key] = a
        return a

    def mark_pos(self, p):
        self.pos.add(p)
        if not p.is_const():
            c, q = p.primitive()
            if c > 0:
                self.pos.add(q)
            else:
                self.pos.add(-q)
            for v, e in split_factors(q).items():
                pass

    def acos(self, x):
        x = self._n(x)
        if type(x) is AbsNum:
            x = x.force()
        if special(x):
            if x != x:
                return x
            raise ValueError("math domain error")
        if x.is_const():
            c = Fraction(x.const())
            if abs(c) > 1:
                raise ValueError("math domain error")
            t = {Fraction(1): 0, Fraction(-1): 1, Fraction(0): Fraction(1, 2), Fraction(1, 2): Fraction(1, 3),
                 Fraction(-1, 2): Fraction(2, 3)}.get(c)
            if t is not None:
                return Ang.make((), t, 0)
        else:
            if self.fork(f_or(cmp_f(x, _rat(1), "gt"), cmp_f(x, _rat(-1), "lt"))):
                raise ValueError("math domain error")
        s = self._sqrt_nonneg(num_add(_rat(1), num_neg(num_mul(x, x))))
        if type(s) is AbsNum:
            s = s.force()
        return Ang(((AngBase(Num(x.n, x.d, "f"), s, "acos"), Fraction(1)),), 0, 0)

    def third(self, base):
        if base.third is None:
            if base.rng != "acos":
                raise Unsupported("third of an angle")
            c = base.c
            v = self.new_aux("c3", lambda env, c=c: _m.cos(_m.acos(max(-1.0, min(1.0, num_evalf(c, env)))) / 3))
            k = Num(Poly.var(v))
            pv = Poly.var(v)
            # 4k^3 - 3k = c, k in [1/2, 1]
            rel = num_add(num_add(num_mul(num_mul(num_mul(k, k), k), _rat(4)), num_mul(k, _rat(-3))), num_neg(c))
            self.defs.append(f_atom("eq", rel.n))
            self.defs.append(f_atom("le", P.ONE.scale(Fraction(1, 2)) - pv))
            self.defs.append(f_atom("le", pv - P.ONE))
            if not c.d:
                P.RULES[v] = (3, (pv.scale(3) + c.n).scale(Fraction(1, 4)))
            self.memo_nonneg.add(v)
            s = self._sqrt_nonneg(num_add(_rat(1), num_neg(num_mul(k, k))))
            base.third = AngBase(k, s, "acos")
        return base.third

    def trig(self, x):
        """(cos x, sin x) for x in radians."""
        if not isinstance(x, Ang):
            x = self._n(x)
            if x.is_const():
                if x.const() == 0:
                    return _rat(1), _rat(0)
                raise Unsupported("trigonometric function of a radian constant")
            raise Unsupported("trigonometric function of a symbolic number")
        if x.e != 0:
            raise Unsupported("trigonometric function of a value in degrees")
        c, s = pi_trig(x.q)
        for base, k in x.b:
            if k.denominator == 1:
                bc, bs = base.c, base.s
                n = int(k)
            elif k.denominator == 3:
                b3 = self.third(base)
                bc, bs = b3.c, b3.s
                n = int(k * 3)
            else:
                raise Unsupported("fractional angle")
            if n < 0:
                bs = num_neg(bs)
                n = -n
            for _ in range(n):
                c, s = (num_add(num_mul(c, bc), num_neg(num_mul(s, bs))),
                        num_add(num_mul(c, bs), num_mul(s, bc)))
        return c, s

    def const_trig(self, q):
        """cos/sin of a rational multiple of pi without a short closed form: a fresh bounded pair."""
        key = ("ct", q)
        got = self.memo.get(key)
        if got is None:
            f = float(q) * _m.pi
            cv = self.new_aux("kc", lambda env: _m.cos(f))
            sv = self.new_aux("ks", lambda env: _m.sin(f))
            P.RULES[sv] = (2, P.ONE - Poly.var(cv) * Poly.var(cv))
            self.defs.append(("eq", Poly({((cv, 2),): 1, ((sv, 2),): 1, (): -1})))
            eps = Fraction(1, 10**12)
            for v, val in ((cv, _m.cos(f)), (sv, _m.sin(f))):
                self.defs.append(f_atom("le", Poly.const(Fraction(val) - eps) - Poly.var(v)))
                self.defs.append(f_atom("le", Poly.var(v) - Poly.const(Fraction(val) + eps)))
            got = (Num(Poly.var(cv)), Num(Poly.var(sv)))
            self.memo[key] = got
        return got

    # -- strings
    def format(self, x, spec):
        import re
        if x.is_const():
            c = x.const()
            if spec and x.k != "i":
                return format(float(c), spec)
            if spec:
                return format(int(c), spec)
        m = re.fullmatch(r"[+\- ]?0?\d*(?:\.(\d+))?([fFgGsd]?)", spec)
        if not m:
            raise Unsupported(f"format specification {spec!r}")
        digits, kind = m.groups()
        if kind in "fF" and kind:
            return self.token(self.round(x, int(digits) if digits is not None else 6))
        if kind in "gG" and (kind or digits is not None):
            n = max(int(digits) if digits is not None else 6, 1)
            if n >= 15:
                return self.token(x)
            key = ("fmtg", x.n, x.d, n)
            v = self.memo.get(key)
            if v is None:
                v = self.new_aux("rd", lambda env, x=x: float(f"{num_evalf(x, env):.{n}g}"), False)
                self.memo[key] = v
                e = Num(Poly.var(v)) - x
                self.defs.append(cmp_f(e * e, x * x * _rat(Fraction(25, 100) / 10 ** (2 * n - 2)), "le"))
            return self.token(Num(Poly.var(v)))
        return self.token(x)

    def token(self, x):
        key = (x.n, x.d, x.k) if type(x) is Num else id(x)
        i = self.token_of.get(key)
        if i is None:
            self.tokens.append(x)
            i = self.token_of[key] = len(self.tokens) - 1
        return f"\u27e8{i}\u27e9"


def num_evalf(x, env):
    r = x.n.evalf(env)
    for f, m in x.d:
        r /= f.evalf(env) ** m
    return r


def mono_rank(m):
    return max((v for v, _ in m), default=-1)


def _nonlin(f):
    k = f[0]
    if k in ("lt", "le", "eq", "ne"):
        return any(sum(e for _, e in m) > 1 for m in f[1].t)
    if k in ("and", "or"):
        return any(_nonlin(x) for x in f[1])
    return False


def _res(s):
    r = s.check()
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    return "unknown", None
