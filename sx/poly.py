"""Sparse multivariate polynomials over Q with per-variable rewrite rules.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of
(variable id, exponent) pairs.  `RULES[v] = (n, p)` means v**n == p, used for the
variables that stand for square and cube roots.  Normalisation is exact.
"""
from fractions import Fraction
from math import gcd

RULES = {}


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b or None when b does not divide a."""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_h", "_z", "_v")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._v = None

    @staticmethod
    def const(c):
        c = norm_c(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def vars(self):
        if self._v is None:
            self._v = frozenset(v for m in self.t for v, _ in m)
        return self._v

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + c
            if x:
                r[m] = norm_c(x)
            else:
                r.pop(m, None)
        return Poly(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        k = norm_c(k)
        if not k:
            return ZERO
        if k == 1:
            return self
        return Poly({m: norm_c(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            return self.scale(o.const_value())
        if self.is_const():
            return o.scale(self.const_value())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                x = r.get(m, 0) + c1 * c2
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
        for m in r:
            r[m] = norm_c(r[m])
        p = Poly(r)
        if RULES:
            p = p.reduce()
        return p

    def reduce(self):
        """Apply the rewrite rules until none applies."""
        p = self
        while True:
            hit = None
            for m in p.t:
                for v, e in m:
                    ru = RULES.get(v)
                    if ru is not None and e >= ru[0]:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            n, rep = RULES[hit]
            keep = {}
            acc = ZERO
            groups = {}
            for m, c in p.t.items():
                e = 0
                for v, ee in m:
                    if v == hit:
                        e = ee
                if e >= n:
                    k, r = divmod(e, n)
                    m2 = tuple((v, (r if v == hit else ee)) for v, ee in m if v != hit or r)
                    g = groups.setdefault(k, {})
                    g[m2] = norm_c(g.get(m2, 0) + c)
                    if not g[m2]:
                        del g[m2]
                else:
                    keep[m] = c
            acc = Poly(keep)
            for k, g in groups.items():
                acc = acc + Poly(g) * rep.pow(k)
            p = acc

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def lead(self):
        """Leading (monomial, coefficient) under lex order with smaller ids first."""
        best = max(self.t, key=mono_key)
        return best, self.t[best]

    def content(self):
        """Positive rational c with self == c * (primitive integer polynomial)."""
        g = 0
        l = 1
        for c in self.t.values():
            if type(c) is int:
                g = gcd(g, c)
            else:
                g = gcd(g, c.numerator)
                l = l * c.denominator // gcd(l, c.denominator)
        return Fraction(g, l) if g else Fraction(1)

    def primitive(self):
        """(c, p) with self == c*p, p primitive with positive leading coefficient."""
        c = self.content()
        _, lc = self.lead()
        if lc < 0:
            c = -c
        if c == 1:
            return 1, self
        return norm_c(c), self.scale(1 / Fraction(c))

    def divexact(self, d):
        """Quotient when d divides self exactly (as free polynomials), else None."""
        if d.is_const():
            return self.scale(1 / Fraction(d.const_value()))
        if not self.t:
            return self
        if not d.vars() <= self.vars():
            return None
        if len(self.t) < 2 <= len(d.t):
            return None
        lm, lc = d.lead()
        r = dict(self.t)
        q = {}
        steps = 0
        while r:
            m = max(r, key=mono_key)
            mq = mono_div(m, lm)
            if mq is None:
                return None
            steps += 1
            if steps > 4000:
                return None
            c = norm_c(Fraction(r[m]) / lc)
            q[mq] = c
            for dm, dc in d.t.items():
                k = mono_mul(mq, dm)
                x = r.get(k, 0) - c * dc
                if x:
                    r[k] = norm_c(x)
                else:
                    r.pop(k, None)
        return Poly(q)

    def subs(self, mp):
        """Substitute variables by polynomials."""
        if not mp or not any(v in mp for v in self.vars()):
            return self
        acc = ZERO
        plain = {}
        for m, c in self.t.items():
            if not any(v in mp for v, _ in m):
                plain[m] = c
                continue
            keep = tuple((v, e) for v, e in m if v not in mp)
            p = Poly({keep: c})
            for v, e in m:
                if v in mp:
                    p = p * mp[v].pow(e)
            acc = acc + p
        return acc + Poly(plain)

    def evalf(self, env):
        s = 0.0
        for m, c in self.t.items():
            x = float(c)
            for v, e in m:
                x *= env[v] ** e
            s += x
        return s

    def evalabs(self, env):
        s = 0.0
        for m, c in self.t.items():
            x = abs(float(c))
            for v, e in m:
                x *= abs(env[v]) ** e
            s += x
        return s

    def degree_in(self, v):
        return max((e for m in self.t for w, e in m if w == v), default=0)

    def sqrt(self):
        """Polynomial square root p with p*p == self, or None."""
        if not self.t:
            return ZERO
        if any(v in RULES for v in self.vars()):
            return None
        c, p = self.primitive()
        c = Fraction(c)
        if c < 0:
            return None
        rc = frac_sqrt(c)
        if rc is None:
            return None
        lm, lc = p.lead()
        if any(e % 2 for _, e in lm):
            return None
        rl = frac_sqrt(Fraction(lc))
        if rl is None:
            return None
        lead_m = tuple((v, e // 2) for v, e in lm)
        root = Poly({lead_m: norm_c(rl)})
        rem = p - root * root
        steps = 0
        last = mono_key(lead_m)
        while rem.t:
            m, cc = rem.lead()
            q = mono_div(m, lead_m)
            steps += 1
            if q is None or steps > 60 or not mono_key(q) < last:
                return None
            last = mono_key(q)
            term = Poly({q: norm_c(Fraction(cc) / (2 * rl))})
            rem = rem - (root.scale(2) + term) * term
            root = root + term
        return root.scale(rc)

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(f"{c}" + "".join(f"*v{v}^{e}" for v, e in m) for m, c in self.t.items())


class _Key:
    __slots__ = ("m",)


def mono_key(m):
    """Sort key realising lex order: x_small > x_large, by exponent vectors."""
    # (v, e): a smaller v dominates; compare as sequence of (-v, e)
    return tuple((-v, e) for v, e in m)


def frac_sqrt(c):
    """Exact rational square root of a non-negative Fraction or None."""
    from math import isqrt
    c = Fraction(c)
    if c < 0:
        return None
    a = isqrt(c.numerator)
    b = isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


ZERO = Poly({})
ONE = Poly({(): 1})
