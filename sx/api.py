"""Registry of harnesses and the condition language they use (importable without a solver).

A harness is a function `f(S, case)`.  It obtains its inputs from `S`, calls the code under test
through modules obtained from `S.mod`, and states assertions with `S.check`.  The same function is
executed symbolically (sx.symbolic.SymS) and concretely on the real code (sx.concrete.ConcS).
"""
REG = {}


class H:
    def __init__(self, prop, fn, cases, thorough, opts):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.cases = cases
        self.thorough = thorough
        self.opts = opts


def harness(prop, cases=(None,), thorough=(), **opts):
    """Register a harness.  Each case is explored as a separate task."""

    def deco(fn):
        lst = REG.setdefault(prop, [])
        if any(h.name == fn.__name__ for h in lst):
            raise ValueError("duplicate harness " + fn.__name__)
        lst.append(H(prop, fn, list(cases), list(thorough), opts))
        return fn

    return deco


class Cond:
    """A condition: kind in eq ne le lt and or not leaf."""

    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __bool__(self):
        raise TypeError("a Cond must be given to S.check or S.assume")


def as_cond(x):
    return x if isinstance(x, Cond) else Cond("leaf", x)


class Conds:
    """Constructors shared by both modes."""

    @staticmethod
    def eq(a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return Cond("leaf", False)
            return Cond("and", *[Conds.eq(x, y) for x, y in zip(a, b)])
        return Cond("eq", a, b)

    @staticmethod
    def ne(a, b):
        return Cond("not", Conds.eq(a, b))

    @staticmethod
    def le(a, b):
        return Cond("le", a, b)

    @staticmethod
    def lt(a, b):
        return Cond("lt", a, b)

    @staticmethod
    def ge(a, b):
        return Cond("le", b, a)

    @staticmethod
    def gt(a, b):
        return Cond("lt", b, a)

    @staticmethod
    def between(lo, x, hi):
        return Cond("and", Cond("le", lo, x), Cond("le", x, hi))

    @staticmethod
    def And(*cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)) or len(cs) == 1 and hasattr(cs[0], "__next__"):
            cs = tuple(cs[0])
        return Cond("and", *[as_cond(c) for c in cs])

    @staticmethod
    def Or(*cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)) or len(cs) == 1 and hasattr(cs[0], "__next__"):
            cs = tuple(cs[0])
        return Cond("or", *[as_cond(c) for c in cs])

    @staticmethod
    def Not(c):
        return Cond("not", as_cond(c))

    @staticmethod
    def Implies(a, b):
        return Conds.Or(Conds.Not(a), b)

    @staticmethod
    def iff(a, b):
        return Conds.And(Conds.Or(Conds.Not(a), b), Conds.Or(a, Conds.Not(b)))


class Expected(Exception):
    pass
