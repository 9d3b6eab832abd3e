"""Concrete execution of harnesses on the real, uninstrumented code (no solver needed)."""
import importlib
import math
import os
import sys
from fractions import Fraction

from .api import Cond, Conds, as_cond

REPO = os.environ.get("PATHLIB_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class Skip(Exception):
    """The inputs do not satisfy an assumption of the harness."""


class Missing(Exception):
    """The harness asks for an input the model does not have."""


def setup_path():
    for p in (os.path.join(HERE, "stubs"), REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.dont_write_bytecode = True


class ConcS(Conds):
    sym = False

    def __init__(self, values, choices, tol=1e-6, fill=None):
        self.values = values
        self.choices = choices
        self.rng = None
        if fill is not None:
            import random
            self.rng = random.Random(fill)
        self.tol = tol
        self.margin = None
        self.results = []   # (label, ok, detail)
        self.failed = []
        self.nrnd = 0
        self.prefix = ""
        self.quiet = False
        setup_path()

    # -- inputs
    def _val(self, name, kind, lo=None, hi=None):
        if not name.startswith("rnd"):
            name = self.prefix + name
        if name not in self.values:
            if self.rng is None:
                raise Missing(name)
            self.values[name] = str(self.draw(kind, lo, hi))
        v = self.values[name]
        v = Fraction(v) if isinstance(v, str) else v
        if self.margin is not None:  # moved a little: not over the bounds
            v = Fraction(v)
            if lo is not None and v < lo:
                v = 2 * Fraction(lo) - v
            if hi is not None and v > hi:
                v = 2 * Fraction(hi) - v
        if kind == "i":
            return round(v)
        return float(v)

    def draw(self, kind, lo, hi):
        """A value for an input the solver's model leaves open (only while looking for a failing input)."""
        r = self.rng
        a = -20 if lo is None else Fraction(lo)
        b = max(20, a + 40) if hi is None else Fraction(hi)
        if lo is None and hi is not None:
            a = min(-20, b - 40)
        if kind == "i":
            return r.randint(math.ceil(a), math.floor(b))
        how = r.randrange(6)
        if how == 0:
            x = Fraction(r.randint(math.ceil(a), math.floor(b))) if math.ceil(a) <= b else a
        elif how == 1:
            x = Fraction(round(r.uniform(float(a), float(b)) * 2), 2)
        elif how == 2:
            x = Fraction(round(r.uniform(float(a), float(b)))) + Fraction(r.choice((-5, -1, 1, 5)), 1024)
        elif how == 3 and lo is None and hi is None and self.margin is None:
            x = Fraction(r.uniform(-1, 1) * 10 ** r.randint(-5, 5))
        elif how == 4 and self.values:
            x = Fraction(r.choice(list(self.values.values())))
        else:
            x = Fraction(r.uniform(float(a), float(b)))
        return min(max(x, a), b) if lo is not None and hi is not None else x

    def _dir(self, name):
        full = self.prefix + name
        if full + ".c" not in self.values and self.rng is not None:
            a = math.radians(self.rng.choice((self.rng.uniform(-180, 180), self.rng.randint(-180, 180),
                                              self.rng.randint(-180, 180) + self.rng.choice((-.005, .005)))))
            self.values[full + ".c"], self.values[full + ".s"] = str(Fraction(math.cos(a))), str(Fraction(math.sin(a)))
        c, s = self._val(name + ".c", "f"), self._val(name + ".s", "f")
        if abs(c * c + s * s - 1) > 1e-6:  # no direction
            raise Skip()
        return c, s

    def real(self, name, lo=None, hi=None, kind="f"):
        return self._val(name, kind, lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._val(name, "i", lo, hi)

    def inum(self, name):
        """A number that is an int in the code under test (any value; replayed as int)."""
        return self._val(name, "i")

    def point(self, name, kind="f"):
        return (self._val(name + ".x", kind), self._val(name + ".y", kind))

    def points(self, name, n, kind="f"):
        return [self.point(f"{name}{i}", kind) for i in range(n)]

    def cpoint(self, p):
        return complex(p[0], p[1])

    def angle(self, name, turns=(0,)):
        c, s = self._dir(name)
        a = math.degrees(math.atan2(s, c))
        k = self.choice(name + ".k", list(turns))
        return a + 360 * k, c, s

    def direction(self, name):
        return self._dir(name)

    def choice(self, name, seq):
        name = self.prefix + name
        if name not in self.choices and self.rng is not None:
            self.choices[name] = self.rng.randrange(len(seq))
        if name not in self.choices:
            raise Missing(name)
        i = self.choices[name]
        return seq[i]

    def cased(self, word):
        return "".join(ch.upper() if ch.lower() != ch.upper() and self.int(f"{word}.{i}", 0, 1) else ch.lower()
                       for i, ch in enumerate(word))

    # -- code under test
    def mod(self, name):
        return importlib.import_module(name)

    def fresh(self, name):
        """The module loaded anew, with nothing asked of it before."""
        old = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "PathLib"}
        for k in old:
            del sys.modules[k]
        try:
            return importlib.import_module(name)
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "PathLib"]:
                del sys.modules[k]
            sys.modules.update(old)

    def patch_random(self, module):
        """The code's random numbers are the inputs rnd0, rnd1, ..."""
        import random as real
        S = self

        def draw(kind, lo, hi):
            S.nrnd += 1
            if lo > hi and kind == "i":
                raise ValueError("empty range")
            return S._val(f"rnd{S.nrnd - 1}", kind, lo, hi)

        fns = {"randint": lambda a, b: draw("i", a, b),
               "randrange": lambda a, b=None: draw("i", 0, a - 1) if b is None else draw("i", a, b - 1),
               "getrandbits": lambda k: draw("i", 0, 2 ** k - 1), "random": lambda: draw("f", 0, 1),
               "uniform": lambda a, b: draw("f", min(a, b), max(a, b)), "choice": lambda seq: seq[draw("i", 0, len(seq) - 1)]}
        R = type("R", (), {k: staticmethod(f) for k, f in fns.items()})
        for name, v in list(vars(module).items()):
            if v is real:
                setattr(module, name, R)
            for k in fns:
                if v == getattr(real, k, None):
                    setattr(module, name, fns[k])

    # -- numeric helpers
    def sqrt(self, x):
        return math.sqrt(max(0.0, x))

    def hypot(self, *xs):
        return math.hypot(*xs)

    def cossin_deg(self, x):
        return self.cossin(math.radians(x))

    def cossin(self, x):
        return math.cos(x), math.sin(x)

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def stub(self, cls, name, value):
        pass

    def num(self, s):
        return float(s)

    def as_float(self, x):
        return float(x)

    def decimals(self, p):
        from decimal import Decimal
        return tuple(Decimal(x) for x in p)

    def q(self, a, b=1):
        return a / b

    def kind(self, x):
        if isinstance(x, bool):
            return "b"
        if isinstance(x, int):
            return "i"
        if isinstance(x, float):
            return "f"
        return "d" if type(x).__name__ == "Decimal" else "?"

    def snapshot(self, x):
        return x

    # -- conditions
    def _tol(self, a, b):
        return self.tol * (1 + abs(a) + abs(b))

    def _t(self, c):
        """Could be true, allowing for rounding."""
        k = c.k
        if k == "leaf":
            return bool(c.a[0])
        if k == "and":
            return all(self._t(x) for x in c.a)
        if k == "or":
            return any(self._t(x) for x in c.a)
        if k == "not":
            return not self._s(c.a[0])
        a, b = self._nums(c)
        if a is None:
            return b
        if k == "eq":
            return a == b or abs(a - b) <= self._tol(a, b)
        if k == "le":
            return a <= b or a <= b + self._tol(a, b)
        if k == "lt":
            return a < b or a < b + self._tol(a, b)
        raise ValueError(k)

    def _s(self, c):
        """Certainly true, allowing for rounding."""
        k = c.k
        if k == "leaf":
            return bool(c.a[0])
        if k == "and":
            return all(self._s(x) for x in c.a)
        if k == "or":
            return any(self._s(x) for x in c.a)
        if k == "not":
            return not self._t(c.a[0])
        a, b = self._nums(c)
        if a is None:
            return b
        if a != a or b != b:
            return False
        if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
            return {"eq": a == b, "le": a <= b, "lt": a < b}[k]
        if k == "eq":
            return a == b
        if k == "le":
            return a <= b - self._tol(a, b) or a == b and float(a).is_integer()
        if k == "lt":
            return a < b - self._tol(a, b)
        raise ValueError(k)

    def _nums(self, c):
        a, b = c.a
        na, nb = isinstance(a, (int, float)) or type(a).__name__ in ("Decimal", "Fraction"), \
            isinstance(b, (int, float)) or type(b).__name__ in ("Decimal", "Fraction")
        if na and nb:
            return float(a), float(b)
        if isinstance(a, complex) or isinstance(b, complex):
            raise TypeError("compare complex parts")
        if c.k == "eq":
            return None, a == b
        raise TypeError(f"cannot order {type(a).__name__} and {type(b).__name__}")

    def _well(self, c):
        """True with a margin, so that rounding cannot matter."""
        k, g = c.k, self.margin
        if k == "leaf":
            return bool(c.a[0])
        if k == "and":
            return all(self._well(x) for x in c.a)
        if k == "or":
            return any(self._well(x) for x in c.a)
        if k == "not":
            saved, self.tol = self.tol, g
            try:
                return not self._t(c.a[0])
            finally:
                self.tol = saved
        a, b = self._nums(c)
        if a is None:
            return b
        d = 1 + abs(a) + abs(b)
        return abs(a - b) <= 1e-12 * d if k == "eq" else a <= b - g * d

    def assume(self, c):
        c = as_cond(c)
        if not (self._t(c) if self.margin is None else self._well(c)):
            raise Skip()

    def check(self, label, c, exact=False, tol=None):
        if self.quiet:
            return
        saved = self.tol
        if exact:
            self.tol = 0.0
        elif tol is not None:
            self.tol = tol
        try:
            ok = self._t(as_cond(c))
        finally:
            self.tol = saved
        self.results.append((label, ok))
        if not ok:
            self.fail(label, self.describe(as_cond(c)), exact)

    def fail(self, label, detail, exact=False):
        self.failed.append({"outcome": "fail", "label": label, "detail": detail, "exact": exact})

    def unreachable(self, label):
        if self.quiet:
            return
        self.results.append((label, False))
        self.fail(label, "reached")

    def describe(self, c, depth=0):
        if c.k == "leaf":
            return repr(c.a[0])
        if c.k in ("and", "or", "not"):
            if c.k == "and":
                bad = [x for x in c.a if not self._t(x)]
                return self.describe(bad[0], depth + 1) if bad else "?"
            if depth > 3:
                return c.k
            return c.k + "(" + ", ".join(self.describe(x, depth + 1) for x in c.a[:6]) + ")"
        return f"{c.a[0]!r} {c.k} {c.a[1]!r}"

    def call(self, fn, *a, raises=(), **k):
        """Call; returns (value, None) or (None, exception) for the listed exception types."""
        try:
            return fn(*a, **k), None
        except raises as e:
            return None, e


def perturbed(values, rng, scale):
    """The same inputs, each moved a little (directions turned a little, whole numbers kept)."""
    out = dict(values)
    for n, v in values.items():
        x = Fraction(v) if isinstance(v, str) else v
        if n.endswith(".s") and n[:-2] + ".c" in values:
            continue
        if n.endswith(".c") and n[:-2] + ".s" in values:
            a = math.atan2(float(Fraction(values[n[:-2] + ".s"])), float(x)) + rng.uniform(-scale, scale)
            out[n], out[n[:-2] + ".s"] = str(Fraction(math.cos(a))), str(Fraction(math.sin(a)))
        else:
            if Fraction(x).denominator == 1 and rng.random() < 0.5:
                out[n] = str(x + rng.choice((-1, 1)))
            else:
                out[n] = str(x + Fraction(rng.uniform(-scale, scale)) * max(1, abs(x)))
    return out


def forget():
    for k in [k for k in sys.modules if k.split(".")[0] == "PathLib"]:
        del sys.modules[k]


def plain(values):
    """Numbers that floating point computes with exactly, for all practical purposes."""
    xs = [Fraction(v) for v in values.values()]
    return all(x.denominator <= 1024 and x.denominator & (x.denominator - 1) == 0 and abs(x) <= 10000 for x in xs)


def persists(h, case, res, tol=1e-4, seed=1):
    """The failure found with res["values"] stays when they are moved a little, within the assumptions by a margin."""
    import random
    fails = 0
    rng = random.Random(seed)
    for j in range(12):
        P = ConcS(perturbed(res["values"], rng, 1e-3 if j % 2 else 3e-2), dict(res["choices"]), tol, 1)
        P.margin = 1e-3
        forget()
        o = _run(P, h, case)
        if o["outcome"] == "pass":
            return False
        fails += o["outcome"] == "fail" and o["label"] == res["label"]
    return fails >= 4


def search(h, case, starts, choices, seed, seconds, tries, tol=1e-4):
    """Looks for a failing input: the solver's models in starts first, then draws.  A draw counts only if it fails with all
    assumptions met by a margin, and keeps failing when it is moved a little (so never because of rounding)."""
    import random
    import time
    t0 = time.time()
    n = 0
    for k in range(tries):
        if time.time() - t0 > seconds:
            break
        n += 1
        model = k < len(starts)
        S = ConcS(dict(starts[k]) if model else {}, dict(choices) if k <= len(starts) else {}, tol, seed * 1000 + k)
        S.margin = None if model else 1e-3
        forget()
        res = _run(S, h, case)
        if res["outcome"] != "fail":
            continue
        res["values"], res["choices"] = S.values, S.choices
        if model and plain(S.values) or persists(h, case, res, tol, k):
            return res
    return {"outcome": "none", "tries": n}


def run_concrete(h, case, values, choices, tol=1e-6, fill=None):
    """Returns dict(outcome=pass|fail|skip|error, ...)."""
    S = ConcS(values, choices, tol, fill)
    res = _run(S, h, case)
    if fill is not None:
        res["values"], res["choices"] = S.values, S.choices
    return res


def _run(S, h, case):
    try:
        h.fn(S, case)
    except Skip:
        if S.failed:
            return S.failed[0]
        return {"outcome": "skip"}
    except Missing as e:
        if S.failed:  # an input asked for only after the assertion that fails
            return S.failed[0]
        return {"outcome": "error", "detail": "missing input " + str(e)}
    except Exception as e:
        if S.failed:
            return S.failed[0]
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(os.path.join(REPO, "PathLib"))]
        if inside:
            f = inside[-1]
            return {"outcome": "fail", "label": "exception",
                    "detail": f"{type(e).__name__}: {e} at {os.path.relpath(f.filename, REPO)} in {f.name}"}
        f = tb[-1]
        if isinstance(e, TypeError) and os.path.basename(os.path.dirname(f.filename)) == "props":
            return {"outcome": "fail", "label": "exception", "detail": f"the result cannot be used as such: {e}"}
        return {"outcome": "error", "detail": f"{type(e).__name__}: {e} at {f.filename}:{f.lineno}"}
    if S.failed:
        return S.failed[0]
    return {"outcome": "pass", "checks": len(S.results)}
