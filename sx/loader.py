"""Load modules of the code under test with symbolic arithmetic semantics.

The source is read from the repository on every run, its AST is instrumented (float literals are
exact decimals, divisors go through `numify`) and it is executed with shims for the numeric
built-ins and for the `math`, `decimal` and `random` modules.
"""
import ast
import builtins
import functools
import importlib
import itertools
import math as _m
import os
import re
import sys
import types
from fractions import Fraction

from . import engine as E
from .engine import Num, AbsNum, Ang, SymBool, SymComplex, Unsupported, Poly, PI, TAU

REPO = os.environ.get("PATHLIB_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

NATIVE = {"__future__", "typing", "types", "functools", "itertools", "operator", "collections", "dataclasses",
          "enum", "abc", "copy", "logging", "re", "sys", "contextlib", "string", "typing_extensions", "bisect",
          "collections.abc", "warnings", "os", "io", "json", "textwrap", "weakref", "inspect", "numbers", "heapq"}


# ---------------------------------------------------------------- AST instrumentation
class _Messages(ast.NodeTransformer):
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and not n.id.startswith("__sx"):
            return ast.copy_location(ast.Call(ast.Name("__sx_msg__", ast.Load()), [n], []), n)
        return n


class Instr(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(
                ast.Call(ast.Name("__sx_lit__", ast.Load()), [ast.Constant(repr_float(n))], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            n.right = ast.copy_location(ast.Call(ast.Name("__sx_num__", ast.Load()), [n.right], []), n.right)
        elif isinstance(n.op, ast.Pow):
            n.right = ast.copy_location(ast.Call(ast.Name("__sx_pow__", ast.Load()), [n.right], []), n.right)
        elif isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__sx_mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "__class__" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__sx_type__", ast.Load()), [n.value], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            n.value = ast.copy_location(ast.Call(ast.Name("__sx_num__", ast.Load()), [n.value], []), n.value)
        elif isinstance(n.op, ast.Pow):
            n.value = ast.copy_location(ast.Call(ast.Name("__sx_pow__", ast.Load()), [n.value], []), n.value)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_Raise(self, n):
        # the text of a message is never looked at: don't decide the letters of a word for it
        self.generic_visit(n)
        if isinstance(n.exc, ast.Call):
            n.exc.args = [_Messages().visit(a) for a in n.exc.args]
        return n

    def visit_match_case(self, n):
        n.body = [self.visit(b) for b in n.body]
        if n.guard:
            n.guard = self.visit(n.guard)
        return n

    def visit_AnnAssign(self, n):
        if n.value:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def visit_FunctionDef(self, n):
        n.body = [self.visit(b) for b in n.body]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n


_src = [None]


def repr_float(n):
    seg = ast.get_source_segment(_src[0], n)
    if seg:
        try:
            if float(seg.replace("_", "")) == n.value:
                return seg
        except ValueError:
            pass
    return repr(n.value)


@functools.lru_cache(None)
def code_for(path):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, path)
    _src[0] = src
    tree = ast.fix_missing_locations(Instr().visit(tree))
    return compile(tree, path, "exec")


# ---------------------------------------------------------------- string formatting
def mod(a, b):
    if type(a) is not str:
        return a % b
    args = b if type(b) is tuple else (b,)
    if not any(isinstance(x, E.Num) for x in args):
        return a % b
    out, at, i = [], 0, 0
    for m in re.finditer(r"%(?:%|([-+ 0#]*)(\d*)(\.\d+)?([a-zA-Z]))", a):
        out.append(a[at:m.start()])
        at = m.end()
        if m.group() == "%%":
            out.append("%")
            continue
        if i == len(args):
            raise TypeError("not enough arguments for format string")
        x, i = args[i], i + 1
        kind = m.group(4)
        if not isinstance(x, E.Num):
            out.append(m.group() % (x,))
        elif kind in "sr":
            out.append(str(x))
        elif kind in "di":
            out.append(str(E.CUR.trunc(x)))
        else:
            out.append(format(x, (m.group(3) or "") + kind))
    if i != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out) + a[at:]


# ---------------------------------------------------------------- math shim
def _n(x):
    return E.CUR._n(x)


def sh_sqrt(x):
    if isinstance(x, Ang):
        raise Unsupported("sqrt of an angle")
    return E.CUR.sqrt(x)


def sh_hypot(*xs):
    return E.CUR.hypot(*xs)


def sh_dist(p, q):
    return E.CUR.hypot(*[a - b for a, b in zip(p, q)])


def sh_pow(a, b):
    a, b = _n(a), _n(b)
    r = E.num_pow(a, b)
    if isinstance(r, Num) and r.k == "i":
        r = Num(r.n, r.d, "f")
    return r


def sh_atan2(y, x):
    return E.CUR.atan2(y, x)


def sh_atan(x):
    return E.CUR.atan2(x, 1)


def sh_acos(x):
    return E.CUR.acos(x)


def sh_asin(x):
    return PI / 2 - E.CUR.acos(x)


def sh_degrees(x):
    if isinstance(x, Ang):
        return x * 180 / PI
    x = _n(x)
    if E.special(x):
        return x
    if x.is_const() and x.const() == 0:
        return E._rat(0)
    raise Unsupported("degrees of a non-angle")


def sh_radians(x):
    if isinstance(x, Ang):
        return x * PI / 180
    x = _n(x)
    if E.special(x):
        return x
    if x.is_const():
        return Ang.make((), Fraction(x.const()) / 180, 0)
    raise Unsupported("radians of a symbolic number")


def sh_sin(x):
    return E.CUR.trig(x)[1]


def sh_cos(x):
    return E.CUR.trig(x)[0]


def sh_tan(x):
    c, s = E.CUR.trig(x)
    return s / c


def sh_floor(x):
    r = E.CUR.floor(x)
    return int(r.const()) if r.is_const() else r


def sh_ceil(x):
    r = -E.CUR.floor(-_n(x))
    return int(r.const()) if r.is_const() else r


def sh_fabs(x):
    return abs(_n(x)) if not isinstance(x, Ang) else abs(x)


def sh_isnan(x):
    return type(x) is float and x != x


def sh_isinf(x):
    return type(x) is float and x in (_m.inf, -_m.inf)


def sh_isfinite(x):
    return not (sh_isnan(x) or sh_isinf(x))


def sh_isclose(a, b, *, rel_tol=None, abs_tol=0):
    rel_tol = E._rat(Fraction(1, 10**9)) if rel_tol is None else rel_tol
    if sh_isnan(a) or sh_isnan(b):
        return False
    if sh_isinf(a) or sh_isinf(b):
        return a == b
    d = abs(a - b)
    return bool(d <= abs_tol) or bool(d <= abs(rel_tol * a)) or bool(d <= abs(rel_tol * b))


def sh_copysign(a, b):
    a = abs(a)
    return a if b >= 0 else -a


def sh_fsum(xs):
    return sum(xs, E._rat(0))


def sh_sumprod(a, b):
    return sum((x * y for x, y in zip(a, b)), E._rat(0))


def sh_cbrt(x):
    return E.CUR.cbrt(_n(x))


def sh_fmod(a, b):
    q = E.CUR.trunc(_n(a) / _n(b))
    return a - q * b


def sh_modf(x):
    t = E.CUR.trunc(_n(x))
    return (x - t, t * E._rat(1))


def sh_trunc(x):
    return E.CUR.trunc(_n(x))


def make_math():
    m = types.ModuleType("math")
    for k in ("sqrt", "hypot", "dist", "pow", "atan2", "atan", "acos", "asin", "degrees", "radians", "sin", "cos",
              "tan", "floor", "ceil", "fabs", "isnan", "isinf", "isfinite", "isclose", "copysign", "fsum", "cbrt",
              "fmod", "modf", "trunc", "sumprod"):
        setattr(m, k, globals()["sh_" + k])
    m.pi = PI
    m.tau = TAU
    m.inf = _m.inf
    m.nan = _m.nan
    m.comb = _m.comb
    m.factorial = _m.factorial
    m.gcd = _m.gcd
    m.isqrt = _m.isqrt

    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    m.prod = prod

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("math." + name)

    m.__getattr__ = missing
    return m


# ---------------------------------------------------------------- decimal shim
class _DecMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Num) and x.k == "d"


class SymDecimal(metaclass=_DecMeta):
    def __new__(cls, v=0):
        if isinstance(v, AbsNum):
            v = v.force()
        if isinstance(v, Num):
            return Num(v.n, v.d, "d")
        if isinstance(v, str):
            return Num(Poly.const(Fraction(v.strip().replace("_", ""))), (), "d")
        if E.special(v):
            raise Unsupported("Decimal of inf/nan")
        return Num(Poly.const(Fraction(v)), (), "d")

    @classmethod
    def from_float(cls, v):
        return cls(v)


class DecContext:
    def __init__(self):
        self.prec = 28

    def copy(self):
        c = DecContext()
        c.prec = self.prec
        return c

    def sqrt(self, x):
        return x.sqrt()

    def fma(self, a, b, c):
        return a * b + c


def make_decimal():
    m = types.ModuleType("decimal")
    m.Decimal = SymDecimal
    state = [DecContext()]
    m.getcontext = lambda: state[0]

    def setcontext(c):
        state[0] = c

    m.setcontext = setcontext
    m.Context = DecContext

    class LC:
        def __init__(self, ctx=None, **kw):
            self.new = (ctx or state[0]).copy()
            for k, v in kw.items():
                setattr(self.new, k, v)

        def __enter__(self):
            self.old = state[0]
            state[0] = self.new
            return self.new

        def __exit__(self, *a):
            state[0] = self.old

    m.localcontext = LC
    m.InvalidOperation = ArithmeticError
    m.DivisionByZero = ZeroDivisionError
    return m


# ---------------------------------------------------------------- builtins shim
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Num) and x.k == "f") or isinstance(x, Ang)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class SymFloat(metaclass=_FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, AbsNum):
            v = v.force()
        if isinstance(v, Num):
            return Num(v.n, v.d, "f")
        if isinstance(v, Ang):
            return v
        if isinstance(v, SymBool):
            v = int(bool(v))
        if isinstance(v, (str, bytes)):
            f = float(v)
            if E.special(f):
                return f
            return E.lit(v.strip())
        f = v
        if type(f) in (int, bool):
            return Num(Poly.const(int(f)), (), "f")
        if type(f) is float:
            return f
        return float(v)

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Num) and x.k == "i")

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *a, **k):
        v = a[0] if a else 0
        if isinstance(v, Num) and len(a) == 1:
            r = E.CUR.trunc(v)
            return int(r.const()) if r.is_const() else r
        if isinstance(v, Ang):
            raise Unsupported("int of an angle")
        return int(*a, **k)


class SymInt(metaclass=_IntMeta):
    from_bytes = int.from_bytes


def _mm(is_min):
    nat = min if is_min else max

    def f(*args, key=None, **kw):
        if len(args) == 1:
            xs = list(args[0])
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise ValueError(("min" if is_min else "max") + "() arg is an empty sequence")
        else:
            xs = list(args)
        if key is None and len(xs) > 1 and any(isinstance(x, Ang) for x in xs) and all(
                isinstance(x, Ang) or type(x) in (int, float) or isinstance(x, Num) and x.is_const() for x in xs):
            return E.AngExt(xs, is_min)
        if key is not None or not any(isinstance(x, Num) for x in xs) or not all(
                isinstance(x, Num) or type(x) in (int, float, bool, Fraction) for x in xs):
            return nat(xs, key=key)
        r = xs[0]
        for x in xs[1:]:
            r = E.CUR.minmax(r, x, is_min)
        return r

    f.__name__ = "min" if is_min else "max"
    return f


def sh_round(x, nd=None):
    if isinstance(x, AbsNum):
        x = x.force()
    if isinstance(x, Num):
        return E.CUR.round(x, nd)
    if isinstance(x, Ang):
        raise Unsupported("rounding an angle")
    if type(x) is float and nd is not None:
        return round(x, nd)
    return round(x) if nd is None else round(x, nd)


def sh_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sh_divmod(a, b):
    return (a // b, a % b)


def sh_pow3(a, b, mod=None):
    if mod is not None:
        return pow(a, b, mod)
    return a ** E.numify(b) if isinstance(a, Num) or isinstance(b, Num) else pow(a, b)


def sh_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Num):
            return {"i": SymInt, "f": SymFloat, "d": SymDecimal}.get(x.k, SymFloat)
        if isinstance(x, SymComplex):
            return SymCplx
        t = type(x)
        return {float: SymFloat, int: SymInt, complex: SymCplx}.get(t, t)
    return type(*a)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            return sh_type(a[0])
        return type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)


class SymType(metaclass=_TypeMeta):
    pass


def sh_abs(x):
    return abs(x)


def sh_pow_operand(x):
    return x


def sx_pow(x):
    """Exponents: natural ints stay ints, so that int ** int stays an int."""
    if type(x) is int and x >= 0:
        return x
    return E.numify(x)


# ---------------------------------------------------------------- symbolic random
def make_random():
    m = types.ModuleType("random")

    def fresh(lo, hi, integer):
        e = E.CUR
        n = len([k for k in e.inputs if k.startswith("rnd")])
        x = e.input_real(f"rnd{n}", lo, hi, "i" if integer else "f", integer)
        if not integer and hi == 1:
            e.add_pc(E.cmp_f(x, E._rat(1), "lt"))
        return x

    def choice(seq):
        return seq[int(e_index(fresh(0, len(seq) - 1, True)))]

    def e_index(x):
        return x.__index__()

    def randint(a, b):
        if a > b:
            raise ValueError(f"empty range in randint({a}, {b})")
        return fresh(a, b, True)

    m.randint = randint
    m.randrange = lambda a, b=None: randint(0, a - 1) if b is None else randint(a, b - 1)
    m.random = lambda: fresh(0, 1, False)
    m.uniform = lambda a, b: fresh(a, b, False)
    m.getrandbits = lambda k: fresh(0, (1 << k) - 1, True)
    m.choice = choice
    m.seed = lambda *a: None
    return m


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, complex)

    def __subclasscheck__(cls, c):
        return issubclass(c, complex)

    def __eq__(cls, o):
        return o is complex or o is SymCplx

    def __hash__(cls):
        return hash(complex)

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], E.SymComplex):
            return a[0]
        x = k.get("real", a[0] if a else 0)
        y = k.get("imag", a[1] if len(a) > 1 else 0)
        if any(isinstance(v, (Num, E.SymComplex)) for v in (x, y)):
            if any(isinstance(v, E.SymComplex) for v in (x, y)):
                raise Unsupported("complex() of complex parts")
            return E.SymComplex(x, y)
        return complex(*a, **k)


class SymCplx(metaclass=_ComplexMeta):
    pass


# ---------------------------------------------------------------- module loading
class World:
    """One fresh set of modules of the code under test."""

    def __init__(self, eng, stubs=None):
        self.eng = eng
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.shims = {"math": make_math(), "decimal": make_decimal(), "random": make_random()}
        self.funcs = set()
        b = {k: getattr(builtins, k) for k in dir(builtins)}
        b.update(float=SymFloat, int=SymInt, complex=SymCplx, min=_mm(True), max=_mm(False), round=sh_round, sum=sh_sum,
                 divmod=sh_divmod, pow=sh_pow3, type=SymType, __import__=self.imp,
                 __sx_lit__=E.lit, __sx_mod__=mod, __sx_num__=E.numify, __sx_pow__=sx_pow, __sx_type__=sh_type,
                 __sx_msg__=lambda v: v.lower() if type(v) is E.Cased else v)
        b["__build_class__"] = builtins.__build_class__
        self.builtins = b

    def path_of(self, name):
        if name == "PathLib" or name.startswith("PathLib."):
            base = os.path.join(REPO, *name.split("."))
            if os.path.isdir(base):
                return os.path.join(base, "__init__.py"), True
            return base + ".py", False
        if name == "FontDocTools" or name.startswith("FontDocTools."):
            base = os.path.join(HERE, "stubs", *name.split("."))
            if os.path.isdir(base):
                return os.path.join(base, "__init__.py"), True
            return base + ".py", False
        if name == "colorsys":
            import colorsys
            return colorsys.__file__, False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.shims:
            return self.shims[name]
        path, pkg = self.path_of(name)
        if path is None or not os.path.exists(path):
            if path is not None:
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            if name.split(".")[0] in NATIVE or name in NATIVE:
                return importlib.import_module(name)
            raise Unsupported(f"import of {name}")
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        sys_had = sys.modules.get(name)
        sys.modules[name] = m  # dataclasses and typing look modules up by name
        try:
            exec(code_for(path), m.__dict__)
        finally:
            if sys_had is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = sys_had
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        if name == "PathLib.Bezier":
            wrap_lazy(m, self)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and getattr(m, "__path__", None):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        top = name.split(".")[0]
        return self.load(top)


def wrap_lazy(mod, world):
    """Defer the part of the curve constructor that branches on symbolic data until it is observed.

    The constructor runs normally up to its first undecidable branch.  The attributes assigned so
    far are final; reading any other attribute runs the whole constructor (forking) on a scratch
    object with the same arguments and copies what is missing.
    """
    cls = getattr(mod, "Bezier", None)
    if not isinstance(cls, type) or "__init__" not in cls.__dict__:
        return
    orig = cls.__init__

    def __init__(self, *a, **k):
        e = E.CUR
        if not e.opts.get("lazy", True):
            return orig(self, *a, **k)
        saved = e.deferred_flag
        e.deferred_flag = False
        e.defer += 1
        try:
            orig(self, *a, **k)
            done = not e.deferred_flag
        except E.Defer:
            done = False
        except Exception:
            if e.deferred_flag:
                done = False
            else:
                raise
        finally:
            e.defer -= 1
            e.deferred_flag = saved
        if not done:
            frozen = tuple(list(x) if isinstance(x, list) else x for x in a)
            e.pending[id(self)] = (self, frozen, dict(k))

    def __getattr__(self, name):
        e = E.CUR
        ent = e.pending.get(id(self))
        if ent is None or name.startswith("__"):
            raise AttributeError(f"'{cls.__name__}' object has no attribute '{name}'")
        if e.defer:
            e.deferred_flag = True
            raise E.Defer()
        del e.pending[id(self)]
        tmp = cls.__new__(cls)
        orig(tmp, *ent[1], **ent[2])
        names = set()
        for c in type(tmp).__mro__:
            s = c.__dict__.get("__slots__", ())
            names.update([s] if isinstance(s, str) else s)
        names.update(getattr(tmp, "__dict__", {}))
        for n in names:
            try:
                v = object.__getattribute__(tmp, n)
            except AttributeError:
                continue
            try:
                object.__getattribute__(self, n)
            except AttributeError:
                object.__setattr__(self, n, v)
        return object.__getattribute__(self, name)

    if "__getattr__" in cls.__dict__:
        return
    functools.update_wrapper(__init__, orig)
    cls.__init__ = __init__
    cls.__getattr__ = __getattr__
