"""Symbolic execution of harnesses and decision of their assertions."""
import math as _m
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import engine as E
from . import loader
from . import poly as P
from .api import Cond, Conds, as_cond
from .concrete import plain
from .engine import (Num, AbsNum, Ang, SymBool, SymComplex, Engine, PathAbort, Unsupported, Stats, Poly,
                     f_and, f_or, f_not, to_f, T, F, f_evalf)

sys.setrecursionlimit(20000)


class Found(BaseException):
    """A confirmed violation: stop exploring."""


def is_num(x):
    return isinstance(x, (Num, int, float, Fraction, Ang)) or type(x).__name__ == "Decimal"


def has_sym(x):
    return isinstance(x, (Num, Ang))


class SymS(Conds):
    sym = True

    def __init__(self, eng, task):
        self.e = eng
        self.task = task
        self.w = None
        self.choices = {}
        self.prefix = ""
        self.quiet = False

    @property
    def world(self):
        if self.w is None:
            self.w = loader.World(self.e)
        return self.w

    # -- inputs
    def real(self, name, lo=None, hi=None, kind="f"):
        return self.e.input_real(self.prefix + name, lo, hi, kind, False)

    def int(self, name, lo=None, hi=None):
        return self.e.input_real(self.prefix + name, lo, hi, "i", True)

    def inum(self, name):
        return self.e.input_real(self.prefix + name, None, None, "i", True)

    def point(self, name, kind="f"):
        if kind == "i":
            return (self.inum(name + ".x"), self.inum(name + ".y"))
        return (self.real(name + ".x", kind=kind), self.real(name + ".y", kind=kind))

    def points(self, name, n, kind="f"):
        return [self.point(f"{name}{i}", kind) for i in range(n)]

    def cpoint(self, p):
        return SymComplex(p[0], p[1])

    def angle(self, name, turns=(0,)):
        c, s = self.e.input_dir(self.prefix + name)
        b = E.AngBase(c, s, "atan2")
        k = self.choice(name + ".k", list(turns))
        return Ang.make([(b, Fraction(180))], 360 * k, -1), c, s

    def direction(self, name):
        return self.e.input_dir(self.prefix + name)

    def choice(self, name, seq):
        i = self.e.choose(len(seq))
        self.choices[self.prefix + name] = i
        return seq[i]

    def cased(self, word):
        """The word with each letter in either case."""
        return E.Cased([(ch.lower(), ch.upper(), self.int(f"{word}.{i}", 0, 1) if ch.lower() != ch.upper() else None)
                        for i, ch in enumerate(word)])

    # -- code under test
    def mod(self, name):
        return self.world.load(name)

    def fresh(self, name):
        """The module loaded anew, with nothing asked of it before."""
        return loader.World(self.e).load(name)

    def patch_random(self, module):
        pass

    # -- numeric helpers
    def sqrt(self, x):
        return self.e.sqrt(x) if has_sym(x) else self.e.sqrt(E._rat(Fraction(x)))

    def hypot(self, *xs):
        return self.e.hypot(*xs)

    def cossin_deg(self, x):
        """(cos, sin) of a value in degrees produced by the code under test."""
        if isinstance(x, Ang):
            return self.e.trig(x * E.PI / 180)
        x = self.e._n(x)
        if not x.is_const():
            raise Unsupported("trigonometric function of a symbolic number")
        return E.pi_trig(Fraction(x.const()) / 180)

    def cossin(self, x):
        """(cos, sin) of a value in radians produced by the code under test."""
        return self.e.trig(x)

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return self.e.minmax(a, b, True) if has_sym(a) or has_sym(b) else min(a, b)

    def max(self, a, b):
        return self.e.minmax(a, b, False) if has_sym(a) or has_sym(b) else max(a, b)

    def stub(self, cls, name, value):
        """Replace an attribute of the code under test in the symbolic world (the replay runs the real one)."""
        setattr(cls, name, value)

    def num(self, s):
        s = s.strip()
        if s.startswith("\u27e8"):
            return self.e.tokens[int(s[1:-1])]
        return E.lit(s)

    def as_float(self, x):
        """The value of a Decimal (or other number) as a plain number."""
        if isinstance(x, Num) and x.k == "d":
            return Num(x.n, x.d, "f")
        return E._rat(Fraction(x)) if type(x).__name__ == "Decimal" else x

    def decimals(self, p):
        D = self.mod("decimal").Decimal
        return tuple(D(x) for x in p)

    def q(self, a, b=1):
        return E._rat(Fraction(a) / Fraction(b))

    def kind(self, x):
        if isinstance(x, Num):
            return x.k
        if isinstance(x, bool):
            return "b"
        return "i" if isinstance(x, int) else "f" if isinstance(x, (float, Fraction, Ang)) else "?"

    def snapshot(self, x):
        return x

    # -- conditions
    def _atom(self, k, a, b):
        if isinstance(a, Fraction):
            a = E._rat(a)
        if isinstance(b, Fraction):
            b = E._rat(b)
        if isinstance(a, float) and not isinstance(b, (Num, Ang)) and not E.special(a):
            a = E._rat(Fraction(a))
        if k == "eq":
            r = a == b
        elif k == "le":
            r = a <= b
        else:
            r = a < b
        if r is NotImplemented:
            raise Unsupported("comparison")
        return to_f(r)

    def pos(self, c):
        k = c.k
        if k == "leaf":
            return to_f(c.a[0])
        if k == "and":
            return f_and(*[self.pos(x) for x in c.a])
        if k == "or":
            return f_or(*[self.pos(x) for x in c.a])
        if k == "not":
            return self.neg(c.a[0], 0)
        a, b = c.a
        if k == "eq" and not (is_num(a) and is_num(b)) and not (has_sym(a) or has_sym(b)):
            return T if a == b else F
        return self._atom(k, a, b)

    def neg(self, c, m):
        """Formula for "c fails by a margin of at least m"."""
        k = c.k
        if k == "leaf":
            return f_not(to_f(c.a[0]))
        if k == "and":
            return f_or(*[self.neg(x, m) for x in c.a])
        if k == "or":
            return f_and(*[self.neg(x, m) for x in c.a])
        if k == "not":
            return self.pos_m(c.a[0], m)
        a, b = c.a
        if m == 0 or isinstance(a, Ang) or isinstance(b, Ang) or not (is_num(a) and is_num(b)) \
                or E.special(a) or E.special(b):
            return f_not(self.pos(c))
        a, b = self.e._n(a), self.e._n(b)
        a = Num(a.force().n, a.force().d, "f") if type(a) is AbsNum else Num(a.n, a.d, "f")
        b = Num(b.force().n, b.force().d, "f") if type(b) is AbsNum else Num(b.n, b.d, "f")
        mm = E._rat(m)
        if k == "eq":
            return f_or(E.cmp_f(a, b + mm, "gt"), E.cmp_f(b, a + mm, "gt"))
        return E.cmp_f(a, b + mm, "gt")

    def pos_m(self, c, m):
        """Formula for "c holds by a margin" (used under negation)."""
        k = c.k
        if m == 0 or k == "leaf":
            return self.pos(c)
        if k == "and":
            return f_and(*[self.pos_m(x, m) for x in c.a])
        if k == "or":
            return f_or(*[self.pos_m(x, m) for x in c.a])
        if k == "not":
            return self.neg(c.a[0], m)
        a, b = c.a
        if k == "eq" or isinstance(a, Ang) or isinstance(b, Ang) or not (is_num(a) and is_num(b)) \
                or E.special(a) or E.special(b):
            return self.pos(c)
        return E.cmp_f(self.e._n(a) + E._rat(m), self.e._n(b), "le")

    def assume(self, c):
        f = self.pos(as_cond(c))
        f = self.e.canon(f)
        if f[0] == "F":
            self.e.aborted = "assumed"
            raise PathAbort()
        if f[0] == "T":
            return
        self.e.add_pc(f)
        if not self.task.sampling_done(self.e):
            if not self.e.feasible(T):
                self.e.aborted = "assumed"
                raise PathAbort()

    def check(self, label, c, exact=False, tol=None):
        self.finish()
        if self.quiet:
            return
        c = as_cond(c)
        parts = []

        def flat(x, suffix):
            if x.k == "and" and len(x.a) > 0:
                for i, y in enumerate(x.a):
                    flat(y, suffix + [i])
            else:
                parts.append((suffix, x))

        flat(c, [])
        for suffix, x in parts:
            self.task.obligation(self, label, tuple(suffix), x, exact)

    def unreachable(self, label):
        self.check(label, Cond("leaf", False))

    def finish(self):
        if self.e.aborted:
            raise PathAbort()

    def call(self, fn, *a, raises=(), **k):
        try:
            r = fn(*a, **k)
        except raises as ex:
            self.finish()
            return None, ex
        self.finish()
        return r, None


class Task:
    """One harness and case: explores all paths."""

    def __init__(self, pid, h, ci, replayer, tier="quick", seed=1, budget=None):
        self.pid = pid
        self.h = h
        self.ci = ci
        self.case = (h.cases + h.thorough)[ci]
        self.replayer = replayer
        self.stats = Stats()
        self.opts = dict(h.opts)
        self.seed = seed
        self.tier = tier
        self.done = {}
        self.labels = {}      # label -> {checked, paths}
        self.violation = None
        self.unconfirmed = []
        self.inconclusive = []
        self.validated = 0
        self.mismatch = []
        self.samples = []
        self.exceptions = set()
        self.check_ms = self.opts.get("check_ms", 20000 if tier == "quick" else 120000)
        self.budget = budget
        self.t0 = time.time()
        self.funcs = set()
        self.witnessed = set()
        self.max_ce = 12
        self.ce_tries = 0
        self.searches = 0
        self.longest = 0
        self.path_limit = min(200 if tier == "quick" else 3000, 0.6 * (budget or 300))

    # -- exploration
    def run(self):
        stack = [[]]
        signal.signal(signal.SIGALRM, self.stalled)
        max_paths = self.opts.get("max_paths", 4000 if self.tier == "quick" else 40000)
        try:
            with Trace(self.funcs):
                while stack:
                    if self.stats.paths >= max_paths:
                        self.inconclusive.append("path bound reached")
                        break
                    if self.budget and time.time() - self.t0 > self.budget:
                        self.inconclusive.append("time budget reached")
                        break
                    prefix = stack.pop()
                    alts = self.path(prefix)
                    stack.extend(alts)
            signal.setitimer(signal.ITIMER_REAL, 0)
            if self.inconclusive and not self.searches:
                self.search(self.S)
        except Found:
            pass
        return self

    def path(self, prefix):
        eng = Engine(prefix, self.opts, self.stats, self.seed)
        E.CUR = eng
        S = SymS(eng, self)
        self.S = S
        self.stats.paths += 1
        self.path_labels = []
        self.occur = {}
        self.batch = []
        complete = False
        start = time.time()
        try:
            try:
                signal.setitimer(signal.ITIMER_REAL, self.path_limit, 5)
                self.h.fn(S, self.case)
                S.finish()
                complete = True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.longest = max(self.longest, time.time() - start)
        except PathAbort:
            if eng.aborted not in ("infeasible", "assumed", None):
                self.inconclusive.append(f"path aborted: {eng.aborted}")
        except Unsupported as ex:
            self.inconclusive.append("unsupported: " + str(ex) + " at " + where(ex))
            self.search(S)
        except (Found, KeyboardInterrupt, SystemExit):
            raise
        except E.Defer:
            self.inconclusive.append("deferred construction escaped")
        except Exception as ex:
            if eng.aborted:
                pass
            else:
                self.escaped(S, ex)
        if complete:
            self.cross_check(S)
            self.witness(S)
        return eng.alts

    def cross_check(self, S):
        """Assertions closed by polynomial normalisation are put to the solver as well, in one query per path."""
        eng = S.e
        neg = []
        vs = set()
        for c in self.batch:
            a, b = c.a
            if type(a) is AbsNum or type(b) is AbsNum or not (has_sym(a) or has_sym(b)) \
                    or isinstance(a, Ang) or isinstance(b, Ang) or not (is_num(a) and is_num(b)) \
                    or E.special(a) or E.special(b):
                continue
            a, b = eng._n(a), eng._n(b)
            if len(a.n.t) + len(b.n.t) > 300:
                continue
            dens = {}
            for f, m in a.d + b.d:
                dens[f] = max(dens.get(f, 0), m)
            if c.k != "eq" and not all(eng.known_positive(f) or m % 2 == 0 for f, m in dens.items()):
                continue

            def side(x):
                r = eng.z.poly(x.n)
                have = dict(x.d)
                for f, m in dens.items():
                    for _ in range(m - have.get(f, 0)):
                        r = r * eng.z.poly(f)
                return r

            za, zb = side(a), side(b)
            neg.append({"eq": za != zb, "le": za > zb, "lt": za >= zb}[c.k])
            vs |= a.n.vars() | b.n.vars()
            for f in dens:
                vs |= f.vars()
        if not neg:
            return
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.Or(*neg))
        cons = [eng.z.formula(E.f_subs(f, eng.sub)) for f in eng.defs + eng.pc]
        s.add(*cons)
        for v, rep in eng.sub.items():
            s.add(eng.z.var(v) == eng.z.poly(rep))
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.confirmed += len(neg)
        elif r == z3.sat:
            self.inconclusive.append("the solver refutes a normal form: encoding error")

    def sampling_done(self, eng):
        """True when the current samples show the path feasible."""
        eng.ensure_samples()
        return any(all(f_evalf(f, env) is True for f in eng.pc) for env in eng.samples)

    # -- obligations
    def obligation(self, S, label, suffix, c, exact):
        eng = S.e
        n = self.occur.get((label, suffix), 0)
        self.occur[(label, suffix)] = n + 1
        key = (label, suffix, n, tuple(eng.taken))
        if key in self.done:
            return
        self.done[key] = True
        L = self.labels.setdefault(label, {"obligations": 0, "discharged": 0, "paths": 0})
        if not suffix or all(i == 0 for i in suffix):
            L["paths"] += 1
        L["obligations"] += 1
        self.stats.obligations += 1
        self.path_labels.append(label)
        nf = eng.canon(S.neg(c, 0))
        if nf[0] == "F":
            self.stats.trivial += 1
            self.stats.discharged += 1
            L["discharged"] += 1
            if c.k in ("eq", "le", "lt") and len(self.batch) < 400:
                self.batch.append(c)
            return
        r, model = "unknown", None
        if nf[0] == "T":
            r, model = eng.solve([], self.check_ms, full=True)
        else:
            # a sample that already violates the assertion guides the search
            r, model = eng.solve([nf], self.check_ms)
            if r == "sat":
                r2, m2 = eng.solve([nf], self.check_ms, full=True)
                if r2 == "unsat":
                    r = "unsat"
                elif r2 == "sat":
                    model = m2
        if r == "unsat":
            self.stats.discharged += 1
            L["discharged"] += 1
            return
        if r == "unknown":
            if self.from_samples(S, label, c, nf):
                return
        got = self.counterexample(S, label, c, nf, r, model)
        if got:
            return
        if r == "sat":
            self.unconfirmed.append(label)
        else:
            self.stats.unknown += 1
            self.inconclusive.append(f"solver gave no verdict: {label}{list(suffix)}")

    def from_samples(self, S, label, c, nf):
        """Solver timed out: look for a violating sample and confirm it with fixed inputs."""
        eng = S.e
        eng.ensure_samples()
        for env in list(eng.samples):
            if f_evalf(nf, env) is True:
                vals = {n: Fraction(env[v]).limit_denominator(10**6) for n, (v, *_r) in eng.inputs.items()}
                if self.try_replay(S, label, vals):
                    return True
        return False

    def input_bounds(self, eng, b):
        fs = []
        for n, (v, lo, hi, k) in eng.inputs.items():
            p = Poly.var(v)
            if lo is None:
                fs.append(E.f_atom("le", Poly.const(-b) - p))
            if hi is None:
                fs.append(E.f_atom("le", p - Poly.const(b)))
        return fs

    def counterexample(self, S, label, c, nf, r, model):
        eng = S.e
        if self.ce_tries >= self.max_ce:
            return False
        self.ce_tries += 1
        ms = min(self.check_ms, 8000)
        tried = 0
        bounds = self.input_bounds(eng, 1000)
        small = self.input_bounds(eng, 20)
        ladder = [(Fraction(1), small), (Fraction(1), bounds), (Fraction(1, 1000), bounds), (Fraction(0), bounds)]
        best = None
        for m, b in ladder:
            g = eng.canon(S.neg(c, m)) if m else nf
            if g[0] == "F":
                continue
            rr, mm = eng.solve([g] + b, ms, full=True)
            if rr != "sat":
                continue
            vals = self.nice(eng, [g] + b, mm)
            if self.try_replay(S, label, vals):
                return True
            vals2 = self.model_values(eng, mm)
            if vals2 != vals and self.try_replay(S, label, vals2):
                return True
            tried += 1
            # another model, away from the first one
            for n, (v, *_x) in list(eng.inputs.items())[:4]:
                f = E.f_atom("ne", Poly.var(v) - Poly.const(vals[n]))
                rr, mm = eng.solve([g, f] + b, ms, full=True)
                if rr == "sat":
                    v3 = self.model_values(eng, mm)
                    if self.try_replay(S, label, v3):
                        return True
        if r == "sat" and model is not None:
            vals = self.model_values(eng, model)
            if self.try_replay(S, label, vals):
                return True
        return self.from_samples(S, label, c, nf)

    def model_values(self, eng, model):
        return {n: eng.model_value(model, v) for n, (v, *_r) in eng.inputs.items()}

    def nice(self, eng, goals, model):
        """Simplify the counterexample input by input, the solver confirming each step."""
        vals = self.model_values(eng, model)
        fixed = []
        t0 = time.time()
        for n, (v, lo, hi, k) in eng.inputs.items():
            if time.time() - t0 > 10:
                break
            x = vals[n]
            cands = []
            for d in (1, 4, 64, 1024):
                q = Fraction(round(x * d), d)
                if q not in cands:
                    cands.append(q)
            if x in cands[:1] or (x.denominator & (x.denominator - 1)) == 0 and x.denominator <= 1024:
                fixed.append(E.f_atom("eq", Poly.var(v) - Poly.const(x)))
                continue
            ok = False
            for q in cands:
                f = E.f_atom("eq", Poly.var(v) - Poly.const(q))
                r, m = eng.solve(goals + fixed + [f], 1000, full=True)
                if r == "sat":
                    fixed.append(f)
                    vals = self.model_values(eng, m)
                    ok = True
                    break
            if not ok:
                pass
        return vals

    def job(self, S, vals):
        return {"property": self.pid, "harness": self.h.name, "case": self.ci,
                "values": {n: str(v) for n, v in vals.items()}, "choices": dict(S.choices)}

    def try_replay(self, S, label, vals):
        job = self.job(S, vals)
        res = self.replayer(job)
        if res.get("outcome") == "fail" or res.get("outcome") == "hang":
            self.violation = {"job": job, "result": res, "label": label}
            raise Found()
        self.last_replay = res
        return False

    def search(self, S):
        """The path cannot be encoded to its end: look for an input that fails on the real code, from models of the path
        condition so far.  Only ever yields counterexamples; the path stays without a verdict."""
        eng = S.e
        if self.searches >= 6 or not self.opts.get("search", True):
            return
        self.searches += 1
        starts = [{}]
        eng.ensure_samples()
        for env in eng.samples[:6]:
            starts.append({n: Fraction(env[v]).limit_denominator(10**6) for n, (v, *_r) in eng.inputs.items()})
        try:
            r, m = eng.solve(self.input_bounds(eng, 20), 4000, full=True)
            if r == "sat":
                starts.insert(0, self.model_values(eng, m))
        except BaseException:  # noqa: the path may be beyond the solver
            pass
        job = self.job(S, {})
        job["timeout"] = 25
        starts = [{n: str(v) for n, v in vals.items()} for vals in starts]
        job["search"] = {"starts": starts, "seed": self.seed, "seconds": 8,
                         "tries": 20000 if self.searches == 1 else len(starts)}
        res = self.replayer(job)
        if res.get("outcome") != "fail":
            return
        del job["search"], job["timeout"]
        job["values"], job["choices"], job["tol"] = res["values"], res["choices"], 1e-4
        again = self.replayer(job)
        if again.get("outcome") == "fail":
            self.violation = {"job": job, "result": again, "label": again.get("label", "?")}
            raise Found()

    def stalled(self, *_):
        if self.replayer.busy:
            signal.setitimer(signal.ITIMER_REAL, 2, 5)
            return
        raise Unsupported("too much for one path")

    def escaped(self, S, ex):
        """An exception left the code under test on this path."""
        eng = S.e
        key = (type(ex).__name__, where(ex), str(ex)[:80])
        if key in self.exceptions and self.ce_tries > 4:
            return
        self.exceptions.add(key)
        self.ce_tries += 1
        for b in (self.input_bounds(eng, 20), self.input_bounds(eng, 1000), []):
            r, m = eng.solve(b, 8000, full=True)
            if r == "sat":
                vals = self.nice(eng, b, m)
                self.try_replay(S, "exception", vals)
                self.try_replay(S, "exception", self.model_values(eng, m))
                self.unconfirmed.append(f"exception {type(ex).__name__}: {ex} at {where(ex)}")
                return
            if r == "unsat" and not b:
                return
        for env in eng.samples:
            vals = {n: Fraction(env[v]).limit_denominator(10**6) for n, (v, *_r) in eng.inputs.items()}
            self.try_replay(S, "exception", vals)
        self.inconclusive.append(f"exception {type(ex).__name__}: {ex} at {where(ex)}: no verdict")

    def witness(self, S):
        """Reachability: a concrete input for this path, replayed on the real code."""
        eng = S.e
        new = [l for l in self.path_labels if l not in self.witnessed]
        if not new and self.stats.witness >= self.opts.get("witnesses", 6):
            return
        eng.ensure_samples()
        vals = None
        for env in eng.samples:
            if all(f_evalf(f, env) is True for f in eng.pc):
                vals = {n: Fraction(env[v]) for n, (v, *_r) in eng.inputs.items()}
                break
        if vals is None:
            r, m = eng.solve(self.input_bounds(eng, 100), 5000, full=True)
            if r == "unsat":
                r, m = eng.solve([], 5000, full=True)
            if r != "sat":
                return
            vals = self.model_values(eng, m)
        self.stats.witness += 1
        self.witnessed.update(new)
        res = self.replayer(self.job(S, vals))
        if len(self.samples) < 2:
            self.samples.append({"harness": self.h.name, "case": repr(self.case)[:60],
                                 "inputs": {n: float(v) for n, v in list(vals.items())[:14]},
                                 "real_code": res.get("outcome")})
        if res.get("outcome") == "pass":
            self.validated += 1
        else:
            if res.get("outcome") == "fail":
                # the solver's own witness fails on the real code, and by more than rounding
                job = dict(self.job(S, vals), tol=1e-4)
                res = self.replayer(job)
                if res.get("outcome") == "fail" and (plain(vals) or self.replayer(
                        dict(job, persist=res["label"])).get("outcome") == "fail"):
                    self.violation = {"job": job, "result": res, "label": res.get("label", "?")}
                    raise Found()
            self.mismatch.append({"labels": new[:4], "res": res, "job": self.job(S, vals)})

    def result(self):
        st = self.stats
        return {
            "harness": self.h.name, "case": self.ci, "case_repr": repr(self.case)[:80],
            "violation": self.violation, "unconfirmed": sorted(set(map(str, self.unconfirmed)))[:20],
            "inconclusive": sorted(set(self.inconclusive))[:20],
            "labels": self.labels, "unwitnessed": sorted(set(self.labels) - self.witnessed),
            "validated": self.validated, "mismatch": self.mismatch[:5], "nmismatch": len(self.mismatch),
            "samples": self.samples, "funcs": sorted(self.funcs),
            "stats": {"paths": st.paths, "forks": st.forks, "queries": st.queries, "feas": st.feas_queries,
                      "solver_s": round(st.solver_s, 3), "obligations": st.obligations,
                      "discharged": st.discharged, "trivial": st.trivial, "confirmed": st.confirmed, "unknown": st.unknown,
                      "witness": st.witness},
            "wall_s": round(time.time() - self.t0, 2), "longest_path_s": round(self.longest, 2),
        }


def where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(loader.REPO):
            return f"{os.path.relpath(f.filename, loader.REPO)}:{f.name}"
    f = tb[-1] if tb else None
    return f"{os.path.basename(f.filename)}:{f.lineno}" if f else "?"


class Trace:
    """Records which functions of the code under test ran symbolically."""

    def __init__(self, funcs):
        self.funcs = funcs

    def __enter__(self):
        m = sys.monitoring
        self.id = m.PROFILER_ID
        m.use_tool_id(self.id, "sx")
        m.set_events(self.id, m.events.PY_START)
        m.register_callback(self.id, m.events.PY_START, self.cb)
        m.restart_events()

    def cb(self, code, off):
        if code.co_filename.startswith(loader.REPO):
            self.funcs.add(os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.id, 0)
        m.free_tool_id(self.id)
