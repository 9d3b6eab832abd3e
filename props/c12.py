"""C12 Splitting reparametrises the curve exactly."""
from sx.api import harness
from .util import bern

BOUNDS = ("all control points, orders 1 to 3; all split parameters strictly between 0 and 1 (t1 < t2), plus the ends "
          "t1 = 0 and t2 = 1, and all other pairs of parameters (either order, beyond the ends) other than t1 = 1 and "
          "t1 = t2 (but for 0); up to two nested splits")


def curve(S, n, kind="f"):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1, kind)
    return B(P), P


def traces(S, piece, P, a, b, label):
    u = S.real("u")
    t = a + u * (b - a)
    S.check(label, S.eq(bern(S, [tuple(p) for p in piece.controlPoints], u), bern(S, P, t)))


def interval(S, piece, a, b, label):
    S.check(label + " knows its interval", S.And(S.eq(piece._t1, a), S.eq(piece._t2, b)))


@harness("C12", cases=[(n, k) for n in (1, 2, 3) for k in "fi"])
def in_two(S, case):
    n, kind = case
    c, P = curve(S, n, kind)
    t = S.real("t", 0, 1)
    S.assume(S.And(S.lt(0, t), S.lt(t, 1)))
    left, right, q = c.split(t)
    traces(S, left, P, 0, t, "left piece traces [0,t]")
    traces(S, right, P, t, 1, "right piece traces [t,1]")
    interval(S, left, 0, t, "left piece")
    interval(S, right, t, 1, "right piece")
    S.check("orders", left.order == n and right.order == n)
    S.check("the hull is returned", S.eq(tuple(q[-1]), bern(S, P, t)))
    S.check("original unchanged", S.And(S.eq([tuple(p) for p in c.controlPoints], P), S.eq(c._t1, 0),
                                        S.eq(c._t2, 1)), exact=True)


@harness("C12", cases=[(n, w) for n in (1, 2, 3) for w in ("half", "ends")])
def at_special_parameters(S, case):
    n, w = case
    c, P = curve(S, n)
    if w == "half":
        left, right, q = c.split(0.5)
        h = S.q(1, 2)
        traces(S, left, P, 0, h, "left half")
        traces(S, right, P, h, 1, "right half")
        interval(S, left, 0, h, "left half")
        interval(S, right, h, 1, "right half")
    else:
        left, right, q = c.split(0)
        traces(S, right, P, 0, 1, "all of it")
        left, right, q = c.split(1)
        traces(S, left, P, 0, 1, "all of it, left")
        traces(S, c.split(0, 1), P, 0, 1, "from 0 to 1")


@harness("C12", cases=[1, 2, 3])
def between(S, n):
    c, P = curve(S, n)
    a, b = S.real("a", 0, 1), S.real("b", 0, 1)
    S.assume(S.And(S.lt(0, a), S.lt(a, b), S.lt(b, 1)))
    piece = c.split(a, b)
    traces(S, piece, P, a, b, "piece traces [a,b]")
    interval(S, piece, a, b, "piece")
    piece = c.split(0, b)
    traces(S, piece, P, 0, b, "piece traces [0,b]")
    interval(S, piece, 0, b, "first piece")
    piece = c.split(a, 1)
    traces(S, piece, P, a, 1, "piece traces [a,1]")
    interval(S, piece, a, 1, "last piece")
    S.check("original unchanged", S.eq([tuple(p) for p in c.controlPoints], P), exact=True)


@harness("C12", cases=[(n, w) for n in (1, 2, 3) for w in ("left", "right", "between")])
def nested(S, case):
    n, w = case
    c, P = curve(S, n)
    t, s = S.real("t", 0, 1), S.real("s", 0, 1)
    S.assume(S.And(S.lt(0, t), S.lt(t, 1), S.lt(0, s), S.lt(s, 1)))
    if w == "between":
        r = S.real("r", 0, 1)
        S.assume(S.And(S.lt(s, r), S.lt(r, 1)))
        piece = c.split(t)[1].split(s, r)
        a, b = t + s * (1 - t), t + r * (1 - t)
        traces(S, piece, P, a, b, "piece of the piece")
        interval(S, piece, a, b, "piece of the piece")
        return
    a, b = (0, t) if w == "left" else (t, 1)
    part = c.split(t)[0 if w == "left" else 1]
    l, r, q = part.split(s)
    m = a + s * (b - a)
    traces(S, l, P, a, m, "left piece of the piece")
    traces(S, r, P, m, b, "right piece of the piece")
    interval(S, l, a, m, "left piece of the piece")
    interval(S, r, m, b, "right piece of the piece")
    interval(S, part, a, b, "the piece, still")


@harness("C12", cases=[2, 3])
def given_interval(S, n):
    """A piece with any interval bookkeeping: one step from an arbitrary state."""
    c, P = curve(S, n)
    a, b, s = S.real("a"), S.real("b"), S.real("s", 0, 1)
    S.assume(S.And(S.lt(a, b), S.lt(0, s), S.lt(s, 1)))
    c._t1, c._t2 = a, b
    l, r, q = c.split(s)
    interval(S, l, a, a + s * (b - a), "left piece of a piece")
    interval(S, r, a + s * (b - a), b, "right piece of a piece")


@harness("C12", cases=[(n, w) for n in (1, 2, 3) for w in ("any", "backwards", "before", "half")])
def anywhere(S, case):
    """The part between any two parameters, in either order, also beyond the ends of the curve."""
    n, w = case
    c, P = curve(S, n)
    b = S.real("t2")
    a = 0.5 if w == "half" else S.real("t1")
    S.assume(S.And(S.ne(b, 0), S.ne(b, 1), S.ne(b, a)))
    if w != "half":
        S.assume(S.And(S.ne(a, 0), S.ne(a, 1)))
    if w == "backwards":
        S.assume(S.lt(b, a))
    if w == "before":
        S.assume(S.And(S.lt(a, 0), S.lt(b, 0)))
    piece = c.split(a, b)
    S.check("the part is a curve", hasattr(piece, "controlPoints"))
    traces(S, piece, P, S.q(1, 2) if w == "half" else a, b, "from t1 to t2")


@harness("C12", cases=[1, 2, 3])
def in_two_anywhere(S, n):
    c, P = curve(S, n)
    t = S.real("t")
    left, right, q = c.split(t)
    traces(S, left, P, 0, t, "left piece traces [0,t]")
    traces(S, right, P, t, 1, "right piece traces [t,1]")


@harness("C12", cases=[(n, w) for n in (1, 2, 3) for w in ("back", "none", "float")])
def to_the_start(S, case):
    """The part from anywhere back to the start."""
    n, w = case
    c, P = curve(S, n)
    a = S.real("t1") if w == "back" else 0
    if w == "back":
        S.assume(S.And(S.ne(a, 0), S.ne(a, 1)))
    piece = c.split(a, 0.0 if w == "float" else 0)
    S.check("the part is a curve", hasattr(piece, "controlPoints"))
    traces(S, piece, P, a, 0, "from t1 to the start")
