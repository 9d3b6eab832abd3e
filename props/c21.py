"""C21 Curve-curve intersection: nothing lost, everything reported is close."""
from sx.api import harness
from .util import bern

BOUNDS = ("bisection to depth one for all pairs of lines that meet (at any parameters) and all thresholds, to depth two "
          "for lines in fixed directions; depth one for monotone quadratics with one free axis and a fixed cubic; lists of two "
          "lines against one; two lines of fixed directions under translation to depth 16; reported pairs of any two lines; self intersections of a fixed loop under translation")
ASSUMPTIONS = ["deeper bisections repeat the step: pieces carry their parameter interval (C12)"]
BUDGET = 500


def through(X, d, t):
    """The line in direction d that is at X at parameter t."""
    return [(X[0] - t * d[0], X[1] - t * d[1]), (X[0] + (1 - t) * d[0], X[1] + (1 - t) * d[1])]


def near(S, got, t, u, w):
    return S.Or(S.And(S.between(a - w, t, a + w), S.between(b - w, u, b + w)) for a, b in got)


def close(S, P, Q, got, thr):
    for a, b in got:
        p, q = bern(S, P, a), bern(S, Q, b)
        S.check("both curves are within twice the threshold there", S.And(
            S.And(S.le(p[i] - q[i], 2 * thr), S.le(q[i] - p[i], 2 * thr)) for i in (0, 1)))
        S.check("parameters of the curves", S.And(S.between(0, a, 1), S.between(0, b, 1)))


def deep(S, d1, d2, thr, n):
    """n bisections bring the first line below the threshold, and not fewer; the second needs no more."""
    k = 1 << n
    S.assume(S.And(S.gt(thr, 0), S.lt(d1[0] + d1[1], k * thr), S.lt(d2[0] + d2[1], k * thr)))
    if n:
        S.assume(S.ge(2 * (d1[0] + d1[1]), k * thr))


def signed(d, s):
    return (s[0] * d[0], s[1] * d[1])


SIGNS = [((1, 1), (1, 1)), ((1, 1), (1, -1)), ((1, 1), (-1, -1)), ((-1, 1), (1, 1))]


@harness("C21", cases=[(0, s) for s in SIGNS[:2]] + [(1, s) for s in SIGNS], max_paths=20000)
def meeting_lines(S, case):
    n, (s1, s2) = case
    B = S.mod("PathLib.Bezier").Bezier
    t, u = S.real("t", 0, 1), S.real("u", 0, 1)
    d1 = (S.real("a1"), S.real("b1"))
    d2 = (S.real("a2"), S.real("b2"))
    thr = S.real("thr")
    S.assume(S.And(S.gt(v, 0) for v in d1 + d2))
    deep(S, d1, d2, thr, n)
    P, Q = through((0, 0), signed(d1, s1), t), through((0, 0), signed(d2, s2), u)
    got = B.pairiteration(B(P), B(Q), thr)
    S.check("the common point is found", near(S, got, t, u, 0.5 / (1 << n)))
    close(S, P, Q, got, thr)


DIRS = [((3, 1), (1, 2)), ((3, 1), (1, -2)), ((0, 4), (4, 0)), ((3, 0), (2, 2)), ((-3, 1), (2, 2))]


@harness("C21", cases=[(2, d) for d in DIRS[:4]],
         thorough=[(2, DIRS[4])] + [(3, d) for d in DIRS[1:4]], weight=5, max_paths=20000)
def meeting_lines_deeper(S, case):
    n, (e1, e2) = case
    B = S.mod("PathLib.Bezier").Bezier
    X = S.point("x")
    t, u = S.real("t", 0, 1), S.real("u", 0, 1)
    P, Q = through(X, e1, t), through(X, e2, u)
    thr = 4.0625 / (1 << n)
    got = B.curveIntersects([B(P)], [B(Q)], thr)
    S.check("the common point is found", near(S, got, t, u, 0.5 / (1 << n)))
    close(S, P, Q, got, thr)


@harness("C21", cases=[0, 1], max_paths=20000)
def any_lines(S, n):
    """Nothing is reported for lines in different places; what is reported is close."""
    B = S.mod("PathLib.Bezier").Bezier
    X = S.point("x")
    d1 = (S.real("a1"), S.real("b1"))
    d2 = (S.real("a2"), S.real("b2"))
    thr = S.real("thr")
    S.assume(S.And(S.gt(v, 0) for v in d1 + d2))
    deep(S, d1, d2, thr, n)
    P, Q = [(0, 0), d1], [X, (X[0] + d2[0], X[1] - d2[1])]
    got = B.curveIntersects([B(P)], [B(Q)], thr)
    close(S, P, Q, got, thr)
    apart = S.Or(S.gt(X[0], d1[0]), S.lt(X[0] + d2[0], 0), S.gt(X[1] - d2[1], d1[1]), S.lt(X[1], 0))
    S.check("nothing for curves in different places", S.Implies(apart, len(got) == 0))


@harness("C21", max_paths=20000)
def lists(S, _):
    """Every pair of curves of the two lists is searched."""
    B = S.mod("PathLib.Bezier").Bezier
    x, y = S.point("x")
    S.assume(S.And(S.between(0, x, 1), S.between(0, y, 1)))
    A = [B([(0, y), (1, y)]), B([(1, y), (5, y)]), B([(5, y), (6, y)])]
    C = [B([(x, 0), (x, 1)]), B([(x + 5, 0), (x + 5, 1)])]
    got = B.curveIntersects(A, C, 1.5)
    S.check("one for each crossing", len(got) >= 2)
    S.check("on the first pair", near(S, got[:-1], x, y, 0.5))
    got = B.curveIntersects(C, A, 1.5)
    S.check("either way round", near(S, got[:-1], y, x, 0.5) if len(got) > 1 else S.Not(S.eq(0, 0)))


@harness("C21", cases=[2, 3], max_paths=20000)
def monotone_curves(S, order):
    """A curve against a vertical line: heights are free, one bisection."""
    B = S.mod("PathLib.Bezier").Bezier
    t, y = S.real("t", 0, 1), S.real("y")
    g = [S.real(f"g{i}") for i in range(order)] if order == 2 else [1, 2, 5]
    if order == 2:
        S.assume(S.And(S.gt(k, 0) for k in g))
    v = [0]
    for k in g:
        v.append(v[-1] + k)
    P = [(i * 4, h) for i, h in enumerate(v)]
    x, h = bern(S, P, t)
    l = S.real("l")
    S.assume(S.And(S.gt(l, 0), S.between(0, y, 1)))
    Q = [(x, h - y * l), (x, h + (1 - y) * l)]
    thr = S.real("thr")
    S.assume(S.And(S.lt(4 * order + sum(g), thr), S.lt(thr, l), S.lt(l, 2 * thr)))
    got = B.pairiteration(B(P), B(Q), thr)
    S.check("the common point is found", near(S, got, t, y, 0.25))


@harness("C21")
def pieces_of_curves(S, _):
    """Intersections of pieces are reported in the parameters of the whole curves."""
    B = S.mod("PathLib.Bezier").Bezier
    a, b, c, d = [S.real(n, 0, 1) for n in "abcd"]
    S.assume(S.And(S.lt(0, a), S.lt(a, b), S.lt(b, 1), S.lt(0, c), S.lt(c, d), S.lt(d, 1)))
    p = B([(0, 0), (2, 3), (5, 1), (9, 8)]).split(a, b)
    q = B([(0, 4), (2, 3), (9, -2)]).split(c, d)
    S.stub(B, "boundsRectangle", property(lambda s: S.mod("PathLib.PathUtilities").BoundsRectangle((0, 0), (1, 1))))
    got = B.pairiteration(p, q, 1000)
    S.check("the middles of the intervals", S.eq([tuple(r) for r in got], [((a + b) / 2, (c + d) / 2)]))


@harness("C21", cases=[((3, 1), (1, -2)), ((-3, 1), (1, 2))])
def intersects(S, case):
    e1, e2 = case
    B = S.mod("PathLib.Bezier").Bezier
    X = S.point("x")
    t, u = S.real("t", 0, 1), S.real("u", 0, 1)
    P, Q = through(X, e1, t), through(X, e2, u)
    got = B(P).intersects(B(Q), 2.0625)
    S.check("the common point is found", near(S, got, t, u, 0.25))
    close(S, P, Q, got, 2.0625)


LOOP = [(0, 0), (30, 24), (-21, 24), (9, 0)]
WIDE_LOOP = [(0, 0), (60, 24), (-51, 24), (9, 0)]  # of more pieces


@harness("C21", cases=["loop", "wide"])
def self_intersection(S, kind):
    """A loop under translation: the crossing is found from both sides, nothing else is."""
    B = S.mod("PathLib.Bezier").Bezier
    u, v = S.point("o")
    P = [(x + u, y + v) for x, y in (LOOP if kind == "loop" else WIDE_LOOP)]
    b = B(P)
    got = b.intersects(None, 0.5)
    S.check("the crossing is found", len(got) > 0)
    for a, c in got:
        p, q = bern(S, P, a), bern(S, P, c)
        S.check("different parameters", S.gt(c - a, 0.25))
        S.check("the curve is within twice the threshold of itself there", S.And(
            S.And(S.le(p[i] - q[i], 1), S.le(q[i] - p[i], 1)) for i in (0, 1)))


@harness("C21")
def a_sharp_curve(S, _):
    """A curve that turns sharply crossed by another, at any place: found on both sides of the bend."""
    B = S.mod("PathLib.Bezier").Bezier
    u, v = S.point("o")
    P = [(x + u, y + v) for x, y in ((0, 0), (40, 1), (3, 0))]
    Q = [(x + u, y + v) for x, y in ((10, -1), (10.5, 2), (11, 4))]
    got = B(P).intersects(B(Q), 1)
    S.check("two crossings are found", len(got) >= 2)
    for a, c in got:
        p, q = bern(S, P, a), bern(S, Q, c)
        S.check("the curves are within twice the threshold of each other there", S.And(
            S.And(S.le(p[i] - q[i], 2), S.le(q[i] - p[i], 2)) for i in (0, 1)))


@harness("C21", cases=[((3, 1), (1, 2)), ((-3, 1), (2, 2)), ((0, 4), (4, 1))], max_paths=20000)
def to_great_depth(S, dirs):
    """Long lines and a small threshold."""
    e1, e2 = dirs
    B = S.mod("PathLib.Bezier").Bezier
    X = S.point("x")
    t, u = S.q(3, 7), S.q(5, 11)
    P, Q = through(X, [10**5 * k for k in e1], t), through(X, [10**5 * k for k in e2], u)
    got = B.curveIntersects([B(P)], [B(Q)], 8)
    S.check("the common point is found", near(S, got, t, u, S.q(1, 10**4)))
    close(S, P, Q, got, 8)
