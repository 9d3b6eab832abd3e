"""C16 Intersections of a curve with a line are complete and sound."""
from sx.api import harness
from .util import bern, cross, sub

BOUNDS = ("the axis: all lines and quadratics; all cubics, written as scale d (|d| > 1e-6, or d = 0, or |d| <= 1e-6 within 2e-6), "
          "shift a and Cardano's parameters (one real root: u, v; three real roots: radius m and angle; double root), "
          "except discriminants within 1e-6 (relative) of zero; any line through two points: all lines and quadratics, "
          "cubics of a one-parameter family; segments: lines and quadratics against all points of a line")

EPS = 1e-6


def bez(S, ys, xs=(0, 3, 5, 9)):
    return S.mod("PathLib.Bezier").Bezier([(x, y) for x, y in zip(xs, ys)])


def y_at(S, ys, t):
    return bern(S, [(0, y) for y in ys], t)[1]


def in_range(S, t):
    return S.between(S.q(-1, 10**6), t, S.q(1000001, 10**6))


def sound_roots(S, b, ys, roots, tol=None):
    S.check("a list", isinstance(roots, list))
    for t in roots:
        S.check("in [0,1]", in_range(S, t))
        if tol is None:
            S.check("the curve is on the axis there", S.eq(y_at(S, ys, t), 0))
        else:
            S.check("the curve is near the axis there", S.between(-tol, y_at(S, ys, t), tol))


@harness("C16")
def quadratic_sound(S, _):
    y = [S.real(f"y{i}") for i in range(3)]
    b = bez(S, y)
    sound_roots(S, b, y, b.roots())


@harness("C16", cases=["root", "roots"])
def quadratic_complete(S, w):
    r = S.real("r", 0, 1)
    be = S.real("be")
    if w == "root":
        S.assume(S.ne(be, 0))
        al = 0
    else:
        al = S.real("al")
        S.assume(S.And(S.ne(al, 0), S.ne(al * r + be, 0)))
    # y = (t - r)(al t + be)
    c0, c1, c2 = -r * be, be - al * r, al
    y = [c0, c0 + c1 / 2, c0 + c1 + c2]
    b = bez(S, y)
    roots = b.roots()
    S.check("the crossing is reported", S.Or(S.eq(t, r) for t in roots))
    sound_roots(S, b, y, roots)


def bernstein(d, A, B, C):
    """Control values of d (t^3 + A t^2 + B t + C)."""
    y0 = d * C
    y1 = y0 + d * B / 3
    y2 = 2 * y1 - y0 + d * A / 3
    y3 = d - 3 * y1 + 3 * y2 + y0
    return [y0, y1, y2, y3]


def cardano(S, d, a, p3, q2):
    """Control values of the cubic with the depressed form x^3 + 3 p3 x + 2 q2, x = t + a/3."""
    B = 3 * p3 + a * a / 3
    C = 2 * q2 - 2 * a * a * a / 27 + a * B / 3
    return bernstein(d, a, B, C)


@harness("C16")
def cubic_one_root(S, _):
    d, a, u, v = S.real("d"), S.real("a"), S.real("u"), S.real("v")
    S.assume(S.Or(S.gt(d, S.q(1, 10**6)), S.lt(d, S.q(-1, 10**6))))
    S.assume(S.gt(u + v, 0))
    q2 = (v * v * v - u * u * u) / 2
    s2 = (u * u * u + v * v * v) / 2
    S.assume(S.gt(s2 * s2, q2 * q2 * S.q(1, 10**6)))
    y = cardano(S, d, a, u * v, q2)
    b = bez(S, y)
    roots = b.roots()
    r = u - v - a / 3
    sound_roots(S, b, y, roots)
    S.check("the crossing is reported", S.Implies(S.between(0, r, 1), S.Or(S.eq(t, r) for t in roots)))
    S.check("once", len(roots) <= 1)


@harness("C16")
def cubic_three_roots(S, _):
    d, a, m = S.real("d"), S.real("a"), S.real("m")
    S.assume(S.Or(S.gt(d, S.q(1, 10**6)), S.lt(d, S.q(-1, 10**6))))
    c, s = S.direction("w")
    S.assume(S.And(S.gt(m, 0), S.gt(s, 0), S.gt(2 * c, 1)))
    q2 = -m * m * m * (4 * c * c * c - 3 * c)
    y = cardano(S, d, a, -m * m, q2)
    b = bez(S, y)
    roots = b.roots()
    sound_roots(S, b, y, roots)
    k = S.sqrt(3)
    for x in (2 * m * c, -m * c + m * k * s, -m * c - m * k * s):
        r = x - a / 3
        S.check("each crossing is reported", S.Implies(S.between(0, r, 1), S.Or(S.eq(t, r) for t in roots)))


@harness("C16")
def cubic_double_root(S, _):
    d, a, w = S.real("d"), S.real("a"), S.real("w")
    S.assume(S.Or(S.gt(d, S.q(1, 10**6)), S.lt(d, S.q(-1, 10**6))))
    # x^3 - 3 w^2 x - 2 w^3 = (x - 2 w)(x + w)^2
    y = cardano(S, d, a, -w * w, -w * w * w)
    b = bez(S, y)
    roots = b.roots()
    sound_roots(S, b, y, roots)
    for x in (2 * w, -w):
        r = x - a / 3
        S.check("crossing and contact are reported", S.Implies(S.between(0, r, 1), S.Or(S.eq(t, r) for t in roots)))


@harness("C16", cases=["exact", "small", "linear", "constant"])
def cubic_of_lower_degree(S, w):
    r, be = S.real("r", 0, 1), S.real("be")
    al = 0 if w in ("linear", "constant") else S.real("al")
    d = S.real("d", -0.0000009, 0.0000009) if w == "small" else 0
    if w == "constant":
        c0, c1, c2 = be, 0, 0
        S.assume(S.ne(be, 0))
    else:
        c0, c1, c2 = -r * be, be - al * r, al
        if w != "linear":
            S.assume(S.Or(S.gt(al, S.q(2, 10**6)), S.lt(al, S.q(-2, 10**6))))
        else:
            S.assume(S.Or(S.gt(be, S.q(2, 10**6)), S.lt(be, S.q(-2, 10**6))))
    y0 = c0
    y1 = y0 + c1 / 3
    y2 = 2 * y1 - y0 + c2 / 3
    y3 = d - 3 * y1 + 3 * y2 + y0 if True else 0
    y3 = y0 + 3 * (y2 - y1) + d
    y = [y0, y1, y2, y3]
    b = bez(S, y)
    roots = b.roots()
    if w == "small":
        sound_roots(S, b, y, roots, S.q(2, 10**6))
    else:
        sound_roots(S, b, y, roots)
    if w in ("exact", "linear"):
        S.check("the crossing is reported", S.Or(S.eq(t, r) for t in roots))


def frame(S):
    """A line through two points: origin o, direction (c, s), distance l."""
    o = S.point("o")
    c, s = S.direction("w")
    l = S.real("l")
    S.assume(S.gt(l, 0))
    return o, (c, s), [o, (o[0] + l * c, o[1] + l * s)]


def at(o, n, u, w):
    """The point at u along the line and w to its left."""
    return (o[0] + u * n[0] - w * n[1], o[1] + u * n[1] + w * n[0])


def curve_on(S, o, n, ws, us=None):
    us = us or [S.real(f"u{i}") for i in range(len(ws))]
    return S.mod("PathLib.Bezier").Bezier([at(o, n, u, w) for u, w in zip(us, ws)])


@harness("C16", cases=[(1, 2, 3), (1, 4, 4.5), (2, 6, 11), (-3, 4, 20), (-2, -1, 5), (1, 1.5, 12), (-6, 7, 7.5)],
         thorough=[(0, 3, 8), (0.5, 5, 10), (-1, 3, 11), (-9, -5, 2.5), (9, 9.5, 9.75), (-40, 5, 90)])
def cubic_with_roots(S, case):
    """A cubic with three known roots (tenths), of any size, run through at any height."""
    r = [S.q(int(4 * x), 40) for x in case]
    d = S.real("d")
    S.assume(S.Or(S.gt(d, S.q(1, 10**5)), S.lt(d, S.q(-1, 10**5))))
    y = bernstein(d, -(r[0] + r[1] + r[2]), r[0] * r[1] + r[0] * r[2] + r[1] * r[2], -r[0] * r[1] * r[2])
    b = bez(S, y)
    roots = b.roots()
    inside = [x for x, c in zip(r, case) if 0 <= c <= 10]
    S.check("as many as lie in [0,1]", len(roots) == len(inside))
    for x in inside:
        S.check("each of them is reported", S.Or(S.between(-S.q(1, 10**6), t - x, S.q(1, 10**6)) for t in roots))


@harness("C16", cases=[(5, 2, 3), (1, 9, 1), (8, -4, 6), (-1, 5, 2), (0.5, 5, 20)], thorough=[(9, 9, 1), (12, 5, 4), (3, 30, 2)])
def cubic_with_one_root(S, case):
    """(t - r)((t - p)^2 + q^2), of any size."""
    r, p, q = [S.q(int(4 * x), 40) for x in case]
    d = S.real("d")
    S.assume(S.Or(S.gt(d, S.q(1, 10**5)), S.lt(d, S.q(-1, 10**5))))
    m = p * p + q * q
    y = bernstein(d, -(r + 2 * p), m + 2 * p * r, -r * m)
    roots = bez(S, y).roots()
    if 0 <= case[0] <= 10:
        S.check("reported, and no other", S.And(len(roots) == 1, S.And(
            S.between(-S.q(1, 10**6), t - r, S.q(1, 10**6)) for t in roots)))
    else:
        S.check("none", len(roots) == 0)


@harness("C16")
def any_line_quadratic(S, _):
    o, n, line = frame(S)
    w = [S.real(f"y{i}") for i in range(3)]
    b = curve_on(S, o, n, w)
    sound_roots(S, b, w, b.roots(line))


@harness("C16")
def any_line_quadratic_complete(S, _):
    o, n, line = frame(S)
    r, be, al = S.real("r", 0, 1), S.real("be"), S.real("al")
    S.assume(S.And(S.ne(al, 0), S.ne(al * r + be, 0)))
    c0, c1, c2 = -r * be, be - al * r, al
    w = [c0, c0 + c1 / 2, c0 + c1 + c2]
    b = curve_on(S, o, n, w, (1, 4, -2))
    S.check("the crossing is reported", S.Or(S.eq(t, r) for t in b.roots(line)))


@harness("C16")
def any_line_cubic(S, _):
    o, n, line = frame(S)
    d, a, w = 2, S.real("a"), S.real("w0")
    y = cardano(S, d, a, -w * w, -w * w * w)
    b = curve_on(S, o, n, y, (1, 4, -2, 7))
    roots = b.roots(line)
    sound_roots(S, b, y, roots)
    for x in (2 * w, -w):
        r = x - a / 3
        S.check("crossing and contact are reported", S.Implies(S.between(0, r, 1), S.Or(S.eq(t, r) for t in roots)))


LINES = {"h": (1, 0), "v": (0, 1), "d": (0.75, -0.5), "-h": (-2, 0)}


@harness("C16", cases=[(w, p) for w in ("h", "v", "d", "-h") for p in ("in", "near", "off")])
def segment(S, case):
    """A curve crossing the line once, at r: reported if and (within tolerance) only if that is on the segment."""
    w, place = case
    B = S.mod("PathLib.Bezier").Bezier
    n = LINES[w]
    o = S.point("o")
    l, r = S.real("l"), S.real("r", 0, 1)
    S.assume(S.gt(l, 0))
    # w(t) = t - r; u(t) = u0 + 2 t (1 - t) + t^2 u2
    u0 = S.real("u0")
    ws, us = [-r, S.q(1, 2) - r, 1 - r], [u0, u0 + 1, u0 + 3]
    P = [at(o, n, a, b) for a, b in zip(us, ws)]
    x = u0 + 2 * r + r * r
    line = (o, (o[0] + l * n[0], o[1] + l * n[1]))
    b = B(P)
    if place == "in":
        S.assume(S.between(0, x, l))
        got = b.lineIntersects(line)
        S.check("the crossing on the segment is reported", len(got) == 1)
        S.check("where it is", S.And(S.eq(t, r) for t in got))
    elif place == "off":
        m = S.q(1, 10**5)
        S.assume(S.Or(S.lt(x, -m), S.gt(x, l + m)))
        got = b.lineIntersects(line)
        S.check("no crossing off the segment is reported", len(got) == 0)
    else:
        got = b.lineIntersects(line)
        S.check("at most the crossing is reported", S.And(S.eq(t, r) for t in got))
        S.check("the segment's line is the one asked for", S.eq(b.roots(line), [r]))


@harness("C16")
def line_curve(S, _):
    """intersectWithLine gives a point of the curve on the line, if there is one."""
    o, n, line = frame(S)
    w = [S.real(f"y{i}") for i in range(3)]
    us = (1, 4, -2)
    b = curve_on(S, o, n, w, us)
    p = b.intersectWithLine(S.mod("PathLib.Bezier").Bezier(line))
    roots = b.roots(line)
    if p is None:
        S.check("only without crossings", len(roots) == 0)
        return
    S.check("there are crossings", len(roots) > 0)
    tol = S.q(1, 1000)
    S.check("a point of the curve where it crosses, or the end next to it", S.Or(
        S.Or(S.eq(tuple(p), at(o, n, *bern(S, list(zip(us, w)), t))) for t in roots),
        S.And(S.eq(tuple(p), at(o, n, us[0], w[0])), S.Or(S.lt(t, 0) for t in roots)),
        S.And(S.eq(tuple(p), at(o, n, us[2], w[2])), S.Or(S.gt(t, 1) for t in roots))))


@harness("C16")
def line_with_line(S, _):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", 4)
    a, b = B(P[:2]), B(P[2:])
    u, v = sub(P[1], P[0]), sub(P[3], P[2])
    p = a.intersectWithLine(b)
    if p is None:
        S.check("only if parallel", S.eq(cross(u, v), 0))
    else:
        S.check("on both lines", S.And(S.eq(cross(sub(p, P[0]), u), 0), S.eq(cross(sub(p, P[2]), v), 0)))


@harness("C16", cases=[(w, k) for w in ("h", "v") for k in (1, -1)])
def two_crossings(S, case):
    """Exactly the crossings on the segment are kept, whichever end it starts from."""
    w, k = case
    B = S.mod("PathLib.Bezier").Bezier
    n = LINES[w]
    o = (2, 3)
    r1, r2 = S.real("r1", 0, 1), S.real("r2", 0, 1)
    a, e = S.real("a"), S.real("e")
    S.assume(S.And(S.lt(r1, r2), S.lt(a, e)))
    m = S.q(1, 10**5)
    S.assume(S.And(S.Or(S.between(a, r, e), S.lt(r, a - m), S.gt(r, e + m)) for r in (r1, r2)))
    ws = [r1 * r2, r1 * r2 - (r1 + r2) / 2, (1 - r1) * (1 - r2)]
    b = B([at(o, n, u, x) for u, x in zip((0, 0.5, 1), ws)])
    ends = [at(o, n, a, 0), at(o, n, e, 0)]
    got = b.lineIntersects(tuple(ends[::k]))
    for r in (r1, r2):
        S.check("reported exactly when on the segment", S.iff(S.between(a, r, e), S.Or(S.eq(t, r) for t in got)))
    for t in got:
        S.check("nothing else", S.Or(S.eq(t, r1), S.eq(t, r2)))


@harness("C16", cases=["axis", "line"])
def roots_of_a_line(S, w):
    """Lines are curves too."""
    y = [S.real("y0"), S.real("y1")]
    if w == "axis":
        b, line = bez(S, y, (0, 3)), None
    else:
        o, n, line = frame(S)
        b = curve_on(S, o, n, y, (1, 4))
    roots = b.roots(line) if line else b.roots()
    sound_roots(S, b, y, roots)
    S.check("at most one", len(roots) <= 1)
    crosses = S.And(S.ne(y[0], y[1]), S.Or(S.And(S.le(y[0], 0), S.le(0, y[1])), S.And(S.le(y[1], 0), S.le(0, y[0]))))
    S.check("a crossing is reported", S.Implies(crosses, len(roots) == 1))


@harness("C16", cases=["h", "v", "d", "-h"])
def line_on_segment(S, w):
    """A line and a segment: the crossing is reported exactly when both reach it."""
    B = S.mod("PathLib.Bezier").Bezier
    n = LINES[w]
    o = (2, 3)
    r, x = S.real("r", 0, 1), S.real("x")
    m = S.q(1, 10**5)
    S.assume(S.Or(S.between(0, x, 1), S.lt(x, -m), S.gt(x, 1 + m)))
    b = B([at(o, n, x - r, -r), at(o, n, x - r + 1, 1 - r)])
    got = b.lineIntersects((o, (o[0] + n[0], o[1] + n[1])))
    S.check("reported exactly when on the segment", S.iff(S.between(0, x, 1), len(got) == 1))
    S.check("where it is", S.And(S.eq(t, r) for t in got))
