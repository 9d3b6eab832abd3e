"""C13 Derivatives, tangents and normals are those of the curve."""
from sx.api import harness
from .util import dbern, bern

BOUNDS = ("all real control points, orders 1 to 3 (derivative control points: 1 to 5), float and int kinds; all real "
          "parameters with a non-vanishing derivative; ends of quadratics and cubics with one or two handles on them")


@harness("C13", cases=[(n, k) for n in (1, 2, 3, 4, 5) for k in "fi"])
def derivative_points(S, case):
    n, kind = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1, kind)
    b = B(P)
    want, lvl = [], P
    while len(lvl) > 1:
        m = len(lvl) - 1
        lvl = [(m * (y[0] - x[0]), m * (y[1] - x[1])) for x, y in zip(lvl, lvl[1:])]
        want.append(lvl)
    for _ in range(2):
        S.check("derivative control points", S.eq([[tuple(p) for p in l] for l in b.dcPoints], want))
    S.check("curve unchanged", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)


@harness("C13", cases=[(n, k) for n in (1, 2, 3) for k in "fi"])
def derivative(S, case):
    n, kind = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1, kind)
    t = S.real("t")
    b = B(P)
    for p in (t, 0, 1, t):
        S.check("derivative", S.eq(tuple(b._derivative(p)), dbern(S, P, p)))


@harness("C13", cases=[1, 2, 3])
def second_derivative(S, n):
    """The derivative curve's derivative is the second derivative (difference quotient free form)."""
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t, h = S.real("t"), S.real("h")
    b = B(P)
    d0, d1 = b._derivative(t), b._derivative(t + h)
    dd = b.dcPoints
    if n == 1:
        S.check("constant", S.eq(tuple(d1), tuple(d0)))
    elif n == 2:
        S.check("linear", S.eq((d1[0] - d0[0], d1[1] - d0[1]), (h * dd[1][0][0], h * dd[1][0][1])))
    else:
        e = bern(S, dd[1], t + h / 2)
        S.check("quadratic", S.eq((d1[0] - d0[0], d1[1] - d0[1]), (h * e[0], h * e[1])))


@harness("C13", cases=[(n, w) for n in (1, 2, 3) for w in ("t", "0", "1")])
def directions(S, case):
    n, w = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t = S.real("t") if w == "t" else int(w)
    dx, dy = dbern(S, P, t)
    h2 = dx * dx + dy * dy
    S.assume(S.gt(h2, 0))
    h = S.sqrt(h2)
    b = B(P)
    S.check("unit normal, 90 degrees counter-clockwise", S.And(S.eq(x * h, y) for x, y in zip(b.normal(t), (-dy, dx))))
    S.check("internal normal agrees", S.And(S.eq(x * h, y) for x, y in zip(b._normal(t), (-dy, dx))))
    S.check("unit tangent", S.And(S.eq(x * h, y) for x, y in zip(b._tangent(t), (dx, dy))))


@harness("C13", cases=[(n, k, e) for n, k in ((2, 1), (3, 1), (3, 2)) for e in (0, 1)])
def directions_at_retracted_handles(S, case):
    """Handles on their end point: the normal there is that of the next control point's direction."""
    n, k, e = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1 - k)
    dx, dy = P[1][0] - P[0][0], P[1][1] - P[0][1]
    P = [P[0]] * k + P
    h2 = dx * dx + dy * dy
    S.assume(S.gt(h2, 0))
    h = S.sqrt(h2)
    if e == 1:
        P, dx, dy = P[::-1], -dx, -dy
    S.check("unit normal, 90 degrees counter-clockwise", S.And(S.eq(x * h, y) for x, y in zip(B(P).normal(e), (-dy, dx))))
