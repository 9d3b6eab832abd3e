"""C20 Offsetting moves points along the normal; scaling keeps end tangents."""
from sx.api import harness
from .util import bern, dbern, cross, sub, dot

BOUNDS = ("point offsets: all curves of order 1 to 3 and parameters with non-vanishing derivative, all distances; "
          "lines; scaling: all simple quadratics and cubics given by their end normals (not parallel), handle lengths "
          "and ends, all distances, constant or given by a function, cubics with a retracted handle by constants; offsetting curves: fixed quadratics and cubics "
          "under a free translation, against the scaled reduced pieces")


@harness("C20", cases=[(n, w) for n in (1, 2, 3) for w in ("t", "0", "1")])
def point_offset(S, case):
    n, w = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t = S.real("t") if w == "t" else int(w)
    d = S.real("d")
    D = dbern(S, P, t)
    S.assume(S.gt(dot(D, D), 0))
    h = S.sqrt(dot(D, D))
    c, nv, o = B(P).offset(t, d)
    want = bern(S, P, t)
    S.check("the point", S.eq(tuple(c), want))
    S.check("the unit normal", S.And(S.eq(nv[0] * h, -D[1]), S.eq(nv[1] * h, D[0])))
    S.check("at the distance along the normal", S.And(S.eq((o[0] - want[0]) * h, -d * D[1]),
                                                      S.eq((o[1] - want[1]) * h, d * D[0])))


@harness("C20", cases=[1, 2, 3])
def zero_distance(S, n):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t = S.real("t")
    D = dbern(S, P, t)
    S.assume(S.gt(dot(D, D), 0))
    for z in (0, 0.0):
        r = B(P).offset(t, z)
        S.check("a point offset", len(r) == 3)
        S.check("at the point itself", S.And(S.eq(tuple(r[2]), bern(S, P, t)), S.eq(tuple(r[0]), bern(S, P, t))))


@harness("C20", cases=[2, 3])
def straight(S, n):
    """Straight curves of higher order are offset like lines."""
    B = S.mod("PathLib.Bezier").Bezier
    o = S.point("o")
    c, s = S.direction("w")
    l, d = S.real("l"), S.real("d")
    S.assume(S.gt(l, 0))
    us = [0, 1, 3, 4][:n] + [4]
    P = [(o[0] + u * l * c, o[1] + u * l * s) for u in us]
    r = B(P).offset(d)
    S.check("one curve", len(r) == 1)
    S.check("moved parallel by the distance", S.eq([tuple(q) for q in r[0].controlPoints], [(x - d * s, y + d * c) for x, y in P]))


@harness("C20")
def line(S, _):
    B = S.mod("PathLib.Bezier").Bezier
    o = S.point("o")
    c, s = S.direction("w")
    l, d = S.real("l"), S.real("d")
    S.assume(S.gt(l, 0))
    P = [o, (o[0] + l * c, o[1] + l * s)]
    r = B(P).offset(d)
    S.check("one line", len(r) == 1)
    S.check("moved parallel by the distance", S.eq([tuple(q) for q in r[0].controlPoints], [(x - d * s, y + d * c) for x, y in P]))


def ends(S, order):
    """A curve given by its end directions and handle lengths, a cubic also by the point its end normals meet in."""
    o = S.point("o")
    c, s = S.direction("w")
    S.assume(S.ne(s, 0))
    d0, d1 = (1, 0), (c, s)
    a, b = S.real("a"), S.real("b")
    S.assume(S.And(S.gt(a, 0), S.gt(b, 0)))
    # never so for simple curves: an end is the point to scale from
    if order == 2:
        S.assume(S.And(S.ne(a + b * c, 0), S.ne(b + a * c, 0)))
        return [o, (o[0] + a, o[1]), (o[0] + a + b * c, o[1] + b * s)], d0, d1
    r0, r1 = S.real("r0"), S.real("r1")
    S.assume(S.And(S.ne(r0, 0), S.ne(r1, 0)))
    P = [(o[0], o[1] - r0), (o[0] + a, o[1] - r0)]
    e = (o[0] + r1 * s, o[1] - r1 * c)
    P.append((e[0] - b * c, e[1] - b * s))
    return P + [e], d0, d1


def normal(d):
    return (-d[1], d[0])


def moved(p, d, k):
    n = normal(d)
    return (p[0] + k * n[0], p[1] + k * n[1])


@harness("C20", cases=[2, 3])
def scale(S, order):
    B = S.mod("PathLib.Bezier").Bezier
    P, d0, d1 = ends(S, order)
    k = S.real("k")
    b = B(P)
    r, ex = S.call(b.scale, k, raises=(ValueError,))
    if ex is not None:
        S.check("fails only for parallel normals", S.eq(cross(d0, d1), 0))
        return
    q = [tuple(p) for p in r.controlPoints]
    S.check("same order", r.order == order)
    S.check("start moves by the distance along its normal", S.eq(q[0], moved(P[0], d0, k)))
    S.check("end moves by the distance along its normal", S.eq(q[-1], moved(P[-1], d1, k)))
    S.check("start tangent keeps its direction", S.eq(cross(sub(q[1], q[0]), d0), 0))
    if order == 3:
        S.check("end tangent keeps its direction", S.eq(cross(sub(q[-1], q[-2]), d1), 0))
    S.check("original unchanged", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)


@harness("C20", cases=[2, 3])
def scale_nothing(S, order):
    """Scaling by zero gives the same curve."""
    B = S.mod("PathLib.Bezier").Bezier
    P, d0, d1 = ends(S, order)
    r, ex = S.call(B(P).scale, 0, raises=(ValueError,))
    if ex is None:
        S.check("same curve", S.eq([tuple(p) for p in r.controlPoints], P))


@harness("C20")
def scale_parallel_normals(S, _):
    """Without an origin to scale from there is an error, not a wrong curve."""
    B = S.mod("PathLib.Bezier").Bezier
    o, e = S.point("o"), S.point("e")
    a, b, k = S.real("a"), S.real("b"), S.real("k")
    S.assume(S.And(S.gt(a, 0), S.ne(b, 0)))
    r, ex = S.call(B([o, (o[0] + a, o[1]), (e[0] - b, e[1]), e]).scale, k, raises=(ValueError,))
    S.check("refused", ex is not None)


@harness("C20", cases=[2, 3])
def scale_by_function(S, order):
    B = S.mod("PathLib.Bezier").Bezier
    P, d0, d1 = ends(S, order)
    k0, k1 = S.real("k0"), S.real("k1")

    def distance(t):
        return k0 + (k1 - k0) * t

    b = B(P)
    if order == 3:
        # the origin must be off the handles
        S.assume(S.And(S.ne(P[1][0], P[2][0])))
    r, ex = S.call(b.scale, distance, raises=(ValueError, ZeroDivisionError))
    if ex is not None:
        return
    q = [tuple(p) for p in r.controlPoints]
    S.check("ends move by the function's values there", S.And(S.eq(q[0], moved(P[0], d0, k0)),
                                                              S.eq(q[-1], moved(P[-1], d1, k1))))
    S.check("a cubic", r.order == 3)


@harness("C20", cases=[(n, side) for n in (2, 3) for side in (1, -1)])
def handles_by_function(S, case):
    """The handles move away from the meeting point of the end normals, or towards it, by the function's values."""
    order, side = case
    B = S.mod("PathLib.Bezier").Bezier
    P, d0, d1 = ends(S, order)
    k0, k1 = S.real("k0"), S.real("k1")
    turn = cross(sub(P[-1], P[0]), sub(P[1], P[0]))
    S.assume(S.gt(turn * side, 0))
    if order == 2:
        c, s = d1
        o = (P[0][0], P[2][1] + (P[2][0] - P[0][0]) * c / s)
        H = [P[0], tuple((P[0][i] + 2 * P[1][i]) / 3 for i in (0, 1)),
             tuple((2 * P[1][i] + P[2][i]) / 3 for i in (0, 1)), P[2]]
    else:
        o = (P[0][0], P[0][1] + S.real("r0"))
        H = P
    for h in H[1:3]:
        S.assume(S.Or(S.ne(h[0], o[0]), S.ne(h[1], o[1])))
    r = B(P).scale(lambda t: k0 + (k1 - k0) * t)
    q = [tuple(p) for p in r.controlPoints]
    for i in (1, 2):
        k = k0 + (k1 - k0) * i / 3
        m, h = sub(q[i], H[i]), sub(H[i], o)
        S.check("on the line to the meeting point", S.eq(cross(m, h), 0))
        S.check("by the function's value", S.eq(m[0] * m[0] + m[1] * m[1], k * k))
        S.check("to the side the curve bulges to", S.ge((m[0] * h[0] + m[1] * h[1]) * k * side, 0))


@harness("C20", cases=[2, 3])
def offset_curve(S, n):
    """Offsetting a curve gives its reduced pieces, each scaled; ends move along the normals."""
    B = S.mod("PathLib.Bezier").Bezier
    u, v = S.point("o")
    d = S.real("d", -1, 1)
    F = {2: [(0, 0), (2, 3), (6, 1)], 3: [(0, 0), (2, 3), (5, -2), (9, 1)]}[n]
    P = [(x + u, y + v) for x, y in F]
    b = B(P)
    pieces = b.reduce()
    out = b.offset(d)
    S.check("one for each piece", len(out) == len(pieces) and len(out) > 0)
    for p, r in zip(pieces, out):
        S.check("ends are point offsets", S.And(
            S.eq(tuple(r.controlPoints[i]), tuple(p.offset(k, d)[2])) for i, k in ((0, 0), (-1, 1))))
    for p, r in zip(out, out[1:]):
        S.check("pieces are connected", S.eq(tuple(p.controlPoints[-1]), tuple(r.controlPoints[0])))


@harness("C20", cases=[0, 1])
def scale_with_a_retracted_handle(S, e):
    """Cubics with one handle on its end point, where the curve goes towards the other handle."""
    B = S.mod("PathLib.Bezier").Bezier
    o = S.point("o")
    c, s = S.direction("w")
    a, b, k = S.real("a"), S.real("b"), S.real("k")
    S.assume(S.And(S.ne(s, 0), S.gt(a, 0), S.gt(b, 0), S.ne(a + b * c, 0), S.ne(b + a * c, 0)))
    m = (o[0] + a, o[1])
    P = [o, m, (m[0] + b * c, m[1] + b * s)]
    P = [o, *P] if e == 0 else [*P, P[-1]]
    r, ex = S.call(B(P).scale, k, raises=(ValueError,))
    S.check("can be scaled", ex is None)
    if ex is not None:
        return
    q = [tuple(p) for p in r.controlPoints]
    S.check("ends move by the distance along their normals",
            S.And(S.eq(q[0], moved(P[0], (1, 0), k)), S.eq(q[-1], moved(P[-1], (c, s), k))))
    S.check("tangents keep their directions",
            S.And(S.eq(cross(sub(q[1], q[0]), (1, 0)), 0), S.eq(cross(sub(q[-1], q[-2]), (c, s)), 0)))
