"""C33 Reducing a curve tiles it with simple pieces."""
from sx.api import harness
from .util import bern, cross, dot, sub

BOUNDS = ("simplicity: all quadratics by their end directions, all cubics by their handles on a free chord; tiling: "
          "quadratics and cubics of fixed shape (also with retracted handles and with a cusp) at every place and size, and shapes with one free handle coordinate "
          "in stated ranges")
ASSUMPTIONS = ["curves with distinct ends and, but for stated shapes, handles of positive length; a handle pointing straight back along the "
               "chord has no side"]
BUDGET = 500


def Bez(S):
    return S.mod("PathLib.Bezier").Bezier


def unit_ends(S, order):
    """End directions (1,0) and any other, positive handle lengths."""
    o = S.point("o")
    c, s = S.direction("w")
    a, b = S.real("a"), S.real("b")
    S.assume(S.And(S.gt(a, 0), S.gt(b, 0)))
    if order == 2:
        return [o, (o[0] + a, o[1]), (o[0] + a + b * c, o[1] + b * s)], c
    e = S.point("e")
    return [o, (o[0] + a, o[1]), (e[0] - b * c, e[1] - b * s), e], c


def side(S, P, q):
    return cross(sub(P[-1], P[0]), sub(q, P[0]))


@harness("C33", cases=[2, 3])
def criterion(S, order):
    P, c = unit_ends(S, order)
    near = S.q(1, 10**9)
    if order == 3:
        v = sub(P[3], P[0])
        S.assume(S.Or(S.ne(v[0], 0), S.ne(v[1], 0)))
        s1, s2 = side(S, P, P[1]), side(S, P, P[2])
        for q, s in ((P[1], s1), (P[2], s2)):
            S.assume(S.Or(S.ne(s, 0), S.le(0, dot(v, sub(q, P[0])))))
        opposite = S.Or(S.And(S.lt(0, s1), S.lt(s2, 0)), S.And(S.lt(s1, 0), S.lt(0, s2)))
    else:
        opposite = S.Not(S.eq(0, 0))
    if Bez(S)(P).simple():
        S.check("normals less than 60 degrees apart", S.lt(S.q(1, 2) - near, c))
        S.check("handles on one side", S.Not(opposite))
    else:
        S.check("not simple: normals 60 degrees apart or handles on two sides",
                S.Or(S.lt(c, S.q(1, 2) + near), opposite))


@harness("C33", cases=[2, 3])
def criterion_any_control_points(S, order):
    """The normals of fixed handles; everything else free."""
    o, k = S.point("o"), S.real("k")
    S.assume(S.gt(k, 0))
    for F, want in ({2: [([(0, 0), (5, 0), (8, 4)], True), ([(0, 0), (1, 0), (1, 3)], False),
                         ([(0, 0), (3, 4), (6, 0)], False), ([(0, 0), (2, 1), (4, 0)], True)],
                     3: [([(0, 0), (1, 1), (3, 1), (5, 0)], False), ([(0, 0), (2, 1), (4, 1), (6, 0)], True),
                         ([(0, 0), (2, 1), (4, -1), (6, 0)], False), ([(0, 0), (3, 0), (5, 0), (9, 1)], True),
                         ([(0, 0), (2, -1), (4, -1), (6, 0)], True)]}[order]):
        P = [(o[0] + k * x, o[1] + k * y) for x, y in F]
        S.check("simple" if want else "not simple", bool(Bez(S)(P).simple()) == want)


def really_simple(S, P, retracted=None):
    n = len(P) - 1
    near = S.q(1, 10**9)

    def close(d0, d1):
        c = dot(d0, d1)
        return S.And(S.lt(0, c), S.lt((S.q(1, 4) - near) * dot(d0, d0) * dot(d1, d1), c * c))

    if retracted is None:
        ok = [close(sub(P[1], P[0]), sub(P[n], P[n - 1]))]
    else:
        # a handle on its end point has no direction: that of the next control point counts
        def first(points, sign):
            alts, same = [], []
            for q in points[1:]:
                d = sub(q, points[0])
                alts.append((S.And(*same, S.Not(S.eq(q, points[0]))), (sign * d[0], sign * d[1])))
                same.append(S.eq(q, points[0]))
            return alts
        ok = [S.Or(S.And(c0, c1, close(d0, d1)) for c0, d0 in first(P, 1) for c1, d1 in first(P[::-1], -1))]
    if n == 3:
        ok.append(S.le(0, side(S, P, P[1]) * side(S, P, P[2])))
    return S.And(ok)


def tiling(S, P, some=True, retracted=None):
    b = Bez(S)(P)
    r = b.reduce()
    if some:
        S.check("there are pieces", len(r) > 0)
    if not r:
        return
    S.check("starts at 0", S.eq(r[0]._t1, 0))
    S.check("ends at 1", S.eq(r[-1]._t2, 1))
    u = S.q(2, 7)
    for p, q in zip(r, r[1:]):
        S.check("consecutive intervals", S.eq(p._t2, q._t1))
        S.check("connected", S.eq(tuple(p.controlPoints[-1]), tuple(q.controlPoints[0])))
    for p in r:
        Q = [tuple(x) for x in p.controlPoints]
        S.check("intervals grow", S.lt(p._t1, p._t2))
        S.check("same order", len(Q) == len(P))
        for u in (0, S.q(1, 3), S.q(5, 7), 1):
            t = p._t1 + u * (p._t2 - p._t1)
            S.check("traces its interval", S.eq(bern(S, Q, u), bern(S, P, t)))
        S.check("simple", really_simple(S, Q, retracted))
    S.check("original unchanged", S.eq([tuple(x) for x in b.controlPoints], P), exact=True)


SHAPES = {
    "q1": [(0, -1), (2, 3), (6, -1)],
    "q2": [(0, 0), (4, 6), (6, 0)],
    "q3": [(0, 0), (1, 0), (4, 1)],
    # these turn sharply
    "q4": [(3, 10), (0, 2), (1, 5)],
    "q5": [(7, 1), (9, 11), (12, 12)],
    "q6": [(0, 0), (3, 30), (1, 0)],
    "q7": [(0, 0), (40, 1), (3, 0)],
    "c4": [(1, 11), (3, 4), (1, 12), (1, 10)],
    "c5": [(9, 2), (4, 0), (8, 0), (11, 6)],
    "c1": [(0, 0), (2, 3), (5, -2), (9, 1)],
    "c2": [(0, 0), (3, 0), (6, 3), (6, 6)],
    "c3": [(0, 0), (1, 3), (4, 3), (5, 0)],
    "s": [(0, 0), (6, 5), (-1, 5), (5, 0)],
}


@harness("C33", cases=list(SHAPES))
def pieces(S, name):
    """Any place, any size."""
    o = S.point("o")
    tiling(S, [(o[0] + x, o[1] + y) for x, y in SHAPES[name]])


RETRACTED = {
    "start": [(0, 0), (0, 0), (4, 0), (4, 4)],
    "end": [(0, 0), (0, 4), (4, 4), (4, 4)],
    "both": [(0, 0), (0, 0), (4, 2), (4, 2)],
    "quadratic": [(3, 1), (3, 1), (8, 2)],
    "twice": [(3, 1), (3, 1), (3, 1), (8, 2)],
    "cusp": [(0, 0), (4, 4), (0, 4), (4, 0)],
}


@harness("C33", cases=list(RETRACTED))
def pieces_of_retracted(S, name):
    """Handles on their end points, and a cusp: at any place."""
    o = S.point("o")
    tiling(S, [(o[0] + x, o[1] + y) for x, y in RETRACTED[name]], retracted=True)


@harness("C33", cases=["q1", "q3"], thorough=["q2", "c1", "c2"])
def pieces_scaled(S, name):
    k = S.real("k")
    S.assume(S.gt(k, 0))
    tiling(S, [(k * x, k * y) for x, y in SHAPES[name]])


@harness("C33", cases=[(100, 110), (10, 60), (200, 201), (174, 175)], thorough=[(60, 100), (110, 150), (201, 220), (300, 310), (500, 505)])
def free_handle(S, case):
    """Quadratics on a fixed chord with a handle of any height in the range."""
    lo, hi = case
    h = S.real("h", lo, hi) / S.q(100)
    tiling(S, [(0, 0), (1, h), (2, 0)])


@harness("C33", cases=[(100, 101)], thorough=[(101, 103), (200, 202), (50, 52)], max_forks=6000)
def free_cubic_handles(S, case):
    """Symmetric cubics whose handles have any height in the range."""
    lo, hi = case
    h = S.real("h", lo, hi) / S.q(100)
    tiling(S, [(0, 0), (1, h), (3, h), (4, 0)])
