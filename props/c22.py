"""C22 The closest point reported is on the path and at least as close as the samples."""
from sx.api import harness
from .util import bern, d2

BOUNDS = ("all query points in stated windows (half planes beyond the ends, strips and rectangles along and at the joints) "
          "around fixed paths of one to four lines, quadratics and cubics, 3 to 6 samples per curve")
BUDGET = 600

# every curve is a graph: x is linear in t
LINE = [(0, 0), (4, 0)]
QUAD = [(0, 0), (2, 3), (4, 1)]
CUBIC = [(0, 0), (2, 3), (4, -4), (6, 2)]


def chain(*curves):
    out, at = [], (0, 0)
    for c in curves:
        out.append([(x + at[0], y + at[1]) for x, y in c])
        at = out[-1][-1]
    return out


PATHS = {"l": chain(LINE), "q": chain(QUAD), "c": chain(CUBIC), "ll": chain(LINE, [(0, 0), (2, 2)]),
         "ql": chain(QUAD, LINE), "lll": chain(LINE, [(0, 0), (2, 2)], LINE), "lqc": chain(LINE, QUAD, CUBIC)}


def on(S, path, p):
    alts = []
    for c in path:
        x0, x1 = c[0][0], c[-1][0]
        t = (p[0] - x0) * S.q(1, x1 - x0)
        alts.append(S.And(S.between(0, t, 1), S.eq(p[1], bern(S, c, t)[1])))
    return S.Or(alts)


INF = None
WINDOWS = [
    # path, samples, range of x and y of the query point
    ("l", 3, (INF, 0), (INF, INF)),
    ("l", 3, (4, INF), (INF, INF)),
    ("l", 3, (1.875, 2.125), (INF, INF)),
    ("l", 4, (1, 1.25), (INF, INF)),
    ("l", 6, (3, 3.25), (INF, INF)),
    ("q", 3, (1.875, 2), (1, 2)),
    ("q", 4, (3, 3.125), (0, 1)),
    ("c", 4, (5, 5.125), (-0.5, 0)),
    ("ll", 3, (3.9375, 4), (-1, 0)),
    ("ll", 3, (4, 4.0625), (0, 0.25)),
    ("ql", 3, (4, 4.03125), (1, 1.03125)),
    ("ql", 4, (6, 6.125), (-1, 3)),
    ("lll", 3, (6, 6.03125), (1.9375, 2)),
    ("lll", 4, (8, 8.125), (1, 2)),
    ("lqc", 3, (8, 8.03125), (1, 1.0625)),
    ("lqc", 4, (12, 12.0625), (-1, 0)),
]
MORE = [("ll", 3, (3.875, 4), (INF, INF)), ("ll", 3, (4, 4.125), (-1, INF)), ("ql", 3, (4, 4.125), (1, 1.5)),
        ("lll", 3, (6, 6.125), (1.5, 2)), ("lqc", 3, (8, 8.0625), (1, 1.25)),
        ("l", 3, (0, 2), (INF, INF)), ("l", 3, (2, 4), (INF, INF)), ("l", 6, (1, 3), (INF, INF)),
        ("q", 3, (0, 2), (0, 2)), ("q", 6, (2, 4), (0, 2)), ("c", 3, (2, 4), (-1, 1)), ("c", 6, (1, 2), (-1, 1)),
        ("ll", 4, (3.5, 4.5), (-1, 1)), ("lqc", 3, (7.5, 8.5), (1, 2)), ("lqc", 5, (11.5, 12.5), (-1, 1)),
        ("lll", 5, (7, 8), (1, 3))]


@harness("C22", cases=WINDOWS, thorough=MORE, max_paths=50000)
def closest(S, case):
    name, steps, wx, wy = case
    path = PATHS[name]
    C = S.mod("PathLib.Bezier").BContour
    q = S.point("q")
    for v, (lo, hi) in zip(q, (wx, wy)):
        if lo is not None:
            S.assume(S.ge(v, lo))
        if hi is not None:
            S.assume(S.le(v, hi))
    dist, p = C(path).findClosestPoint(q, steps)
    S.check("the distance of that point", S.And(S.eq(dist * dist, d2(p, q)), S.ge(dist, 0)))
    S.check("on the path", on(S, path, p))
    for c in path:
        for i in range(steps):
            s = bern(S, c, S.q(i, steps - 1))
            S.check("no further than any sample", S.le(d2(p, q), d2(s, q)))


@harness("C22", cases=["before", "after", "beside"])
def any_line(S, where):
    """All lines; query points whose closest point is an end or the middle sample."""
    C = S.mod("PathLib.Bezier").BContour
    o, q = S.point("o"), S.point("q")
    c, s = S.direction("w")
    l, k, m = S.real("l"), S.real("k"), S.real("m")
    S.assume(S.And(S.gt(l, 0), S.ge(k, 0)))
    u = {"before": -k, "after": l + k, "beside": l * S.q(1, 2)}[where]
    e = (o[0] + l * c, o[1] + l * s)
    q = (o[0] + u * c - m * s, o[1] + u * s + m * c)
    want = {"before": o, "after": e, "beside": (o[0] + l * c * S.q(1, 2), o[1] + l * s * S.q(1, 2))}[where]
    dist, p = C([[o, e]]).findClosestPoint(q, 3)
    S.check("that point", S.eq(tuple(p), want))
    S.check("its distance", S.And(S.eq(dist * dist, d2(q, want)), S.ge(dist, 0)))


STRAIGHT = [((0, 4), 3, (1, 2)), ((0, 4, 8), 3, (3.5, 4.5)), ((0, 4, 8), 3, (4.5, 5.5)), ((0, 4, 8), 4, (2.5, 3.5)),
            ((0, 4, 8, 12), 3, (7, 8)), ((0, 4, 8, 12), 3, (8, 9)), ((0, 2, 8), 4, (2, 2.5)), ((0, 4, 8), 5, (7.5, None)),
            ((0, 4, 8, 12, 16), 3, (12.5, 13))]
STRAIGHT_MORE = [((0, 4, 8), 3, (i * S, i * S + S)) for S in (0.5,) for i in range(17)] + \
    [((0, 4, 12), 4, (i * 0.5, i * 0.5 + 0.5)) for i in range(4, 13)] + [((0, 4, 8, 12), 5, (i * .25, i * .25 + .25)) for i in range(28, 36)]


@harness("C22", cases=STRAIGHT, thorough=STRAIGHT_MORE, max_paths=50000)
def near_the_true_closest_point(S, case):
    """On a straight path the true closest point is the foot of the perpendicular; the search comes near it."""
    xs, steps, (lo, hi) = case
    C = S.mod("PathLib.Bezier").BContour
    q = S.point("q")
    S.assume(S.ge(q[0], lo))
    if hi is not None:
        S.assume(S.le(q[0], hi))
    dist, p = C([[(a, 0), (b, 0)] for a, b in zip(xs, xs[1:])]).findClosestPoint(q, steps)
    near = S.q(max(b - a for a, b in zip(xs, xs[1:])), 4 * (steps - 1))
    off = p[0] - q[0]
    end = p[0] - xs[-1]
    S.check("on the line", S.And(S.eq(p[1], 0), S.between(0, p[0], xs[-1])))
    S.check("within a quarter of the sample spacing", S.Or(
        S.between(-near, off, near), S.And(S.gt(q[0], xs[-1]), S.ge(end, -near)), S.And(S.lt(q[0], 0), S.le(p[0], near))))
