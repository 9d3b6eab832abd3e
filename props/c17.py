"""C17 Alignment is a rigid motion onto the axis; the tight box encloses the curve."""
from sx.api import harness
from .util import bern
from .c16 import frame, at, curve_on

BOUNDS = ("alignment: all curves of order 1 to 4 and all lines with distinct ends (given as origin, direction and "
          "length); tight box: lines, all quadratics, cubics with chord coordinates of one free handle each way, every "
          "parameter by the critical point argument of C14")


@harness("C17", cases=[1, 2, 3, 4])
def align_with_line(S, n):
    o, d, line = frame(S)
    us = [S.real(f"u{i}") for i in range(n + 1)]
    ws = [S.real(f"w{i}") for i in range(n + 1)]
    b = curve_on(S, o, d, ws, us)
    P = [tuple(p) for p in b.controlPoints]
    a = b.align(line)
    S.check("rigid motion that puts the line on the x axis", S.eq([tuple(p) for p in a.controlPoints], list(zip(us, ws))))
    S.check("curve unchanged", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)


@harness("C17", cases=[1, 2, 3])
def align_with_chord(S, n):
    o, d, line = frame(S)
    l = S.real("l")
    us = [0] + [S.real(f"u{i}") for i in range(1, n)] + [l]
    ws = [0] + [S.real(f"w{i}") for i in range(1, n)] + [0]
    a = curve_on(S, o, d, ws, us).align()
    S.check("chord on the x axis", S.eq([tuple(p) for p in a.controlPoints], list(zip(us, ws))))


@harness("C17")
def distances_and_orientation(S, _):
    """Any curve, any line: lengths and turning sense are kept."""
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", 3)
    o, d, line = frame(S)
    a = [tuple(p) for p in B(P).align(line).controlPoints]
    for i, j in ((0, 1), (1, 2)):
        S.check("distances are kept", S.eq((a[i][0] - a[j][0]) * (a[i][0] - a[j][0]) + (a[i][1] - a[j][1]) * (a[i][1] - a[j][1]),
                                           (P[i][0] - P[j][0]) * (P[i][0] - P[j][0]) + (P[i][1] - P[j][1]) * (P[i][1] - P[j][1])))

    def area(q):
        return (q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[1][1] - q[0][1]) * (q[2][0] - q[0][0])
    S.check("orientation is kept", S.eq(area(a), area(P)))


def tight(S, o, d, us, ws, crit):
    """crit: per coordinate the candidate parameters besides the ends."""
    b = curve_on(S, o, d, ws, us)
    c = b.tightbbox
    S.check("four sides", S.And(len(c) == 4, S.And(len(s) == 2 for s in c)))
    S.check("closed and connected", S.And(S.eq(tuple(c[i][1]), tuple(c[(i + 1) % 4][0])) for i in range(4)))
    K = [tuple(s[0]) for s in c]
    # corners in the frame of the chord
    F = [((x - o[0]) * d[0] + (y - o[1]) * d[1], (y - o[1]) * d[0] - (x - o[0]) * d[1]) for x, y in K]
    S.check("sides along and across the chord", S.Or(
        S.And(S.eq(F[0][0], F[1][0]), S.eq(F[1][1], F[2][1]), S.eq(F[2][0], F[3][0]), S.eq(F[3][1], F[0][1])),
        S.And(S.eq(F[0][1], F[1][1]), S.eq(F[1][0], F[2][0]), S.eq(F[2][1], F[3][1]), S.eq(F[3][0], F[0][0]))))
    for k, vs in ((0, us), (1, ws)):
        lo, hi = S.min(F[0][k], F[2][k]), S.max(F[0][k], F[2][k])
        S.check("encloses the ends", S.And(S.between(lo, v, hi) for v in (vs[0], vs[-1])))
        vals = [(t, bern(S, [(v, 0) for v in vs], t)[0]) for t in crit[k]]
        for t, v in vals:
            S.check("encloses the curve", S.Implies(S.between(0, t, 1), S.between(lo, v, hi)))
        for e in (lo, hi):
            S.check("each side touches the curve", S.Or([S.eq(e, vs[0]), S.eq(e, vs[-1])] + [
                S.And(S.between(0, t, 1), S.eq(e, v)) for t, v in vals]))


@harness("C17")
def tight_line(S, _):
    o, d, line = frame(S)
    tight(S, o, d, [0, S.real("l")], [0, 0], ([], []))


@harness("C17")
def tight_quadratic(S, _):
    """Critical point of the coordinate along the chord at r, across it at 1/2."""
    o, d, line = frame(S)
    l, r, h = S.real("l"), S.real("r"), S.real("h")
    # derivative along the chord 2 g (t - r), with g (1 - 2 r) = l
    g = S.real("g")
    S.assume(S.eq(g * (1 - 2 * r), l))
    tight(S, o, d, [0, -g * r, l], [0, h, 0], ([r], [S.q(1, 2)]))


@harness("C17")
def tight_quadratic_linear(S, _):
    """Constant speed along the chord."""
    o, d, line = frame(S)
    l, h = S.real("l"), S.real("h")
    tight(S, o, d, [0, l / 2, l], [0, h, 0], ([], [S.q(1, 2)]))


@harness("C17", cases=[1, -1])
def tight_cubic(S, k):
    o, d, line = frame(S)
    l, h = S.real("l"), S.real("h")
    # symmetric arch: constant speed along the chord, height with its critical point at 1/2 (plus that of -1: an S)
    if k == 1:
        tight(S, o, d, [0, l / 3, 2 * l / 3, l], [0, h, h, 0], ([], [S.q(1, 2)]))
    else:
        s = S.sqrt(3)
        tight(S, o, d, [0, l / 3, 2 * l / 3, l], [0, h, -h, 0], ([], [S.q(1, 2) - s / 6, S.q(1, 2) + s / 6]))
