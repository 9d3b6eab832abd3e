"""C32 The ABC decomposition satisfies the projection identity."""
from sx.api import harness
from .util import bern, cross, dot, sub

BOUNDS = ("all control points of quadratic and cubic curves, float and int kinds, all parameters in (0,1), the ends and "
          "the middle as well; the points also for all parameters outside [0,1]")
ASSUMPTIONS = ["a cubic's ratio is measured on curves whose chord is not met head-on (C exists)"]


def lerp(a, b, t):
    return (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))


def levels(P, t):
    out, lvl = list(P), P
    while len(lvl) > 1:
        lvl = [lerp(a, b, t) for a, b in zip(lvl, lvl[1:])]
        out += lvl
    return out


def apex(P, t):
    """The point A: the middle handle, or the middle handle of the handles."""
    if len(P) == 3:
        return P[1]
    return lerp(lerp(P[1], P[2], t), lerp(P[1], P[2], t), t)


def weight(S, n, t):
    """C divides the chord at this share of its start."""
    a, b = 1, 1
    for _ in range(n):
        a, b = a * (1 - t), b * t
    return a, b


def run(S, P, t):
    return S.mod("PathLib.Bezier").Bezier(P).getABC(t)


def parameter(S, k):
    if k != "t":
        return {"1/2": 0.5, "1/4": 0.25}[k]
    t = S.real("t")
    S.assume(S.And(S.lt(0, t), S.lt(t, 1)))
    return t


@harness("C32", cases=[(n, k, p) for n in (2, 3) for k in "fi" for p in ("t", "1/2", "1/4")])
def abc(S, case):
    n, kind, p = case
    P = S.points("p", n + 1, kind)
    t = parameter(S, p)
    T = S.q(1, {"1/2": 2, "1/4": 4}[p]) if p != "t" else t
    A, B, C, ratio, hull = run(S, P, t)
    S.check("A", S.eq(tuple(A), apex(P, T)))
    S.check("B is the curve point", S.eq(tuple(B), bern(S, P, T)))
    S.check("hull", S.eq([tuple(q) for q in hull], levels(P, T)))
    a, b = weight(S, n, T)
    # |BC| = ratio |AB| along the line: B - C = ratio (A - B), with C = (a p0 + b pn) / (a + b)
    cx, cy = [(a * P[0][i] + b * P[n][i]) for i in (0, 1)]
    S.check("ratio", S.eq(ratio * (a + b), 1 - a - b))
    S.check("ratio is not negative", S.le(0, ratio))
    chord = sub(P[n], P[0])
    if C is None:
        S.check("no C only where the line through A and B is parallel to the chord or A is B",
                S.eq(cross(sub(A, B), chord), 0))
        return
    C = tuple(C)
    S.check("C on the chord line", S.eq(cross(sub(C, P[0]), chord), 0))
    S.check("C on the line through A and B", S.eq(cross(sub(C, A), sub(B, A)), 0))
    S.check("C divides the chord", S.eq((C[0] * (a + b), C[1] * (a + b)), (cx, cy)))
    S.check("|BC| is ratio times |AB|", S.eq(sub(B, C), (ratio * (A[0] - B[0]), ratio * (A[1] - B[1]))))


@harness("C32", cases=[(n, k) for n in (2, 3) for k in "fi"])
def distances(S, case):
    """The identity as distances, at the middle and a quarter."""
    n, kind = case
    P = S.points("p", n + 1, kind)
    for t in (0.5, 0.25, 0.75):
        A, B, C, ratio, _ = run(S, P, t)
        if C is not None:
            S.check("|BC| is ratio times |AB|", S.eq(dot(sub(B, C), sub(B, C)),
                                                     ratio * ratio * dot(sub(A, B), sub(A, B))))


@harness("C32", cases=[2, 3])
def curve_unchanged(S, n):
    P = S.points("p", n + 1)
    t = parameter(S, "t")
    b = S.mod("PathLib.Bezier").Bezier(P)
    first = b.getABC(t)
    again = b.getABC(t)
    S.check("control points", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)
    S.check("same B", S.eq(tuple(first[1]), tuple(again[1])))
    S.check("same ratio", S.eq(first[3], again[3]))


@harness("C32", cases=["quadraticRatio", "cubicRatio"])
def ratios(S, name):
    BU = S.mod("PathLib.BezierUtilities")
    t = S.real("t", 0, 1)
    n = 2 if name == "quadraticRatio" else 3
    a, b = weight(S, n, t)
    r = getattr(BU, name)(t)
    S.check("value", S.eq(r * (a + b), 1 - a - b))
    S.check("symmetric", S.eq(getattr(BU, name)(1 - t), r))


@harness("C32", cases=[2, 3])
def beyond_the_ends(S, n):
    """The points for parameters outside the curve."""
    P = S.points("p", n + 1)
    t = S.real("t")
    S.assume(S.Or(S.lt(t, 0), S.lt(1, t)))
    A, B, C, ratio, hull = run(S, P, t)
    S.check("A", S.eq(tuple(A), apex(P, t)))
    S.check("B is the curve point", S.eq(tuple(B), bern(S, P, t)))
    S.check("hull", S.eq([tuple(q) for q in hull], levels(P, t)))
    chord = sub(P[n], P[0])
    if C is None:
        S.check("no C only where the line through A and B is parallel to the chord or A is B",
                S.eq(cross(sub(A, B), chord), 0))
        return
    C = tuple(C)
    S.check("C on the chord line", S.eq(cross(sub(C, P[0]), chord), 0))
    S.check("C on the line through A and B", S.eq(cross(sub(C, A), sub(B, A)), 0))
