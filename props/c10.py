"""C10 Curve fitting interpolates the given points."""
from sx.api import harness
from .util import bern

BOUNDS = ("2 to 4 points; both parametrisations; polygonal: all points with distinct neighbours placed by chord "
          "lengths and directions (3 points: all; 4 points: all lengths); parameters of bestFit: all increasing "
          "sequences 0 < s1 < .. < 1 for up to 4 points")


def control(c, n):
    return [(c[0][i][0], c[1][i][0]) for i in range(n)]


@harness("C10", cases=[2, 3, 4])
def best_fit(S, n):
    """Any increasing parameters from 0 to 1."""
    CF = S.mod("PathLib.CurveFitting")
    P = S.points("p", n)
    s = [0]
    for i in range(1, n - 1):
        v = S.real(f"s{i}", 0, 1)
        S.assume(S.And(S.lt(s[-1], v), S.lt(v, 1)))
        s.append(v)
    s.append(1)
    c = CF.bestFit(P, CF.basisMatrix(n), s)
    cp = control(c, n)
    for i in range(n):
        S.check("interpolates", S.eq(bern(S, cp, s[i]), P[i]))


@harness("C10", cases=[2, 3, 4, 5])
def uniform(S, n):
    CF = S.mod("PathLib.CurveFitting")
    P = S.points("p", n)
    pts, m, s, c = CF.fit(P, polygonal=False)
    S.check("uniform parameters", S.eq(list(s), [S.q(i, n - 1) for i in range(n)]))
    cp = control(c, n)
    S.check("as many control points as points", len(c[0]) == n and len(c[1]) == n)
    for i in range(n):
        S.check("interpolates", S.eq(bern(S, cp, S.q(i, n - 1)), P[i]))
    S.check("points unchanged", S.And(S.eq(list(pts), P)), exact=True)


def chain(S, n):
    """Points with arbitrary positive chord lengths in arbitrary directions."""
    P = [S.point("p")]
    L = []
    for i in range(1, n):
        l = S.real(f"l{i}", 0)
        S.assume(S.gt(l, 0))
        c, s = S.direction(f"d{i}")
        P.append((P[-1][0] + l * c, P[-1][1] + l * s))
        L.append(l)
    return P, L


@harness("C10", cases=[2, 3, 4])
def chord_parameters(S, n):
    CF = S.mod("PathLib.CurveFitting")
    P, L = chain(S, n)
    s = CF.computeTimeValues(P)
    S.check("one per point", len(s) == n)
    tot = sum(L, 0)
    acc = 0
    S.check("starts at 0", S.eq(s[0], 0))
    for i in range(1, n):
        acc = acc + L[i - 1]
        S.check("accumulated chord length", S.eq(s[i] * tot, acc))
        S.check("increasing", S.lt(s[i - 1], s[i]))
    S.check("ends at 1", S.eq(s[-1], 1))
    S.check("first points only", S.eq(list(CF.computeTimeValues(P, 2)), [0, 1]))
    for k in range(2, n + 1):
        S.check("uniform times of the first points", S.eq(list(CF.computeTimeValues(P, k, False)),
                                                          [S.q(i, k - 1) for i in range(k)]))
        part = list(CF.computeTimeValues(P, k))
        S.check("one per point", len(part) == k)
        acc = 0
        for i in range(1, k):
            acc = acc + L[i - 1]
            S.check("chord length of the first points", S.eq(part[i] * sum(L[:k - 1], 0), acc))


@harness("C10", cases=[2, 3, 4], weight=4)
def polygonal(S, n):
    CF = S.mod("PathLib.CurveFitting")
    P, L = chain(S, n)
    pts, m, s, c = CF.fit(P)
    cp = control(c, n)
    for i in range(n):
        S.check("interpolates", S.eq(bern(S, cp, s[i]), P[i]))
    S.check("end points", S.And(S.eq(cp[0], P[0]), S.eq(cp[-1], P[-1])))
