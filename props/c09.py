"""C09 Matrix helpers and binomial tables are correct in any call history."""
import math
from sx.api import harness
from .util import nested_copy

BOUNDS = ("all real entries, shapes up to 4x4, inner lengths up to 5; binomials up to order 12 after any two earlier requests (up to order 9); basis matrices "
          "up to size 7; powers up to 4")


@harness("C09", cases=[(1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (3, 3, 1), (1, 3, 3), (2, 3, 4), (4, 3, 2), (3, 3, 3),
                       (4, 4, 4), (1, 4, 1), (2, 5, 1), (1, 5, 2)])
def product(S, shape):
    CF = S.mod("PathLib.CurveFitting")
    a, b, c = shape
    A = [[S.real(f"a{i}{j}") for j in range(b)] for i in range(a)]
    B = [[S.real(f"b{i}{j}") for j in range(c)] for i in range(b)]
    ka, kb = nested_copy(A), nested_copy(B)
    M = CF.multiply(A, B)
    S.check("product", S.eq(M, [[sum((A[i][k] * B[k][j] for k in range(b)), 0) for j in range(c)] for i in range(a)]))
    S.check("arguments unchanged", S.And(S.eq(A, ka), S.eq(B, kb)), exact=True)


@harness("C09", cases=[(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)])
def transposition(S, shape):
    CF = S.mod("PathLib.CurveFitting")
    a, b = shape
    A = [[S.real(f"a{i}{j}") for j in range(b)] for i in range(a)]
    keep = nested_copy(A)
    T = CF.transpose(A)
    S.check("transpose", S.eq(T, [[A[i][j] for i in range(a)] for j in range(b)]), exact=True)
    T[0][0] = 17
    S.check("argument unchanged", S.eq(A, keep), exact=True)
    for i in range(a):
        S.check("row", S.eq(list(CF.row(A, i)), A[i]), exact=True)
    for j in range(b):
        S.check("column", S.eq(list(CF.col(A, j)), [A[i][j] for i in range(a)]), exact=True)


@harness("C09", cases=[0, 1, 2], max_enum=40)
def binomials(S, history):
    """Requests of symbolic orders after up to two earlier requests."""
    CF = S.mod("PathLib.CurveFitting")
    for i in range(history):
        h = S.int(f"h{i}", 6, 9)
        CF.binomial(h, 3)
    n = S.choice("n", list(range(13)))
    for k in range(n + 1):
        S.check("n choose k", S.eq(CF.binomial(n, k), math.comb(n, k)), exact=True)
    for m in range(13):
        S.check("other orders afterwards", S.eq(CF.binomial(m, m // 2), math.comb(m, m // 2)), exact=True)


@harness("C09", cases=[1, 2, 3, 4, 5, 6, 7])
def basis(S, n):
    """The rows of the basis matrix turn powers of t into the Bernstein form."""
    CF = S.mod("PathLib.CurveFitting")
    M = CF.basisMatrix(n)
    t = S.real("t")
    x = [S.real(f"x{i}") for i in range(n)]
    pw = 0
    for r in range(n):
        tr = 1
        for _ in range(r):
            tr = tr * t
        pw = pw + tr * sum((M[r][c] * x[c] for c in range(n)), 0)
    be = 0
    for i in range(n):
        w = math.comb(n - 1, i)
        for _ in range(n - 1 - i):
            w = w * (1 - t)
        for _ in range(i):
            w = w * t
        be = be + w * x[i]
    S.check("power form equals Bernstein form", S.eq(pw, be))
    S.check("lower triangular", S.And(S.eq(M[r][c], 0) for r in range(n) for c in range(r + 1, n)), exact=True)
    M[0][0] = 99
    S.check("fresh matrix per call", S.eq(CF.basisMatrix(n)[0][0], 1), exact=True)


@harness("C09", cases=[1, 2, 3, 4])
def power_matrix(S, n):
    CF = S.mod("PathLib.CurveFitting")
    s = [S.real(f"s{i}") for i in range(n)]
    Tt, T = CF.formTMatrix(s)

    def pw(v, e):
        r = 1
        for _ in range(e):
            r = r * v
        return r

    S.check("powers", S.eq([list(r) for r in T], [[pw(v, e) for e in range(n)] for v in s]))
    S.check("transposed powers", S.eq([list(r) for r in Tt], [[pw(v, e) for v in s] for e in range(n)]))
    S.check("row of powers", S.eq(list(CF.raiseRowPower(s, n)), [pw(v, n) for v in s]))


@harness("C09")
def columns_and_distance(S, _):
    CF = S.mod("PathLib.CurveFitting")
    P = S.points("p", 3)
    S.check("x column", S.eq(CF.getPointValuesColumn(P, 0), [[p[0]] for p in P]), exact=True)
    S.check("y column", S.eq(CF.getPointValuesColumn(P, 1), [[p[1]] for p in P]), exact=True)
    d = CF.dist(P[0], P[1])
    S.check("distance", S.And(S.ge(d, 0), S.eq(d * d, (P[0][0] - P[1][0]) * (P[0][0] - P[1][0])
                                               + (P[0][1] - P[1][1]) * (P[0][1] - P[1][1]))))
