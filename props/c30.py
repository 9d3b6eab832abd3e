"""C30 Arc length is the Gauss-Legendre quadrature of the speed."""
from sx.api import harness
from .util import cross, dbern, dot

BOUNDS = ("all lines, all straight quadratics and cubics that do not turn back, all quadratics and cubics through their "
          "speed at the 24 nodes; all polynomials of degree 0 to 47 with coefficients in [-1,1]; "
          "curves of any size, however small")
ASSUMPTIONS = ["decimal arithmetic is exact up to the tolerance of the comparison (1e-12 relative)"]
BUDGET = 400


def mods(S):
    return S.mod("PathLib.Bezier").Bezier, S.mod("PathLib.BezierUtilities")


def close(S, a, b, scale, eps=10**-12):
    e = scale * S.q(1, 10**12)
    return S.And(S.le(a - b, e), S.le(b - a, e))


@harness("C30", cases=[(0, 11), (12, 23), (24, 35), (36, 47)])
def quadrature(S, case):
    """The nodes and weights integrate every polynomial over [-1,1]."""
    _, bu = mods(S)
    lo, hi = case
    a = [S.real(f"a{k}", -1, 1) for k in range(lo, hi + 1)]
    S.check("as many weights as nodes", len(bu.tValues) == len(bu.cValues))
    # sum of c_i p(t_i), collected by coefficient
    got = 0
    for k, x in zip(range(lo, hi + 1), a):
        m = 0
        for t, c in zip(bu.tValues, bu.cValues):
            p = c
            for _ in range(k):
                p = p * t
            m = m + p
        got = got + x * S.as_float(m)
    want = sum(a[k - lo] * S.q(2, k + 1) for k in range(lo, hi + 1) if k % 2 == 0)
    S.check("integral", close(S, got, want, 1))


@harness("C30", cases=["f", "i", "d"])
def lines(S, k):
    """The length of a line is the distance of its ends."""
    B, _ = mods(S)
    c, s = S.direction("w")
    l = S.real("l", 0)
    o = S.point("o")
    if k == "f":
        P = [o, (o[0] + l * c, o[1] + l * s)]
    elif k == "i":
        n = S.int("n", 0, 1000)
        o, l = (S.int("ox", -1000, 1000), S.int("oy", -1000, 1000)), 5 * n
        P = [o, (o[0] + 3 * n, o[1] - 4 * n)]
    else:
        P = [S.decimals(o), S.decimals((o[0] + l * S.q(3, 5), o[1] + l * S.q(4, 5)))]
    S.check("distance of the ends", close(S, S.as_float(B(P).length), l, l))


@harness("C30", cases=[(n, k) for n in (2, 3) for k in ("even", "any")])
def straight(S, case):
    """A straight curve that does not turn back is as long as its chord."""
    n, k = case
    B, _ = mods(S)
    o = S.point("o")
    g = [S.real(f"g{i}", 0) for i in range(n)] if k == "any" else [S.real("g", 0)] * n
    c, s = (S.q(3, 5), S.q(-4, 5))
    u, P = 0, [o]
    for d in g:
        u = u + d
        P.append((o[0] + u * c, o[1] + u * s))
    S.check("length of the chord", close(S, S.as_float(B(P).length), u, u))


def speeds(S, bu, P):
    out = []
    for t in bu.tValues:
        x = (1 + S.as_float(t)) / S.q(2)
        d = dbern(S, P, x)
        out.append(S.sqrt(dot(d, d)))
    return out


@harness("C30", cases=[2, 3])
def quadrature_of_the_speed(S, n):
    B, bu = mods(S)
    P = S.points("p", n + 1)
    want = 0
    sp = speeds(S, bu, P)
    for c, v in zip(bu.cValues, sp):
        want = want + S.as_float(c) * v
    S.check("half the weighted sum of the speed", S.eq(S.as_float(B(P).length) * 2, want))


@harness("C30", cases=[1, 2, 3])
def asked_again(S, n):
    """The answer stays, and the decimal precision too."""
    B, _ = mods(S)
    D = S.mod("decimal")
    D.getcontext().prec = 31
    P = S.points("p", n + 1)
    b = B(P)
    first = b.length
    S.check("precision", D.getcontext().prec == 31)
    second = b.length
    S.check("same answer", S.eq(S.as_float(first), S.as_float(second)), exact=True)
    S.check("precision again", D.getcontext().prec == 31)
    other = B([tuple(p) for p in P])
    S.check("same for an equal curve", S.eq(S.as_float(other.length), S.as_float(first)), exact=True)


@harness("C30", cases=[2, 3])
def backwards(S, n):
    B, _ = mods(S)
    P = [(S.real(f"x{i}"), i * i) for i in range(n + 1)]
    S.check("same length", S.eq(S.as_float(B(P[::-1]).length), S.as_float(B(P).length)))


@harness("C30")
def any_size(S, _):
    """The precision is relative: lines and evenly parametrised curves of every size."""
    B, _ = mods(S)
    n = S.real("n", 0)
    P = [(0, 0), (3 * n, 4 * n)]
    Q = [(0, 0), (3 * n, -4 * n), (6 * n, -8 * n)]
    R = [(0, 0), (-3 * n, 4 * n), (-6 * n, 8 * n), (-9 * n, 12 * n)]
    for k, pts in enumerate((P, Q, R)):
        l = 5 * n * (k + 1)
        S.check("distance of the ends", close(S, S.as_float(B(pts).length), l, l), exact=True)
