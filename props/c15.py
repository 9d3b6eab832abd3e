"""C15 Extrema of a curve are complete and sound."""
from sx.api import harness

BOUNDS = ("orders 1 to 3; per coordinate: all control values (any derivative polynomial); combined list: all quadratic "
          "curves, and cubics with one free coordinate against fixed ones of every root pattern")


def from_derivative(S, name, n):
    """Control values of a polynomial of degree n with arbitrary derivative values."""
    v = [S.real(name + "0")]
    d = []
    for i in range(n):
        d.append(S.real(f"{name}d{i}"))
        v.append(v[-1] + d[-1])
    return v, d


def deriv(d, t, n):
    """Derivative at t from the control differences d."""
    u = 1 - t
    if n == 1:
        return d[0]
    if n == 2:
        return 2 * (d[0] * u + d[1] * t)
    return 3 * (d[0] * u * u + 2 * d[1] * u * t + d[2] * t * t)


def deriv2(d, t):
    return 6 * ((d[1] - d[0]) * (1 - t) + (d[2] - d[1]) * t)


OTHER = {1: [2, 5], 2: [2, 5, 9], 3: [2, 5, 9, 20]}


@harness("C15", cases=[(n, dim) for n in (1, 2, 3) for dim in (0, 1)])
def sound(S, case):
    n, dim = case
    B = S.mod("PathLib.Bezier").Bezier
    v, d = from_derivative(S, "v", n)
    pts = [(a, b) if dim == 0 else (b, a) for a, b in zip(v, OTHER[n])]
    b = B(pts)
    ex = b.extrema[dim]
    S.check("a list", isinstance(ex, list))
    for t in ex:
        S.check("in [0,1]", S.between(0, t, 1))
        z = S.eq(deriv(d, t, n), 0)
        S.check("derivative vanishes", S.Or(z, S.eq(deriv2(d, t), 0)) if n == 3 else z)


@harness("C15", cases=[(n, dim) for n in (2, 3) for dim in (0, 1)])
def complete(S, case):
    """A parameter where the derivative vanishes is in the list."""
    n, dim = case
    B = S.mod("PathLib.Bezier").Bezier
    t = S.real("t", 0, 1)
    v, d = from_derivative(S, "v", n)
    S.assume(S.eq(deriv(d, t, n), 0))
    S.assume(S.Not(S.And(S.eq(x, 0) for x in d)))
    pts = [(a, b) if dim == 0 else (b, a) for a, b in zip(v, OTHER[n])]
    ex = B(pts).extrema[dim]
    S.check("the critical parameter is reported", S.Or(S.eq(x, t) for x in ex))


@harness("C15", cases=[0, 1])
def inflections_complete(S, dim):
    B = S.mod("PathLib.Bezier").Bezier
    t = S.real("t", 0, 1)
    v, d = from_derivative(S, "v", 3)
    S.assume(S.eq(deriv2(d, t), 0))
    S.assume(S.ne(d[2] - d[1], d[1] - d[0]))
    pts = [(a, b) if dim == 0 else (b, a) for a, b in zip(v, OTHER[3])]
    ex = B(pts).extrema[dim]
    S.check("the zero of the second derivative is reported", S.Or(S.eq(x, t) for x in ex))


def combined_ok(S, ex):
    both = list(ex[0]) + list(ex[1])
    c = ex[2]
    S.check("three lists", len(ex) == 3)
    for a, b in zip(c, c[1:]):
        S.check("sorted without repetitions", S.lt(a, b))
    for x in both:
        S.check("contains every parameter", S.Or(S.eq(x, y) for y in c))
    for y in c:
        S.check("contains nothing else", S.Or(S.eq(x, y) for x in both))


@harness("C15", cases=[1, 2])
def combined(S, n):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    combined_ok(S, B(P).extrema)


# fixed control values: no root, only an inflection, one root, two roots, roots at the ends, constant
FIXED = [(0, 1, 3, 9), (0, 3, 3, 6), (0, 4, 2, 1), (0, 6, -6, 0), (0, 0, 3, 3), (5, 5, 5, 5), (0, 1, 2, 3)]


@harness("C15", cases=[(i, i % 2) for i in range(len(FIXED))], thorough=[(i, 1 - i % 2) for i in range(len(FIXED))], weight=4)
def combined_cubic(S, case):
    i, dim = case
    B = S.mod("PathLib.Bezier").Bezier
    v, d = from_derivative(S, "v", 3)
    pts = [(a, b) if dim == 0 else (b, a) for a, b in zip(v, FIXED[i])]
    combined_ok(S, B(pts).extrema)


@harness("C15", cases=[2, 3])
def repeated_question(S, n):
    B = S.mod("PathLib.Bezier").Bezier
    v, d = from_derivative(S, "v", n)
    b = B([(x, y) for x, y in zip(v, OTHER[n])])
    e = b.extrema
    first = [list(e[0]), list(e[1]), list(e[2])]
    e = b.extrema
    S.check("same answer", S.And(S.eq(list(e[k]), first[k]) for k in range(3)), exact=True)
