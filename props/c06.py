"""C06 Line intersections are sound and complete."""
from sx.api import harness
from .util import cross, sub

BOUNDS = ("two lines or segments given by two points each; all real coordinates, float and int kinds; parallel, "
          "coincident, touching and degenerate configurations included")


def on_line(S, p, a, b):
    return S.eq(cross(sub(b, a), sub(p, a)), 0)


@harness("C06", cases=[("lli8", "f"), ("lli4", "f"), ("lli", "f"), ("lli8", "i"), ("lli", "i")])
def infinite_lines(S, case):
    which, kind = case
    BU = S.mod("PathLib.BezierUtilities")
    a, b, c, d = S.points("p", 4, kind)
    if which == "lli8":
        r = BU.lli8(*a, *b, *c, *d)
    elif which == "lli4":
        r = BU.lli4(a, b, c, d)
    else:
        r = BU.lli([a, b], [c, d])
    D = cross(sub(b, a), sub(d, c))
    if r is None:
        S.check("no point only for parallel lines", S.eq(D, 0), exact=True)
    else:
        S.check("a point only for lines that are not parallel", S.ne(D, 0), exact=True)
        S.check("on the first line", on_line(S, r, a, b))
        S.check("on the second line", on_line(S, r, c, d))


@harness("C06", cases=[0, 1, 2, 3])
def curves_as_lines(S, k):
    """Only the first two points of each line are used."""
    BU = S.mod("PathLib.BezierUtilities")
    a, b, c, d, e = S.points("p", 5)
    if k == 0:
        r, q = BU.lli([a, b, e], [c, d]), BU.lli([a, b], [c, d])
    elif k == 1:
        r, q = BU.lli((a, b), (c, d)), BU.lli([c, d], [a, b])
    elif k == 2:
        r, q = BU.lli4(b, a, c, d), BU.lli4(a, b, c, d)
    else:
        r, q = BU.lli4(a, b, d, c), BU.lli4(a, b, c, d)
    if r is None or q is None:
        S.check("both have none", r is None and q is None)
    else:
        S.check("same point", S.eq(r, q))


def within(S, p, a, b):
    """p on the closed segment ab (given that it is on the line): the dot product criterion."""
    v, w = sub(p, a), sub(p, b)
    return S.le(v[0] * w[0] + v[1] * w[1], 0)


def on_segment(S, p, a, b):
    return S.And(on_line(S, p, a, b), within(S, p, a, b))


@harness("C06", cases=[(h, v) for h in (0, 1, 2) for v in (0, 1, 2)] + [(3, 3)])
def segments(S, case):
    """Both segments given by parameters: the second is placed so that the crossing is at known parameters."""
    PU = S.mod("PathLib.PathUtilities")
    i, j = case
    # a + s*u is the meeting point of the infinite lines; s and r are arbitrary
    m = S.point("m")
    u = {0: (S.real("ux"), S.real("uy")), 1: (S.real("ux"), 0), 2: (0, S.real("uy")), 3: (S.real("ux"), S.real("uy"))}[i]
    w = {0: (S.real("wx"), S.real("wy")), 1: (S.real("wx"), 0), 2: (0, S.real("wy")), 3: (S.real("wx"), S.real("wy"))}[j]
    s, r = S.real("s"), S.real("r")
    if (i, j) in ((1, 1), (2, 2)):
        a, c = m, S.point("n")
        b, d = (a[0] + u[0], a[1] + u[1]), (c[0] + w[0], c[1] + w[1])
        S.check("parallel segments have none", PU.intersectionPoint([a, b], [c, d]) is None)
        return
    S.assume(S.ne(cross(u, w), 0))
    a = (m[0] - s * u[0], m[1] - s * u[1])
    b = (a[0] + u[0], a[1] + u[1])
    c = (m[0] - r * w[0], m[1] - r * w[1])
    d = (c[0] + w[0], c[1] + w[1])
    p = PU.intersectionPoint([a, b], [c, d])
    both = S.And(S.between(0, s, 1), S.between(0, r, 1))
    if p is None:
        S.check("none only if they do not meet", S.Not(both))
    else:
        S.check("only if they meet", both)
        S.check("the meeting point", S.eq(p, m))


@harness("C06", cases=["shared end", "collinear", "degenerate"])
def special_segments(S, case):
    PU = S.mod("PathLib.PathUtilities")
    a, b, c = S.points("p", 3)
    if case == "shared end":
        p = PU.intersectionPoint([a, b], [b, c])
        if p is None:
            S.check("only if parallel", S.eq(cross(sub(b, a), sub(c, b)), 0), exact=True)
        else:
            S.check("the shared end", S.eq(p, b))
    elif case == "collinear":
        s, r = S.real("s"), S.real("r")
        p = PU.intersectionPoint([a, b], [(a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])),
                                          (a[0] + r * (b[0] - a[0]), a[1] + r * (b[1] - a[1]))])
        S.check("none for coincident lines", p is None)
    else:
        S.check("none for a point", PU.intersectionPoint([a, a], [b, c]) is None)
        S.check("none for a point, second", PU.intersectionPoint([b, c], [a, a]) is None)


@harness("C06", cases=[0, 1, 2])
def symmetric(S, k):
    PU = S.mod("PathLib.PathUtilities")
    m = S.point("m")
    ux, wy, s, r = S.real("ux"), S.real("wy"), S.real("s"), S.real("r")
    S.assume(S.And(S.ne(ux, 0), S.ne(wy, 0)))
    sk = (1, 0, -2)[k]
    a, b = (m[0] - s * ux, m[1] - sk * s * ux), (m[0] + (1 - s) * ux, m[1] + sk * (1 - s) * ux)
    c, d = (m[0], m[1] - r * wy), (m[0], m[1] + (1 - r) * wy)
    p, q = PU.intersectionPoint([a, b], [c, d]), PU.intersectionPoint([d, c], [b, a])
    if p is None or q is None:
        S.check("order and direction do not matter", p is None and q is None)
    else:
        S.check("order and direction do not matter for the point", S.eq(p, q))
