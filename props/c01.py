"""C01 Bounds rectangles are the minimal enclosing rectangles of their points."""
from sx.api import harness
from .util import is_bounds_of, axis_points

BOUNDS = ("up to 3 points with both coordinates free, up to 6 points with one free coordinate; contours of up to 3 "
          "segments of 2..4 points, up to 3 contours, some of them empty; coordinates range over all reals")


@harness("C01", cases=[1, 2, 3], thorough=[4])
def rectangle_of_points(S, n):
    PU = S.mod("PathLib.PathUtilities")
    pts = S.points("p", n)
    r = PU.BoundsRectangle(*pts)
    S.check("minimal enclosure", is_bounds_of(S, r, pts), exact=True)
    for p in pts:
        S.check("every given point is enclosed", r.enclosesPoint(p))


@harness("C01", cases=[(4, 0), (4, 1), (6, 0), (6, 1)], thorough=[(8, 0), (8, 1)])
def rectangle_of_many_points(S, case):
    n, dim = case
    PU = S.mod("PathLib.PathUtilities")
    pts = axis_points(S, "v", n, dim)
    r = PU.BoundsRectangle(*pts)
    S.check("minimal enclosure", is_bounds_of(S, r, pts), exact=True)


@harness("C01", cases=[2, 3])
def rectangle_of_integer_points(S, n):
    PU = S.mod("PathLib.PathUtilities")
    pts = S.points("p", n, kind="i")
    r = PU.BoundsRectangle(*pts)
    S.check("minimal enclosure", is_bounds_of(S, r, pts), exact=True)


SHAPES = [[2], [2, 2], [3, 2], [2, 4, 3]]


@harness("C01", cases=[(s, d) for s in SHAPES for d in (0, 1)])
def rectangle_of_contour(S, case):
    shape, dim = case
    PU = S.mod("PathLib.PathUtilities")
    flat = axis_points(S, "v", sum(shape), dim)
    contour, k = [], 0
    for m in shape:
        contour.append(flat[k:k + m])
        k += m
    r = PU.BoundsRectangle.fromContour(contour)
    S.check("minimal enclosure", is_bounds_of(S, r, flat), exact=True)


# contours of segments; [] is a contour without segments
GROUPS = [[[2]], [[2], [2, 2]], [[], [2]], [[2], []], [[], [], [3]], [[2], [], [2, 2]]]


@harness("C01", cases=[(g, d) for g in GROUPS for d in (0, 1)])
def rectangle_of_contours(S, case):
    groups, dim = case
    PU = S.mod("PathLib.PathUtilities")
    flat = axis_points(S, "v", sum(map(sum, groups)), dim)
    contours, k = [], 0
    for shape in groups:
        c = []
        for m in shape:
            c.append(flat[k:k + m])
            k += m
        contours.append(c)
    r = PU.BoundsRectangle.fromCoutours(contours)
    S.check("minimal enclosure", is_bounds_of(S, r, flat), exact=True)


@harness("C01", cases=["points", "contour", "contours", "union"])
def empty_rectangle(S, case):
    """A rectangle of no points encloses nothing and does not disturb a union."""
    PU = S.mod("PathLib.PathUtilities")
    BR = PU.BoundsRectangle
    r = {"points": lambda: BR(), "contour": lambda: BR.fromContour([]),
         "contours": lambda: BR.fromCoutours([[], []]), "union": lambda: BR().union(BR())}[case]()
    p, a, b = S.points("p", 3)
    S.check("encloses no point", S.Not(r.enclosesPoint(p)))
    u = r.union(BR(a, b))
    S.check("union with a rectangle is that rectangle", is_bounds_of(S, u, [a, b]), exact=True)
    u = BR(a, b).union(r)
    S.check("union of a rectangle with it is that rectangle", is_bounds_of(S, u, [a, b]), exact=True)


@harness("C01", cases=[0, 1])
def order_does_not_matter(S, dim):
    PU = S.mod("PathLib.PathUtilities")
    pts = axis_points(S, "v", 4, dim)
    r = PU.BoundsRectangle(*pts)
    q = PU.BoundsRectangle(*(pts[2], pts[0], pts[3], pts[1], pts[0]))
    S.check("same rectangle for a permuted list", S.eq(r.points, q.points), exact=True)
