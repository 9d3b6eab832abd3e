"""C02 Rectangle algebra: union, intersection, containment and the relation between two rectangles."""
from sx.api import harness

BOUNDS = ("pairs of rectangles spanned by two free points each (all reals, degenerate ones included); "
          "triples for the lattice laws with one free axis; edges moved, and results moved, after the fact")


def rect(S, PU, name, dim=None):
    if dim is None:
        a, b = S.points(name, 2)
    else:
        u, v = S.real(name + "0"), S.real(name + "1")
        a, b = ((u, 1), (v, 4)) if dim == 0 else ((1, u), (4, v))
    return PU.BoundsRectangle(a, b)


def valid(S, r):
    return S.And(S.le(r.left, r.right), S.le(r.bottom, r.top))


def inside(S, p, r):
    return S.And(S.le(r.left, p[0]), S.le(p[0], r.right), S.le(r.bottom, p[1]), S.le(p[1], r.top))


def rect_in(S, o, r):
    return S.And(S.le(r.left, o.left), S.le(o.right, r.right), S.le(r.bottom, o.bottom), S.le(o.top, r.top))


@harness("C02")
def union_is_least_upper_bound(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    u = a.union(b)
    S.check("contains both", S.And(rect_in(S, a, u), rect_in(S, b, u)), exact=True)
    c = rect(S, PU, "c")
    S.check("contained in every rectangle containing both",
            S.Implies(S.And(rect_in(S, a, c), rect_in(S, b, c)), rect_in(S, u, c)), exact=True)
    v = b.union(a)
    S.check("commutative", S.eq(u.points, v.points), exact=True)


@harness("C02")
def intersection_is_greatest_lower_bound(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    p = S.point("p")
    common = S.And(inside(S, p, a), inside(S, p, b))
    i = a.intersection(b)
    if i is None:
        S.check("None only when no point is common", S.Not(common), exact=True)
    else:
        S.check("a valid rectangle", valid(S, i), exact=True)
        S.check("exactly the common points", S.iff(inside(S, p, i), common), exact=True)


@harness("C02")
def intersection_is_symmetric(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    i, j = a.intersection(b), b.intersection(a)
    S.check("both or neither", (i is None) == (j is None))
    if i is not None and j is not None:
        S.check("same rectangle", S.eq(i.points, j.points), exact=True)


@harness("C02")
def enclosure_of_points(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a = rect(S, PU, "a")
    p = S.point("p")
    S.check("enclosesPoint is membership", S.iff(a.enclosesPoint(p), inside(S, p, a)), exact=True)


@harness("C02")
def crossing_lines(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a = rect(S, PU, "a")
    v = S.real("v")
    S.check("crossesX", S.iff(a.crossesX(v), S.between(a.left, v, a.right)), exact=True)
    S.check("crossesY", S.iff(a.crossesY(v), S.between(a.bottom, v, a.top)), exact=True)


@harness("C02")
def enclosure_of_rectangles(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    e = a.encloses(b)
    S.check("encloses is inclusion of the point sets", S.iff(e, rect_in(S, b, a)), exact=True)
    S.check("encloses itself", a.encloses(a))


@harness("C02")
def relation(S, _):
    PU = S.mod("PathLib.PathUtilities")
    BR = PU.BoundsRectangle
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    r = a.relationTo(b)
    ab, ba = rect_in(S, b, a), rect_in(S, a, b)
    meet = S.And(S.le(a.left, b.right), S.le(b.left, a.right), S.le(a.bottom, b.top), S.le(b.bottom, a.top))
    want = {BR.relationEncloses: ab, BR.relationEnclosed: S.And(ba, S.Not(ab)),
            BR.relationIntersects: S.And(meet, S.Not(ab), S.Not(ba)), BR.relationSeparate: S.Not(meet)}
    S.check("one of the four relations", r in want)
    S.check("the relation named is the one that holds", want[r], exact=True)


@harness("C02", cases=["float", "int"])
def accessors(S, kind):
    PU = S.mod("PathLib.PathUtilities")
    a = PU.BoundsRectangle(*S.points("a", 2, kind="f" if kind == "float" else "i"))
    S.check("width", S.eq(a.width, a.right - a.left))
    S.check("height", S.eq(a.height, a.top - a.bottom))
    S.check("width and height are not negative", S.And(S.le(0, a.width), S.le(0, a.height)))
    S.check("area", S.eq(a.area, (a.right - a.left) * (a.top - a.bottom)))
    S.check("points", S.eq(a.points, (a.left, a.bottom, a.right, a.top)))
    S.check("diagonal", S.eq(list(a.diagonal), [(a.left, a.bottom), (a.right, a.top)]))
    S.check("centerPoint", S.eq(a.centerPoint, ((a.left + a.right) / 2, (a.bottom + a.top) / 2)))
    c = a.contour
    S.check("contour has four lines", len(c) == 4 and all(len(s) == 2 for s in c))
    for k in range(4):
        S.check("contour is closed and connected", S.eq(c[k][1], c[(k + 1) % 4][0]))
        x0, y0 = c[k][0]
        S.check("contour corners", S.And(S.Or(S.eq(x0, a.left), S.eq(x0, a.right)),
                                         S.Or(S.eq(y0, a.bottom), S.eq(y0, a.top))))
        S.check("contour edges are axis parallel", S.Or(S.eq(c[k][0][0], c[k][1][0]), S.eq(c[k][0][1], c[k][1][1])))
    S.check("contour visits opposite corners", S.And(
        S.eq(c[0][0][0] + c[2][0][0], a.left + a.right), S.eq(c[0][0][1] + c[2][0][1], a.bottom + a.top),
        S.eq(c[1][0][0] + c[3][0][0], a.left + a.right), S.eq(c[1][0][1] + c[3][0][1], a.bottom + a.top)))
    r = PU.BoundsRectangle.fromContour(c)
    S.check("contour spans the rectangle", S.eq(r.points, a.points))
    f = S.real("f")
    S.check("yFromBottom", S.eq(a.yFromBottom(f), a.bottom + (a.top - a.bottom) * f))
    S.check("xFromLeft", S.eq(a.xFromLeft(f), a.left + (a.right - a.left) * f))


@harness("C02")
def operations_do_not_change_operands(S, _):
    PU = S.mod("PathLib.PathUtilities")
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    pa, pb = a.points, b.points
    a.union(b), a.encloses(b), a.intersection(b), a.relationTo(b)
    a.contour, a.diagonal, a.centerPoint
    S.check("operands unchanged", S.And(S.eq(a.points, pa), S.eq(b.points, pb)), exact=True)


@harness("C02", cases=[0, 1])
def union_is_associative(S, dim):
    PU = S.mod("PathLib.PathUtilities")
    a, b, c = rect(S, PU, "a", dim), rect(S, PU, "b", dim), rect(S, PU, "c", dim)
    S.check("associative", S.eq(a.union(b).union(c).points, a.union(b.union(c)).points), exact=True)
    S.check("idempotent", S.eq(a.union(a).points, a.points), exact=True)


@harness("C02", cases=[0, 1])
def enclosure_is_transitive(S, dim):
    PU = S.mod("PathLib.PathUtilities")
    a, b, c = rect(S, PU, "a", dim), rect(S, PU, "b", dim), rect(S, PU, "c", dim)
    if a.encloses(b) and b.encloses(c):
        S.check("transitive", a.encloses(c))


@harness("C02")
def results_are_independent(S, _):
    """Moving the edges of a result leaves the operands alone, and the other way round."""
    PU = S.mod("PathLib.PathUtilities")
    a, b = rect(S, PU, "a"), rect(S, PU, "b")
    pa, pb = a.points, b.points
    d = S.real("d")
    for r in (a.union(b), b.union(a), a.union(a), a.union(PU.BoundsRectangle()), PU.BoundsRectangle().union(b),
              a.intersection(b), a.intersection(a)):
        if r is None:
            continue
        r.left, r.right, r.bottom, r.top = r.left + d, r.right + d, r.bottom - d, r.top - d
    S.check("operands unchanged", S.And(S.eq(a.points, pa), S.eq(b.points, pb)), exact=True)
    u = a.union(b)
    pu = u.points
    a.right, b.top = a.right + 40, b.top + d * d
    S.check("result unchanged", S.eq(u.points, pu), exact=True)


@harness("C02")
def moved_edges_are_followed(S, _):
    """Derived data is that of the current edges."""
    PU = S.mod("PathLib.PathUtilities")
    a = rect(S, PU, "a")
    d, e, f = (S.real("d"), S.real("e"), S.real("f"))

    def see():
        S.check("derived data", S.And(
            S.eq(a.width, a.right - a.left), S.eq(a.height, a.top - a.bottom),
            S.eq(a.area, (a.right - a.left) * (a.top - a.bottom)),
            S.eq(a.centerPoint, ((a.left + a.right) / 2, (a.bottom + a.top) / 2)),
            S.eq(list(a.diagonal), [(a.left, a.bottom), (a.right, a.top)]),
            S.eq(a.points, (a.left, a.bottom, a.right, a.top)),
            S.eq(a.contour[0][0], (a.left, a.bottom)), S.eq(a.contour[2][0], (a.right, a.top)),
            S.eq(a.yFromBottom(f), a.bottom + (a.top - a.bottom) * f),
            S.eq(a.xFromLeft(f), a.left + (a.right - a.left) * f)))
    see()
    a.right = a.right + d * d
    see()
    a.left, a.bottom, a.top = a.left - e * e, a.bottom - 1, a.top + e * e
    see()
    p = (a.right, a.top)
    S.check("encloses its new corner", a.enclosesPoint(p))
    S.check("crosses its new edges", bool(a.crossesX(a.left)) and bool(a.crossesY(a.bottom)))
