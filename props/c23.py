"""C23 Paths and outlines report the aggregate of their current curves."""
from sx.api import harness
from .util import FIXED, bern, is_bounds_of

BOUNDS = ("paths of one to three lines with one free axis, and of lines, quadratics and cubics of free size and place; "
          "every replacement and removal by position, also on paths whose curves do not join, before and after the samples were asked for; outlines of up to "
          "two paths; 2 to 5 samples per curve")


def place(v, i, dim):
    return (v, FIXED[i]) if dim == 0 else (FIXED[i], v)


def polyline(S, n, dim, name="p"):
    p = [place(S.real(f"{name}{i}"), i, dim) for i in range(n + 1)]
    return [[a, b] for a, b in zip(p, p[1:])]


def joined(path):
    return [p for s in path for p in s]


def segments(c):
    return [[tuple(p) for p in b.controlPoints] for b in c.beziers]


def samples(S, path, n):
    out = []
    for k, s in enumerate(path):
        out += [bern(S, s, S.q(i, n - 1)) for i in range(1 if k else 0, n)]
    return out


def whole(S, c, path, lut=(3,)):
    """Everything the path c reports is that of the given segments."""
    S.check("curves in order", S.eq(segments(c), path), exact=True)
    S.check("ends", S.And(S.eq(tuple(c.start), path[0][0]), S.eq(tuple(c.end), path[-1][-1])), exact=True)
    for n in lut:
        S.check("samples", S.eq([tuple(p) for p in c.getLUT(n)], samples(S, path, n)))


def lines_bounds(S, c, path):
    S.check("bounds", is_bounds_of(S, c.boundsRectangle, joined(path)))


@harness("C23", cases=[(n, d) for n in (1, 2, 3) for d in (0, 1)])
def path_of_lines(S, case):
    n, dim = case
    C = S.mod("PathLib.Bezier").BContour
    path = polyline(S, n, dim)
    c = C(path)
    whole(S, c, path, (2, 3, 5, 3))
    lines_bounds(S, c, path)
    S.check("iterates over the curves", S.eq([[tuple(p) for p in b.controlPoints] for b in c], path))
    S.check("indexed", S.eq([tuple(p) for p in c[n - 1].controlPoints], path[n - 1]))
    S.check("indexed from the end", S.eq([tuple(p) for p in c[-n].controlPoints], path[0]))


CURVES = {"q": [(0, 0), (2, 3), (4, 1)], "c": [(0, 0), (2, 9), (4, -6), (7, 3)], "l": [(0, 0), (-3, 2)]}


def mixed(S, kinds):
    """Curves of a free common size, joined at a free place."""
    at = S.point("o")
    k = S.real("k")
    S.assume(S.gt(k, 0))
    path = []
    for w in kinds:
        path.append([(at[0] + k * x, at[1] + k * y) for x, y in CURVES[w]])
        at = path[-1][-1]
    return path


@harness("C23", cases=["q", "lq", "qc", "clq"])
def path_of_curves(S, kinds):
    B = S.mod("PathLib.Bezier")
    path = mixed(S, kinds)
    c = B.BContour(path)
    whole(S, c, path, (3, 2))
    r = c.boundsRectangle
    each = [B.Bezier(s).boundsRectangle for s in path]
    S.check("bounds enclose the bounds of every curve, tightly", is_bounds_of(
        S, r, [p for e in each for p in ((e.left, e.bottom), (e.right, e.top))]))


def edited(S, c, path, new, i, kind):
    if kind == "set":
        c[i] = new
        path[i] = new
    else:
        del c[i]
        del path[i]
    return path


@harness("C23", cases=[(n, i, k, d) for n, i, k, d in (
    (1, 0, "set", 0), (2, 0, "set", 1), (2, 1, "set", 0), (3, 1, "set", 1), (2, -1, "set", 1), (3, 2, "set", 0),
    (2, 0, "del", 0), (2, 1, "del", 1), (3, 1, "del", 0), (3, -1, "del", 1), (3, 0, "del", 1))])
def edits(S, case):
    """After an edit everything is that of the curves there are now."""
    n, i, kind, dim = case
    C = S.mod("PathLib.Bezier").BContour
    path = polyline(S, n, dim)
    c = C(path)
    c.getLUT(3)
    c.boundsRectangle
    new = [place(S.real("a"), 5, dim), place(S.real("b"), 6, dim)]
    path = edited(S, c, list(path), new, i, kind)
    whole(S, c, path, (3,))
    lines_bounds(S, c, path)


@harness("C23", cases=[("set", "set"), ("set", "del"), ("del", "set"), ("del", "del")])
def two_edits(S, kinds):
    C = S.mod("PathLib.Bezier").BContour
    path = polyline(S, 3, 0)
    S.assume(S.And(S.lt(path[0][0][0], path[0][1][0]), S.lt(path[1][0][0], path[1][1][0])))
    c = C(path)
    for k, kind in enumerate(kinds):
        new = [place(S.real(f"a{k}"), 5 + k, 0), place(path[0][0][0], 7 + k, 0)]
        path = edited(S, c, list(path), new, (1, 0)[k], kind)
        whole(S, c, path, (2, 3))
    lines_bounds(S, c, path)


@harness("C23", cases=[("lq", "set"), ("qc", "set"), ("clq", "del"), ("ql", "del")])
def edits_of_curves(S, case):
    kinds, kind = case
    B = S.mod("PathLib.Bezier")
    path = mixed(S, kinds)
    c = B.BContour(path)
    c.getLUT(3)
    new = [(x * 2 + path[0][0][0], y + path[0][0][1]) for x, y in CURVES["q"]]
    path = edited(S, c, list(path), new, 0, kind)
    whole(S, c, path, (3,))
    r = c.boundsRectangle
    each = [B.Bezier(s).boundsRectangle for s in path]
    S.check("bounds enclose the bounds of every curve, tightly", is_bounds_of(
        S, r, [p for e in each for p in ((e.left, e.bottom), (e.right, e.top))]))


@harness("C23", cases=[(1, 0), (2, 0), (2, 1)])
def outline(S, case):
    n, dim = case
    O = S.mod("PathLib.Bezier").BOutline
    paths = [polyline(S, 1, dim, f"p{i}") for i in range(n)]
    o = O(paths)
    S.check("paths in order", S.eq([segments(c) for c in o], paths), exact=True)
    S.check("by either name", S.And(S.eq([segments(c) for c in o.contours], paths),
                                    S.eq([segments(c) for c in o.bContours], paths)))
    S.check("bounds", is_bounds_of(S, o.boundsRectangle, joined(joined(paths))))
    for c, p in zip(o, paths):
        whole(S, c, p, (2,))


@harness("C23")
def helpers(S, _):
    m = S.mod("PathLib.Bezier")
    P = S.points("p", 4)
    a, b = [P[0], P[1]], [P[1], P[2], P[3]]
    O = m.BOutline
    s = [O.segmentFromPoints(a), O.segmentFromPoints(b)]
    S.check("a curve from points", S.eq([[tuple(p) for p in x.controlPoints] for x in s], [a, b]), exact=True)
    xs, ys = O.unzipPoints(P)
    S.check("coordinates apart", S.And(S.eq(list(xs), [p[0] for p in P]), S.eq(list(ys), [p[1] for p in P])))
    for k in (m.Bezier, m.BContour, O):
        S.check("point from and to coordinates", S.And(S.eq(tuple(k.pointXY(P[0])), P[0]), S.eq(tuple(k.xyPoint(*P[0])), P[0])))


@harness("C23")
def path_from_curves(S, _):
    m = S.mod("PathLib.Bezier")
    path = mixed(S, "lq")
    c = m.BOutline.pathFromSegments(*[m.Bezier(s) for s in path])
    whole(S, c, path, (3,))


@harness("C23", cases=[(k, i) for k in ("set", "del") for i in (0, 1, 2, -1, -2, -3)])
def edits_of_paths_that_do_not_join(S, case):
    kind, i = case
    C = S.mod("PathLib.Bezier").BContour
    path = [[place(S.real(f"p{k}"), 2 * k, 0), place(k * 3 + 1, 2 * k + 1, 0)] for k in range(3)]
    c = C(path)
    whole(S, c, path, (2,))
    path = edited(S, c, list(path), [place(S.real("a"), 5, 0), place(11, 3, 0)], i, kind)
    whole(S, c, path, (2,))
    lines_bounds(S, c, path)
