"""C27 The plotter's SVG paths draw exactly the given curves."""
import re
from sx.api import harness
from .util import BadPath, connected, same_path, svg_subpaths
from .c24 import bounds

BOUNDS = ("one or two contours of up to three lines, quadratics and cubics each, connected, with all coordinates; contours, "
          "paths, curves and point lists of up to four points; with and without abbreviation, filling and closing; up to "
          "two drawings by one plotter")
ASSUMPTIONS = ["FontDocTools' plotter engine is replaced by a recording stand-in"]
BUDGET = 400


def plotter(S, poly):
    P = S.mod("PathLib.ContourPlotter").ContourPlotter
    return P((0, 0, 100, 100), poly=True) if poly else P((0, 0, 100, 100))


def drawn(S, p, since=0):
    """The subpaths of all path elements drawn, or None if some are not path data."""
    out = []
    for text in p._content[since:]:
        m = re.fullmatch(r"\s*<path\s(.*)/>\s*", text, re.S)
        S.check("a path element", m is not None)
        d = re.findall(r"(?:^|\s)d='([^']*)'|(?:^|\s)d=\"([^\"]*)\"", m.group(1))
        S.check("one data attribute", len(d) == 1)
        try:
            out += svg_subpaths(S, d[0][0] or d[0][1])
        except BadPath:
            S.check("well-formed path data", False)
            return None
    return out


def same(S, got, want, closed=None):
    if got is None:
        return
    S.check("one subpath for each contour", len(got) == len(want))
    for (segs, z, start), w in zip(got, want):
        S.check("starts at the start", S.eq(start, w[0][0]))
        S.check("the same curves", same_path(S, w, segs))
        if closed is not None:
            S.check("closed when requested", z == closed)


ONE = ["l", "q", "c", "ll", "lq", "lc", "ql", "cl", "qq", "cc", "qc", "lll", "lql", "lcl", "qlq", "llc"]


@harness("C27", cases=[(k, p) for k in ONE for p in (False, True)],
         thorough=[(k, p) for k in ("llll", "lqcl", "clcl", "qqll", "llqq") for p in (False, True)])
def contour(S, case):
    kinds, poly = case
    p = plotter(S, poly)
    w = connected(S, kinds)
    p.drawContours([w])
    same(S, drawn(S, p), [w], True)


@harness("C27", cases=[("l", "l"), ("ll", "l"), ("lq", "ql"), ("q", "q"), ("c", "c"), ("lc", "cl")])
def two_contours(S, case):
    """The first segment of a contour is not taken for a continuation of the contour before."""
    p = plotter(S, True)
    w = [connected(S, case[0]), connected(S, case[1], "r")]
    p.drawContours(w)
    same(S, drawn(S, p), w, True)


@harness("C27", cases=[(f, c, k) for f in (None, False, True) for c in (None, False, True) for k in (None, "red")])
def options(S, case):
    fill, close, color = case
    kw = {n: v for n, v in (("fill", fill), ("close", close), ("color", color)) if v is not None}
    p = plotter(S, False)
    w = [connected(S, "lq"), connected(S, "c", "r")]
    p.drawContours(w, **kw)
    same(S, drawn(S, p), w, close is not False)


@harness("C27", cases=[(k, p) for k in ONE for p in (False, True)])
def path(S, case):
    kinds, poly = case
    m = bounds(S)
    p = plotter(S, poly)
    w = connected(S, kinds)
    p.drawPaths([m.BContour(w)])
    same(S, drawn(S, p), [w])


@harness("C27", cases=[("l", "l"), ("ll", "l"), ("lq", "ql"), ("c", "c"), ("q", "q")])
def outline(S, case):
    m = bounds(S)
    p = plotter(S, True)
    w = [connected(S, case[0]), connected(S, case[1], "r")]
    p.drawPaths(m.BOutline(w))
    same(S, drawn(S, p), w)


@harness("C27", cases=[(f, c) for f in (False, True) for c in (None, "red")])
def path_options(S, case):
    fill, color = case
    m = bounds(S)
    p = plotter(S, False)
    w = [connected(S, "lq"), connected(S, "c", "r")]
    p.drawPaths([m.BContour(x) for x in w], color=color, fill=fill)
    same(S, drawn(S, p), w)


@harness("C27", cases=[(n, c, p) for n in (2, 3, 4) for c in (None, "red") for p in (False, True)])
def points(S, case):
    n, color, poly = case
    p = plotter(S, poly)
    q = S.points("p", n)
    p.drawPointsAsSegments(q, color=color) if color else p.drawPointsAsSegments(q)
    same(S, drawn(S, p), [[[a, b] for a, b in zip(q, q[1:])]], False)


@harness("C27", cases=["l", "q", "c"])
def curve(S, kind):
    p = plotter(S, False)
    w = connected(S, kind)
    p.drawCurve(w[0], color="red")
    same(S, drawn(S, p), [w], False)


@harness("C27", cases=[(a, b) for a in ("contours", "paths", "points", "curve") for b in ("contours", "paths", "points", "curve")])
def two_drawings(S, case):
    """The second drawing does not depend on the first, however commands are abbreviated."""
    m = bounds(S)
    p = plotter(S, True)
    n = 0
    for i, what in enumerate(case):
        w = connected(S, "q" if what == "curve" else "l" if what == "points" else "lq", "pr"[i])
        {"contours": lambda: p.drawContours([w]), "paths": lambda: p.drawPaths([m.BContour(w)]),
         "points": lambda: p.drawPointsAsSegments([w[0][0], w[0][1]]), "curve": lambda: p.drawCurve(w[0])}[what]()
        same(S, drawn(S, p, n), [w])
        n = len(p._content)


def circles(p):
    return [c for c in p._calls if c[0] == "circle"]


@harness("C27", cases=[(n, f, k) for n in (1, 2, 3) for f in (True, False) for k in (None, 2)])
def points_as_circles(S, case):
    n, fill, colors = case
    p = plotter(S, False)
    q = S.points("p", n)
    r = S.real("r")
    p.drawPointsAsCircles(q, r, ["red", "blue"] if colors else None, fill)
    c = circles(p)
    S.check("one circle for each point", len(c) == n)
    for i, (x, a) in enumerate(zip(c, q)):
        S.check("around the point", S.And(S.eq((x[2], x[3]), a), S.eq(x[4], r)))
        S.check("painted as requested", x[5] == ("fill" if fill else "stroke"))
        if colors:
            S.check("colors in turn", x[6 if fill else 7] == ("red", "blue")[i % 2])


@harness("C27", cases=[(m, f, k) for m in ("drawPointsAsCircles", "drawComplexPointsAsCircles") for f in (True, False) for k in (1, 2)])
def complex_points_as_circles(S, case):
    method, fill, k = case
    colors = ["red", "blue"][:k]
    p = plotter(S, False)
    q = S.points("p", 3)
    r = S.real("r")
    getattr(p, method)([S.cpoint(x) for x in q], r, colors, fill)
    c = circles(p)
    S.check("one circle for each point", len(c) == 3)
    for i, (x, a) in enumerate(zip(c, q)):
        S.check("around the point", S.And(S.eq((x[2], x[3]), a), S.eq(x[4], r)))
        S.check("painted as requested", x[5] == ("fill" if fill else "stroke"))
        S.check("colors in turn", x[6 if fill else 7] == colors[i % k])


def polyline(q):
    return [[a, b] for a, b in zip(q, q[1:])]


@harness("C27", cases=[1, 2, 3])
def skeleton(S, n):
    """The control polygon and its points."""
    m = bounds(S)
    p = plotter(S, False)
    q = [(S.real(f"x{i}"), i * i) for i in range(n + 1)]
    p.drawSkeleton(m.Bezier(q))
    same(S, drawn(S, p), [polyline(q)])
    c = circles(p)
    S.check("a circle at every control point", len(c) == n + 1)
    S.check("in place", S.eq([(x[2], x[3]) for x in c], q))
    labels = [c for c in p._calls if c[0] == "label"]
    S.check("a label for every control point", len(labels) == n + 1)


@harness("C27", cases=[(2, 0.5), (3, 0.5), (3, 0.25)])
def hull(S, case):
    """The control polygon, then every level of interpolation."""
    n, t = case
    m = bounds(S)
    p = plotter(S, False)
    q = [(S.real(f"x{i}"), i * i) for i in range(n + 1)]
    p.drawHull(m.Bezier(q), t)
    want = [polyline(q)]
    k = q
    while len(k) > 2:
        k = [(a[0] + (b[0] - a[0]) * S.q(t), a[1] + (b[1] - a[1]) * S.q(t)) for a, b in zip(k, k[1:])]
        want.append(polyline(k))
    same(S, drawn(S, p), want)


@harness("C27", cases=["end", "both"])
def arrow(S, position):
    p = plotter(S, False)
    a, b = S.points("p", 2)
    p.drawArrowBetweenPoints(a, b, "red", position=position)
    c = [c for c in p._calls if c[0] == "arrow"]
    S.check("one arrow", len(c) == 1)
    S.check("between the points", S.eq(tuple(c[0][2:6]), a + b))
    S.check("as requested", c[0][6] == "open60" and c[0][7] == position and c[0][9] == "red")
