"""C36 Operations leave their arguments alone and answer the same again."""
from sx.api import harness
from .c18 import norm, same
from .c27 import plotter
from .util import quiet_logger

BOUNDS = ("over 60 operations taking lists, rectangles, curves, transformations or glyphs, on contours of up to two curves, "
          "matrices of two or three rows, up to four points, with free coordinates (one axis free for curves beyond lines); each asked twice "
          "with the same arguments and once more after the caller has emptied the lists of the first answer")
ASSUMPTIONS = ["FontDocTools' plotter engine is replaced by a recording stand-in"]
BUDGET = 400


def copied(x):
    """Nested lists, tuples and dictionaries copied, everything else as it is."""
    if isinstance(x, list):
        return [copied(y) for y in x]
    if isinstance(x, tuple):
        return tuple(copied(y) for y in x)
    return x


def unchanged(S, a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple)):
            return S.And(False)
        if len(a) != len(b):
            return S.And(False)
        return S.And(unchanged(S, x, y) for x, y in zip(a, b))
    if a is None or isinstance(a, (str, bool)) or hasattr(a, "controlPoints"):
        return S.And(a is b or (isinstance(a, str) and a == b))
    if hasattr(a, "imag") and hasattr(b, "imag"):
        return S.And(S.eq(a.real, b.real), S.eq(a.imag, b.imag))
    return S.eq(a, b)


def empty(x):
    if isinstance(x, list):
        for y in x:
            empty(y)
        del x[:]
    elif isinstance(x, tuple):
        for y in x:
            empty(y)


def points(S, name, n):
    return S.points(name, n)


def axis(S, name, n):
    xs = [0, 2, 5, 9, 11]
    return [(xs[i], S.real(f"{name}{i}")) for i in range(n)]


def lines(S, name, n=2):
    """A contour of lines."""
    p = points(S, name, n + 1)
    return [[a, b] for a, b in zip(p, p[1:])]


def curves(S, name):
    p = points(S, name, 4)
    return [[p[0], p[1], p[2]], [p[2], p[3]]]


def rect(S, name):
    return S.mod("PathLib.PathUtilities").BoundsRectangle(*points(S, name, 2))


def matrix(S, name, r, c):
    return [[S.real(f"{name}{i}{j}") for j in range(c)] for i in range(r)]


def U(S):
    return S.mod("PathLib.PathUtilities")


def BU(S):
    return S.mod("PathLib.BezierUtilities")


def CF(S):
    return S.mod("PathLib.CurveFitting")


def T(S):
    return S.mod("PathLib.Transform").Transform


def BZ(S):
    return S.mod("PathLib.Bezier")


def trans(S, name="m"):
    return matrix(S, name, 2, 3)


def affine(S, name="m"):
    a, b, c, d, m, n = [S.real(f"{name}{i}") for i in range(6)]
    return [[a, b, 0], [c, d, 0], [m, n, 1]]


class Glyph:
    def __init__(self, calls):
        self.calls = calls

    def draw(self, pen):
        for name, args in self.calls:
            getattr(pen, name)(*args)


def pen(S, glyphs=None):
    return S.mod("PathLib.SegmentPen").SegmentPen(glyphs or {}, quiet_logger())


def component(S, t):
    a, b, c = points(S, "g", 3)
    g = Glyph([("moveTo", (a,)), ("qCurveTo", (b, c)), ("closePath", ())])

    def ask(t):
        p = pen(S, {"a": g})
        p.addComponent("a", t)
        return p.contours
    return ask, [t]


def drawn(S, how):
    def ask(*args):
        p = plotter(S, False)
        how(p, *args)
        return [len(p._content), len(p._calls)]
    return ask


# name -> function of S giving (what to ask, its arguments)
OPS = {}


def op(name):
    def deco(fn):
        assert name not in OPS
        OPS[name] = fn
        return fn
    return deco


op("rectangle")(lambda S: (lambda p: U(S).BoundsRectangle(*p), [axis(S, "p", 3)]))
op("bounds of a contour")(lambda S: (U(S).BoundsRectangle.fromContour, [lines(S, "p", 1)]))
op("bounds of contours")(lambda S: (U(S).BoundsRectangle.fromCoutours, [[[[(S.real("a"), 0), (2, 1)]], [[(S.real("b"), 4), (3, 3)]]]]))
op("flatten")(lambda S: (U(S).flatten, [[[[lines(S, "p", 2)]], [[lines(S, "q", 1)]]]]))
op("ends")(lambda S: (U(S).endPoints, [points(S, "p", 3)]))
op("deltas")(lambda S: (U(S).getDeltas, [points(S, "p", 3)]))
op("midpoint")(lambda S: (U(S).midpoint, [points(S, "p", 2)]))
op("on a line")(lambda S: ((lambda p, l: [1] if U(S).pointOnLine(p, l) else [0]), [S.point("q"), points(S, "p", 2)]))
op("vertical")(lambda S: ((lambda l: [1] if U(S).isVerticalLine(l) else [0]), [points(S, "p", 2)]))
op("crossing of lines")(lambda S: (U(S).intersectionPoint, [[(0, 0), (4, S.real("a"))], [(S.real("b"), 3), (2, -1)]]))
op("minimum and maximum")(lambda S: (U(S).minMax, [S.real("a"), S.real("b")]))
op("segment about")(lambda S: (U(S).rotateSegmentAbout, [points(S, "p", 2), S.point("o"), 90]))
op("contour about")(lambda S: (U(S).rotateContourAbout, [curves(S, "p"), S.point("o"), 90]))
op("contours about")(lambda S: (U(S).rotateContoursAbout, [[curves(S, "p"), lines(S, "q", 1)], S.point("o"), 90]))

def applied(kind):
    def fn(S):
        t = T(S)(affine(S))
        arg = {"Point": lambda: S.point("p"), "Segment": lambda: points(S, "p", 3), "Contour": lambda: curves(S, "p"),
               "Contours of one": lambda: [curves(S, "p")], "Contour of one": lambda: lines(S, "p", 1), "Contours": lambda: [curves(S, "p"), lines(S, "q", 1)]}[kind]()
        return getattr(t, "applyTo" + kind.split()[0]), [arg]
    return fn


for _k in ("Point", "Segment", "Contour", "Contours", "Contours of one", "Contour of one"):
    op("transformed " + _k.lower())(applied(_k))


@op("transform of matrices")
def _(S):
    return (lambda a, b: T(S)(a, b).transform), [affine(S, "a"), affine(S, "b")]


@op("transform of one matrix")
def _(S):
    return (lambda a: T(S)(a).transform), [affine(S, "a")]


@op("applying a transform of one matrix")
def _(S):
    return (lambda a, p: T(S)(a).applyToContour(p)), [affine(S, "a"), lines(S, "p", 1)]


op("product of transforms")(lambda S: (T(S).multiplyMatrixByMatrix, [affine(S, "a"), affine(S, "b")]))
op("row by transform")(lambda S: (T(S).multiplyRowByMatrix, [[S.real("x"), S.real("y"), 1], affine(S, "b")]))
op("concatenation")(lambda S: (T(S).concatenateMatrices, [affine(S, "a"), affine(S, "b"), affine(S, "c")]))
op("concatenation of one")(lambda S: (lambda a: [list(r) for r in T(S).concatenateMatrices(a)], [affine(S, "a")]))
op("product")(lambda S: (CF(S).multiply, [matrix(S, "a", 2, 2), matrix(S, "b", 2, 2)]))
op("transpose")(lambda S: (CF(S).transpose, [matrix(S, "a", 2, 3)]))
op("row")(lambda S: (CF(S).row, [matrix(S, "a", 2, 2), 1]))
op("column")(lambda S: (CF(S).col, [matrix(S, "a", 2, 2), 1]))
op("point values")(lambda S: (lambda p: CF(S).getPointValuesColumn(p, 0), [points(S, "p", 3)]))
op("chord times")(lambda S: (CF(S).computeTimeValues, [[(0, 0), (3, 4), (3, 10)]]))
op("uniform times")(lambda S: (lambda p: CF(S).computeTimeValues(p, None, False), [points(S, "p", 4)]))
op("powers")(lambda S: (lambda r: CF(S).raiseRowPower(r, 2), [[S.real("a"), S.real("b")]]))
op("time matrix")(lambda S: (CF(S).formTMatrix, [[0, S.real("a"), 1]]))
op("basis")(lambda S: (CF(S).basisMatrix, [4]))
op("fit")(lambda S: (CF(S).fit, [[(0, S.real("a")), (3, 4), (3, 10)]]))
op("fit evenly")(lambda S: (lambda p: CF(S).fit(p, False), [axis(S, "p", 4)]))
op("inverse")(lambda S: (S.mod("PathLib.MatrixInversion").matrixInvert, [matrix(S, "a", 2, 2)]))
op("inverse of three")(lambda S: (S.mod("PathLib.MatrixInversion").matrixInvert, [[[S.real("a"), 1, 2], [3, S.real("b"), 1], [0, 2, 1]]]))
op("no duplicates")(lambda S: (BU(S).removeDuplicates, [[S.real("a"), S.real("b"), S.real("c")]]))
op("roots")(lambda S: (BU(S).droots, [[S.real("a"), S.real("b")]]))
op("roots of three")(lambda S: (BU(S).droots, [[S.real("a"), 1, -S.real("a")]]))
op("interpolated")(lambda S: (BU(S).lerp, [S.real("t"), S.point("p"), S.point("q")]))
op("crossing of lines by points")(lambda S: (BU(S).lli4, points(S, "p", 4)))


def curve(name, ask, n=4, make=None, extra=None):
    def fn(S):
        def go(pts, *more):
            return ask(BZ(S).Bezier(pts), *more)
        return go, [(make or axis)(S, "p", n)] + (extra(S) if extra else [])
    op(name)(fn)


def slanted(S, name, n):
    """All coordinates free, of curves that rise to the right."""
    p = S.points(name, n)
    S.assume(S.And(S.And(S.lt(a[0], b[0]), S.lt(a[1], b[1])) for a, b in zip(p, p[1:])))
    return p


curve("curve point", lambda b, t: b.get(t), extra=lambda S: [S.real("t")], make=slanted)
curve("curve bounds", lambda b: b.boundsRectangle, n=3)
curve("curve hull", lambda b, t: b.hull(t), extra=lambda S: [S.real("t")], make=slanted)
curve("curve samples", lambda b: b.getLUT(4), make=slanted)
curve("curve halves", lambda b, t: b.split(t), extra=lambda S: [S.real("t")], make=slanted)
curve("curve raised", lambda b: b.raiseOrder(), make=slanted)
curve("curve derivatives", lambda b: b.dcPoints, make=slanted)
curve("curve on a chord", lambda b: b.align(), make=lambda S, n, k: [(0, 0), (3, 4), (S.real("a"), S.real("b")), (6, 8)])
curve("curve on a segment", lambda b, s: b.align(s), make=slanted, n=3, extra=lambda S: [[(0, 0), (3, 4)]])
curve("curve on a segment to the left", lambda b, s: b.align(s), make=slanted, n=3, extra=lambda S: [[(3, 4), (0, 0)]])
curve("curve roots on a segment", lambda b, s: b.roots(s), n=3, extra=lambda S: [[(0, 0), (4, 0)]],
      make=lambda S, n, k: [(0, -1), (1, S.real("a")), (2, 3)])
curve("curve and line", lambda b, s: b.lineIntersects(s), n=3, extra=lambda S: [[(0, 0), (4, 0)]],
      make=lambda S, n, k: [(0, -1), (1, S.real("a")), (2, 3)])
curve("curve extrema", lambda b: b.extrema, n=3)
curve("curve projection", lambda b: b.getABC(0.25), n=3)


@op("intersections of lists of curves")
def _(S):
    B = BZ(S).Bezier
    u = S.real("u")
    return (lambda a, b: B.curveIntersects(a, b, 1.5)), [[B([(u, 0), (u + 4, 4)])], [B([(u, 4), (u + 4, 0)]), B([(u, 9), (u + 4, 9)])]]


def path(name, ask, make=lines, extra=None):
    def fn(S):
        def go(c, *more):
            return ask(BZ(S).BContour(c), *more)
        return go, [make(S, "p")] + (extra(S) if extra else [])
    op(name)(fn)


def some_path(S, name):
    return [[(0, 0), (2, S.real(name))], [(2, S.real(name)), (4, 1), (6, 2)]]


path("path curves", lambda c: [b for b in c], make=some_path)
path("path samples", lambda c: c.getLUT(3), make=some_path)
path("path bounds", lambda c: c.boundsRectangle, make=some_path)
path("path string", lambda c: len(c.d()), make=some_path)
path("path closest point", lambda c, q: c.findClosestPoint(q, 3), make=lambda S, n: [[(0, 0), (4, 0)]], extra=lambda S: [(9, S.real("y"))])
op("outline")(lambda S: (lambda o: [[b for b in c] for c in BZ(S).BOutline(o)], [[some_path(S, "p"), [[(0, 0), (7, 9)]]]]))
op("outline bounds")(lambda S: (lambda o: BZ(S).BOutline(o).boundsRectangle, [[some_path(S, "p"), [[(0, 0), (7, 9)]]]]))
op("points of curves")(lambda S: (BZ(S).BOutline.segmentFromPoints, [points(S, "p", 3)]))
op("coordinates")(lambda S: (lambda p: [list(x) for x in BZ(S).BOutline.unzipPoints(p)], [points(S, "p", 3)]))


def rectangles(name, ask):
    def fn(S):
        def go(a, b):
            r = [U(S).BoundsRectangle(*x) for x in (a, b)]
            k = [(x.left, x.bottom, x.right, x.top) for x in r]
            out = ask(*r)
            S.check("the rectangles are as before", S.eq([(x.left, x.bottom, x.right, x.top) for x in r], k), exact=True)
            return out
        return go, [[(S.real("a"), 0), (4, 5)], [(S.real("b"), 1), (3, 9)]]
    op(name)(fn)


rectangles("union", lambda a, b: a.union(b))
rectangles("intersection", lambda a, b: a.intersection(b))
rectangles("enclosure", lambda a, b: [1] if a.encloses(b) else [0])
rectangles("relation", lambda a, b: [a.relationTo(b)] if not isinstance(a.relationTo(b), str) else a.relationTo(b))
rectangles("contour of a rectangle", lambda a, b: [a.contour, b.centerPoint, a.points])

op("component")(lambda S: component(S, tuple(S.real(f"t{i}") for i in range(6))))
op("component as it is")(lambda S: component(S, (1, 0, 0, 1, 0, 0)))


@op("pen")
def _(S):
    def ask(a, b, c, d):
        p = pen(S)
        p.moveTo(a)
        p.lineTo(b)
        p.qCurveTo(c, d, a)
        p.closePath()
        return p.contours
    return ask, points(S, "p", 4)


op("drawn contours")(lambda S: (drawn(S, lambda p, c: p.drawContours(c, color="red")), [[curves(S, "p")]]))
op("drawn and filled contours")(lambda S: (drawn(S, lambda p, c: p.drawContours(c, fill=True)), [[curves(S, "p")]]))
op("drawn segments")(lambda S: (drawn(S, lambda p, c: p.drawPointsAsSegments(c, "red")), [points(S, "p", 4)]))
op("drawn circles")(lambda S: (drawn(S, lambda p, c, k: p.drawPointsAsCircles(c, 2, k)), [points(S, "p", 3), ["red", "blue"]]))
op("drawn circles at complex points")(lambda S: (drawn(S, lambda p, c, k: p.drawComplexPointsAsCircles(c, 2, k)),
                                                 [[S.cpoint(q) for q in points(S, "p", 3)], ["red", "blue"]]))
op("drawn curve")(lambda S: (drawn(S, lambda p, c: p.drawCurve(c, "red")), [points(S, "p", 4)]))
op("drawn skeleton")(lambda S: (drawn(S, lambda p, c, k: p.drawSkeleton(BZ(S).Bezier(c), "grey", k)),
                                [points(S, "p", 3), ["red", "blue"]]))
op("drawn arrow")(lambda S: (drawn(S, lambda p, a, b: p.drawArrowBetweenPoints(a, b)), points(S, "p", 2)))


@harness("C36", cases=sorted(OPS))
def asked_again(S, name):
    ask, args = OPS[name](S)
    keep = copied(args)
    first = ask(*args)
    S.check("arguments as before", unchanged(S, args, keep), exact=True)
    answer = norm(first)
    S.check("the same answer again", same(S, norm(ask(*args)), answer))
    S.check("arguments as before", unchanged(S, args, keep), exact=True)
    S.check("the first answer is as it was", same(S, norm(first), answer))


# answers that are made of the caller's own lists
SHARED = {"fit", "fit evenly", "flatten", "row", "transform of one matrix"}


@harness("C36", cases=sorted(set(OPS) - SHARED))
def answers_are_the_callers(S, name):
    """Emptying the answer's lists affects neither the arguments nor the next answer."""
    ask, args = OPS[name](S)
    keep = copied(args)
    first = ask(*args)
    answer = norm(first)
    empty(first)
    S.check("arguments as before", unchanged(S, args, keep), exact=True)
    S.check("the same answer again", same(S, norm(ask(*args)), answer))
