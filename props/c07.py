"""C07 Segment predicates and measures agree with analytic geometry."""
from sx.api import harness
from .util import cross, sub, dot

BOUNDS = "all real end points and points; segments of 2 to 4 points; tuple and complex points; float and int kinds"


@harness("C07", cases=[(k, i) for k in ("any", "vertical", "horizontal", "point") for i in "fi"])
def point_on_line(S, case):
    k, kind = case
    PU = S.mod("PathLib.PathUtilities")
    p, a, b = S.points("p", 3, kind)
    if k == "vertical":
        b = (a[0], b[1])
    elif k == "horizontal":
        b = (b[0], a[1])
    elif k == "point":
        b = a
    want = S.And(S.eq(cross(sub(b, a), sub(p, a)), 0), S.le(dot(sub(a, p), sub(b, p)), 0))
    S.check("exactly the points of the segment", S.iff(PU.pointOnLine(p, [a, b]), want), exact=True)


@harness("C07", cases=["any", "vertical", "horizontal"], search=False)  # exact only
def point_of_line(S, k):
    """Points constructed on the line, so that the interesting inputs are reached exactly."""
    PU = S.mod("PathLib.PathUtilities")
    a, u, t = S.point("a"), S.point("u"), S.real("t")
    if k == "vertical":
        u = (0, u[1])
    elif k == "horizontal":
        u = (u[0], 0)
    b = (a[0] + u[0], a[1] + u[1])
    p = (a[0] + t * u[0], a[1] + t * u[1])
    S.check("reported iff between the ends", S.iff(PU.pointOnLine(p, [a, b]),
                                                   S.Or(S.between(0, t, 1), S.And(S.eq(u[0], 0), S.eq(u[1], 0)))),
            exact=True)
    S.check("the ends", S.And(PU.pointOnLine(a, [a, b]), PU.pointOnLine(b, [a, b])), exact=True)
    S.check("direction does not matter", S.iff(PU.pointOnLine(p, [b, a]), PU.pointOnLine(p, [a, b])), exact=True)


@harness("C07", cases=[(n, k) for n in (2, 3, 4) for k in "fic"])
def ends_and_deltas(S, case):
    n, kind = case
    PU = S.mod("PathLib.PathUtilities")
    P = S.points("p", n, "f" if kind == "c" else kind)
    seg = [S.cpoint(p) for p in P] if kind == "c" else P
    a, b = P[0], P[-1]
    S.check("end points", S.eq(tuple(PU.endPoints(seg)), (a[0], a[1], b[0], b[1])))
    S.check("deltas", S.eq(tuple(PU.getDeltas(seg)), (b[0] - a[0], b[1] - a[1])))
    S.check("coordinates", S.eq(tuple(PU.pointXY(seg[1])), P[1]))
    S.check("midpoint", S.eq(tuple(PU.midpoint(seg)), ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)))
    l = PU.length(seg)
    S.check("length", S.And(S.ge(l, 0), S.eq(l * l, (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]))))


@harness("C07", cases=[(n, k) for n in (2, 3, 4) for k in "fic"])
def classification(S, case):
    n, kind = case
    PU = S.mod("PathLib.PathUtilities")
    P = S.points("p", n, "f" if kind == "c" else kind)
    seg = [S.cpoint(p) for p in P] if kind == "c" else P
    a, b = P[0], P[-1]
    line = n == 2
    v, h = S.eq(a[0], b[0]), S.eq(a[1], b[1])
    if not line:
        S.check("a curve is no line", not PU.isVerticalLine(seg) and not PU.isHorizontalLine(seg)
                and not PU.isDiagonalLine(seg))
    else:
        S.check("vertical", S.iff(PU.isVerticalLine(seg), v), exact=True)
        S.check("horizontal", S.iff(PU.isHorizontalLine(seg), h), exact=True)
        S.check("diagonal", S.iff(PU.isDiagonalLine(seg), S.And(S.Not(v), S.Not(h))), exact=True)


@harness("C07", cases=[(n, k) for n in (2, 3) for k in "fic"])
def slope(S, case):
    n, kind = case
    PU = S.mod("PathLib.PathUtilities")
    P = S.points("p", n, "f" if kind == "c" else kind)
    seg = [S.cpoint(p) for p in P] if kind == "c" else P
    dx, dy = P[-1][0] - P[0][0], P[-1][1] - P[0][1]
    m = PU.slope(seg)
    if type(m) is float and m == float("inf"):
        S.check("infinite only for vertical segments", S.eq(dx, 0), exact=True)
    else:
        S.check("finite only for others", S.ne(dx, 0), exact=True)
        S.check("rise over run", S.eq(m * dx, dy))


@harness("C07", cases=[(n, k) for n in (2, 3) for k in "fic"])
def angles(S, case):
    n, kind = case
    PU = S.mod("PathLib.PathUtilities")
    P = S.points("p", n, "f" if kind == "c" else kind)
    seg = [S.cpoint(p) for p in P] if kind == "c" else P
    dx, dy = P[-1][0] - P[0][0], P[-1][1] - P[0][1]
    h = dx * dx + dy * dy
    S.assume(S.gt(h, 0))
    h = S.sqrt(h)
    x = PU.rawSlopeAngle(seg)
    c, s = S.cossin_deg(x)
    S.check("signed angle from the x axis", S.And(S.eq(c * h, dx), S.eq(s * h, dy)))
    S.check("in (-180, 180]", S.And(S.gt(x, -180), S.le(x, 180)))
    y = PU.slopeAngle(seg)
    c, s = S.cossin_deg(y)
    S.check("angle from vertical", S.And(S.eq(c * h, S.abs(dy)), S.eq(s * h, S.abs(dx))))
    S.check("between 0 and 90", S.And(S.ge(y, 0), S.le(y, 90)))


@harness("C07", cases=["f", "i", "c"])
def angles_of_axis_segments(S, kind):
    PU = S.mod("PathLib.PathUtilities")
    a, r = S.point("p", "f" if kind == "c" else kind), S.real("r", lo=0) if kind != "i" else S.inum("r")
    S.assume(S.gt(r, 0))
    P = (lambda p: S.cpoint(p)) if kind == "c" else (lambda p: p)
    for name, d, raw, ang in (("right", (1, 0), 0, 90), ("up", (0, 1), 90, 0), ("left", (-1, 0), 180, 90),
                              ("down", (0, -1), -90, 0), ("diagonal", (1, 1), 45, 45), ("other", (-1, 1), 135, 45),
                              ("back", (-1, -1), -135, 45), ("fourth", (1, -1), -45, 45)):
        seg = [P(a), P((a[0] + d[0] * r, a[1] + d[1] * r))]
        S.check("raw angle " + name, S.eq(PU.rawSlopeAngle(seg), raw))
        S.check("angle " + name, S.eq(PU.slopeAngle(seg), ang))
