"""C35 A plotter is set up to fit its bounds, and its labels say where points are."""
from sx.api import harness
from .c24 import bounds

BOUNDS = ("all bounds, given as reals or whole numbers, with and without abbreviation; texts anywhere, inside and outside the "
          "margins; skeletons of curves of order 1 to 3 with all coordinates; skeletons after other drawings")
ASSUMPTIONS = ["FontDocTools' plotter engine is replaced by a recording stand-in"]


def made(S, case):
    kind, poly = case
    P = S.mod("PathLib.ContourPlotter").ContourPlotter
    if kind == "f":
        l, b, r, t = S.real("l"), S.real("b"), S.real("r"), S.real("t")
    else:
        l, b, r, t = S.inum("l"), S.inum("b"), S.inum("r"), S.inum("t")
    S.assume(S.And(S.le(l, r), S.le(b, t)))
    return (P((l, b, r, t), poly=True) if poly else P((l, b, r, t))), (l, b, r, t)


@harness("C35", cases=[(k, p) for k in "fi" for p in (False, True)])
def set_up(S, case):
    p, (l, b, r, t) = made(S, case)
    got = p._boundsAggregator.bounds
    S.check("covers the bounds", len(got) >= 1)
    for g in got:
        S.check("and nothing else", S.eq(tuple(g), (l, b, r, t)))
    m = p._contentMargins
    # whole units, by division with a remainder
    for size, a, z in ((r - l, m.left, m.right), (t - b, m.top, m.bottom)):
        for x in (a, z):
            S.check("margin of a twentieth, rounded down", S.And(S.between(0, size - 20 * x, 20), S.lt(size, 20 * x + 20)))
        S.check("same on both sides", S.eq(a, z))
    f = p._frameMargins
    S.check("frame of ten units", S.eq((f.left, f.top, f.right, f.bottom), (10, 10, 10, 10)))
    S.check("labels half as high as the top margin", S.And(S.eq(2 * x, m.top) for x in p._labelFontSize))


@harness("C35", cases=[(k, p) for k in "fi" for p in (False, True)])
def whole_margins(S, case):
    """The margins are whole numbers of units."""
    p, (l, b, r, t) = made(S, case)
    m = p._contentMargins
    k, n = S.int("k", 0, 3), S.int("n", 0, 3)
    S.assume(S.And(S.between(20 * k, r - l, 20 * k + 19), S.between(20 * n, t - b, 20 * n + 19)))
    S.check("whole numbers", S.And(S.eq(m.left, k), S.eq(m.right, k), S.eq(m.top, n), S.eq(m.bottom, n)))


@harness("C35", cases=[None, True, False])
def text(S, margin):
    P = S.mod("PathLib.ContourPlotter").ContourPlotter
    p = P((0, 0, 100, 100))
    x, y = S.point("p")
    for alignment in ("left", "center"):
        p._calls.clear()
        if margin is None:
            p.drawText(x, y, alignment, "some text")
        else:
            p.drawText(x, y, alignment, "some text", margin=margin)
        S.check("one label", len(p._calls) == 1 and p._calls[0][0] == "label")
        c = p._calls[0]
        S.check("in the coordinates asked for", c[1] == ("content" if margin is False else "contentMargins"))
        S.check("in place", S.eq((c[2], c[3]), (x, y)))
        S.check("aligned, with the text", c[4] == alignment and c[5] == "some text")


def labelled(S, p, q):
    labels = [c for c in p._calls if c[0] == "label"]
    S.check("a label for each control point", len(labels) == len(q))
    for c, (x, y) in zip(labels, q):
        S.check("in the coordinates of the points", c[1] == "content")
        S.check("beside the point", S.eq((c[2], c[3]), (x + 4, y - 4)))
        S.check("to the right of it", c[4] == "left")
        t = c[5]
        S.check("two coordinates in parentheses", t[:1] == "(" and t[-1:] == ")" and t.count(",") == 1)
        a, b = [S.num(v) for v in t[1:-1].split(",")]
        h = S.q(5001, 10**6)
        S.check("the coordinates to two decimals", S.And(S.between(-h, a - x, h), S.between(-h, b - y, h)))


@harness("C35", cases=[1, 2, 3])
def skeleton_labels(S, n):
    m = bounds(S)
    P = S.mod("PathLib.ContourPlotter").ContourPlotter
    p = P((0, 0, 100, 100))
    q = S.points("p", n + 1)
    p.drawSkeleton(m.Bezier(q))
    labelled(S, p, q)
    S.check("small labels", tuple(p._labelFontSize) == (6, 6))
    p._calls.clear()
    p.drawText(q[0][0], q[0][1], "left", "x")
    p._calls.clear()
    p.drawSkeleton(m.Bezier(q[::-1]))
    labelled(S, p, q[::-1])


@harness("C35", cases=[(2, 0.5), (3, 0.5)])
def hull_labels(S, case):
    n, t = case
    m = bounds(S)
    P = S.mod("PathLib.ContourPlotter").ContourPlotter
    p = P((0, 0, 100, 100))
    q = [(S.real(f"x{i}"), i * i) for i in range(n + 1)]
    p.drawHull(m.Bezier(q), t)
    labelled(S, p, q)
