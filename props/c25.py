"""C25 The segment pen produces closed connected contours of what was drawn."""
from sx.api import harness
from .util import quiet_logger, same_path

BOUNDS = ("all sequences of up to two drawing calls and many of three and four, in one to three contours; lines, cubics, "
          "quadratic runs of up to four off-curve points, contours without on-curve points; all coordinates")
BUDGET = 400

OPS = ["l", "c", "q0", "q1", "q2", "q3", "q4"]
ONE = [(o,) for o in OPS + ["n2", "n3", "n4"]]
TWO = [(a, b) for a in ("l", "c", "q1", "q2", "q3") for b in ("l", "c", "q1", "q2", "q3")]
THREE = [("l", "l", "l"), ("l", "c", "q2"), ("q2", "l", "q3"), ("c", "c", "l"), ("q3", "q2", "q1"), ("l", "q2", "l"),
         ("l", "l", "q2", "c"), ("q1", "l", "l", "q2")]


def run(S, name, ops):
    """(what to call on the pen, the segments of one contour)"""
    calls, segs = [], []
    pen = start = None
    if ops[0][0] != "n":
        pen = start = S.point(name)
        calls.append(("moveTo", (start,)))
    for i, o in enumerate(ops):
        pts = [S.point(f"{name}{i}{j}") for j in range({"l": 0, "c": 2}.get(o[0]) if o[0] in "lc" else int(o[1]))]
        if o[0] == "n":
            pen = start = mid(S, pts[-1], pts[0])
            calls.append(("qCurveTo", tuple(pts) + (None,)))
            on = start
        else:
            on = S.point(f"{name}{i}e")
            calls.append(({"l": "lineTo", "c": "curveTo"}.get(o[0], "qCurveTo"), tuple(pts) + (on,)))
        if o[0] in "lc":
            segs.append([pen] + pts + [on])
        elif not pts:
            segs.append([pen, on])
        else:
            for a, b in zip(pts, pts[1:]):
                m = mid(S, a, b)
                segs.append([pen, a, m])
                pen = m
            segs.append([pen, pts[-1], on])
        pen = on
    calls.append(("closePath", ()))
    return calls, segs + [[pen, start]]


def mid(S, a, b):
    return ((a[0] + b[0]) / S.q(2), (a[1] + b[1]) / S.q(2))


def same_contours(S, want, got):
    if not want:
        return S.eq(len(got), 0)
    alts = []
    w = want[0]
    if all(len(s) == 2 for s in w):
        alts.append(S.And(S.And(S.eq(s[0], s[1]) for s in w), same_contours(S, want[1:], got)))
    if got:
        alts.append(S.And(same_path(S, w, got[0]), same_contours(S, want[1:], got[1:])))
    return S.Or(alts) if alts else S.Not(S.eq(0, 0))


def draw(pen, calls):
    for m, a in calls:
        getattr(pen, m)(*a)


def check(S, contours, want):
    S.check("no empty contour", all(len(c) > 0 for c in contours))
    for c in contours:
        for a, b in zip(c, c[1:]):
            S.check("connected", S.eq(tuple(a[-1]), tuple(b[0])), exact=True)
        S.check("closed", S.eq(tuple(c[-1][-1]), tuple(c[0][0])), exact=True)
    S.check("what was drawn", same_contours(S, want, contours))


def new_pen(S, glyphs=None):
    return S.mod("PathLib.SegmentPen").SegmentPen(glyphs or {}, quiet_logger())


@harness("C25", cases=ONE + TWO + THREE, thorough=[(a, b, c) for a in OPS[:5] for b in OPS[:5] for c in OPS[:5]])
def contour(S, ops):
    pen = new_pen(S)
    calls, want = run(S, "p", ops)
    draw(pen, calls)
    check(S, pen.contours, [want])


@harness("C25", cases=[(("l",), ("l",)), (("l", "q2"), ("l",)), (("c",), ("q2", "l")), (("n2",), ("l", "c")),
                       (("q2",), ("n3",)), (("l",), ("c",), ("q1",)), (("n3",), ("n2",))])
def contours(S, many):
    """No contour leaks into another."""
    pen = new_pen(S)
    want = []
    for i, ops in enumerate(many):
        calls, w = run(S, "prs"[i], ops)
        draw(pen, calls)
        want.append(w)
        check(S, pen.contours, want)


@harness("C25", cases=[("l",), ("q2", "l"), ("c",)])
def nothing_drawn(S, ops):
    """A move alone records nothing; closing twice records nothing more."""
    pen = new_pen(S)
    pen.moveTo(S.point("a"))
    pen.closePath()
    S.check("nothing recorded", len(pen.contours) == 0)
    calls, want = run(S, "p", ops)
    draw(pen, calls)
    pen.closePath()
    pen.moveTo(S.point("b"))
    pen.closePath()
    check(S, pen.contours, [want])


@harness("C25")
def pens_are_separate(S, _):
    a, b = new_pen(S), new_pen(S)
    ca, wa = run(S, "p", ("l", "q2"))
    cb, wb = run(S, "r", ("c", "l"))
    # interleaved
    for x, y in zip(ca, cb):
        draw(a, [x])
        draw(b, [y])
    check(S, a.contours, [wa])
    check(S, b.contours, [wb])


@harness("C25", cases=[("l", "l", "l"), ("c", "q2", "l"), ("q2", "l", "c"), ("n2", "l", "l")])
def abandoned(S, case):
    """A contour never closed is not recorded, wherever the next one starts."""
    o1, o2, o3 = case
    pen = new_pen(S)
    calls, want = run(S, "p", (o1,))
    draw(pen, calls)
    left, segs = run(S, "r", (o2,))
    draw(pen, left[:-1])
    # start where the pen is
    start = segs[-1][0]
    a, b = S.point("a"), S.point("b")
    pen.moveTo(start)
    pen.lineTo(a)
    pen.curveTo(b, a, start)
    pen.closePath()
    check(S, pen.contours, [want, [[start, a], [a, b, a, start]]])
    calls, more = run(S, "s", (o3,))
    draw(pen, calls)
    check(S, pen.contours, [want, [[start, a], [a, b, a, start]], more])
