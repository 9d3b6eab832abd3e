"""C28 Temporary drawing attributes are restored."""
import re
from sx.api import harness
from .util import connected
from .c24 import bounds
from .c27 import plotter

BOUNDS = ("every sequence of up to two drawing calls (of ten kinds with their options), nested up to two levels of pushed "
          "attributes; all numeric attribute values including zero; all coordinates of the drawn lines")
ASSUMPTIONS = ["FontDocTools' plotter engine is replaced by a recording stand-in"]
BUDGET = 400

FILL = ("_fillColor", "_fillOpacity")
STROKE = ("_strokeWidth", "_strokeColor", "_strokeOpacity", "_strokeDash")


def state(p):
    return tuple(getattr(p, a) for a in FILL + STROKE)


def same(S, a, b):
    return S.And(S.eq(x, y) if not (isinstance(x, str) or isinstance(y, str) or x is None or y is None)
                 else S.eq(0, 0 if x is y or (isinstance(x, str) and isinstance(y, str) and x == y) else 1)
                 for x, y in zip(a, b))


def start(S, dash="4, 4"):
    """A plotter with some attributes set."""
    p = plotter(S, False)
    p.setFillColor("fill-start")
    p.setFillOpacity(S.real("fo"))
    p.setStrokeWidth(S.real("sw"))
    p.setStrokeColor("stroke-start")
    p.setStrokeOpacity(S.real("so"))
    p.setStrokeDash(dash)
    return p


def line(S, name):
    a, b = S.points(name, 2)
    return a, b


def fills(S, p, text, color):
    """The element is painted with this fill."""
    m = re.search(r"FILL\[(.*?);(.*?)\]", text)
    S.check("painted with the fill asked for", m is not None and m.group(1) == color)
    S.check("not stroked", "STROKE[" not in text)


def strokes(S, p, text, color):
    m = re.search(r"STROKE\[(.*?);(.*?);(.*?);(.*?)\]", text)
    S.check("painted with the stroke asked for", m is not None and m.group(1) == color)
    S.check("not filled", "fill='none'" in text and "FILL[" not in text)


def contours(S, p, n, color, fill):
    a, b = line(S, n)
    k = len(p._content)
    p.drawContours([[[a, b]]], color=color, fill=fill)
    if fill:
        fills(S, p, p._content[k], color or "fill-start")
    else:
        strokes(S, p, p._content[k], color or "stroke-start")


def paths(S, p, n, color, fill):
    m = bounds(S)
    w = connected(S, "l", n)
    k = len(p._content)
    p.drawPaths([m.BContour(w), m.BContour(w)], color=color, fill=fill)
    for text in p._content[k:]:
        if fill:
            fills(S, p, text, color or "fill-start")
        else:
            strokes(S, p, text, color or "stroke-start")


def segments(S, p, n, color):
    k = len(p._content)
    p.drawPointsAsSegments(list(line(S, n)), color)
    strokes(S, p, p._content[k], color or "stroke-start")


def curve(S, p, n, color):
    k = len(p._content)
    p.drawCurve(list(line(S, n)), color)
    strokes(S, p, p._content[k], color or "stroke-start")


def circles(S, p, n, colors, fill, cplx):
    pts = list(line(S, n)) + [(1, 2)]
    k = len(p._calls)
    if cplx:
        p.drawComplexPointsAsCircles([S.cpoint(q) for q in pts], 2, colors, fill)
    else:
        p.drawPointsAsCircles(pts, 2, colors, fill)
    for i, c in enumerate(p._calls[k:]):
        own = "fill-start" if fill else "stroke-start"
        S.check("the color asked for", c[6 if fill else 7] == (colors[i % len(colors)] if colors else own))
        S.check("the other color is left alone", c[7 if fill else 6] == ("stroke-start" if fill else "fill-start"))


def skeleton(S, p, n):
    m = bounds(S)
    k = len(p._content)
    p.drawSkeleton(m.Bezier(list(line(S, n))), "grey", ["green"])
    strokes(S, p, p._content[k], "grey")
    S.check("points in the color asked for", all(c[6] == "green" for c in p._calls if c[0] == "circle"))


def hull(S, p, n):
    m = bounds(S)
    k = len(p._content)
    p.drawHull(m.Bezier([(S.real(n + "x"), 0), (2, 3), (6, 1)]), 0.5, "grey", "green")
    for t in p._content[k:]:
        strokes(S, p, t, "grey")


def arrow(S, p, n):
    a, b = line(S, n)
    p.drawArrowBetweenPoints(a, b, "red")
    c = [c for c in p._calls if c[0] == "arrow"][-1]
    S.check("dashed in the color asked for", c[8] == "2, 1" and c[9] == "red")


def plain_arrow(S, p, n):
    a, b = line(S, n)
    p.drawArrowBetweenPoints(a, b)
    c = [c for c in p._calls if c[0] == "arrow"][-1]
    S.check("dashed in the current color", c[8] == "2, 1" and c[9] == "stroke-start")


def nothing(S, p, n, color, fill):
    """Nothing to draw, or nothing but one place."""
    m = bounds(S)
    a, _ = line(S, n)
    p.drawContours([], color=color, fill=fill)
    p.drawContours([[[a, a]]], color=color, fill=fill)
    p.drawPaths([], color=color, fill=fill)
    p.drawPaths([m.BContour([[a, a]])], color=color, fill=fill)


def one_place(S, p, n, color):
    a, _ = line(S, n)
    p.drawPointsAsSegments([a], color)
    p.drawPointsAsSegments([a, a], color)
    for fill in (False, True):
        p.drawPointsAsCircles([a], 2, [color] if color else None, fill)
        p.drawComplexPointsAsCircles([], 2, [color] if color else None, fill)
    p.drawArrowBetweenPoints(a, a, color)


def plain_hull(S, p, n):
    m = bounds(S)
    k = len(p._content)
    p.drawHull(m.Bezier([(S.real(n + "x"), 0), (2, 3), (6, 1)]), 0.5, None, "green")
    for t in p._content[k:]:
        strokes(S, p, t, "stroke-start")


def calls():
    out = {}
    for color in (None, "red"):
        for fill in (False, True):
            out[f"nothing {color} {fill}"] = lambda S, p, n, c=color, f=fill: nothing(S, p, n, c, f)
        out[f"one place {color}"] = lambda S, p, n, c=color: one_place(S, p, n, c)
    out["plain hull"] = plain_hull
    for color in (None, "red"):
        for fill in (False, True):
            out[f"contours {color} {fill}"] = lambda S, p, n, c=color, f=fill: contours(S, p, n, c, f)
            out[f"paths {color} {fill}"] = lambda S, p, n, c=color, f=fill: paths(S, p, n, c, f)
        out[f"segments {color}"] = lambda S, p, n, c=color: segments(S, p, n, c)
        out[f"curve {color}"] = lambda S, p, n, c=color: curve(S, p, n, c)
    for colors in (None, ["red", "blue"]):
        for fill in (False, True):
            for z in (False, True):
                out[f"circles {colors} {fill} {z}"] = lambda S, p, n, c=colors, f=fill, z=z: circles(S, p, n, c, f, z)
    out["skeleton"] = skeleton
    out["hull"] = hull
    out["arrow"] = arrow
    out["plain arrow"] = plain_arrow
    return out


CALLS = calls()


@harness("C28", cases=sorted(CALLS))
def one_call(S, name):
    p = start(S)
    before = state(p)
    CALLS[name](S, p, "p")
    S.check("attributes are as before", same(S, state(p), before))


@harness("C28", cases=sorted(CALLS))
def two_calls(S, name):
    """Any two calls one after the other."""
    p = start(S)
    before = state(p)
    CALLS[name](S, p, "p")
    second = S.choice("second", ["contours None True", "contours red False", "paths red True", "segments red",
                                 "circles ['red', 'blue'] True False", "circles ['red', 'blue'] False True",
                                 "arrow", "hull"])
    CALLS[second](S, p, "r")
    S.check("attributes are as before", same(S, state(p), before))


@harness("C28", cases=[(c, o) for c in (None, "red") for o in (False, True)])
def push_fill(S, case):
    color, op = case
    p = start(S)
    before = state(p)
    o = S.real("o") if op else None
    p.pushFillAttributes(color=color, opacity=o)
    S.check("the requested attributes apply", same(S, state(p), (
        color or before[0], o if op else before[1]) + before[2:]))
    p.popFillAttributes()
    S.check("attributes are as before", same(S, state(p), before))


@harness("C28", cases=[(w, c, o, d) for w in (False, True) for c in (None, "red") for o in (False, True) for d in (None, "1, 1")])
def push_stroke(S, case):
    width, color, op, dash = case
    p = start(S)
    before = state(p)
    w = S.real("w") if width else None
    o = S.real("o") if op else None
    p.pushStrokeAttributes(width=w, color=color, opacity=o, dash=dash)
    S.check("the requested attributes apply", same(S, state(p), before[:2] + (
        w if width else before[2], color or before[3], o if op else before[4], dash or before[5])))
    p.popStrokeAtributes()
    S.check("attributes are as before", same(S, state(p), before))


@harness("C28", cases=["fill", "stroke", "both", "crossed"])
def nested(S, kind):
    """Pushes and pops nest; fill and stroke are kept apart."""
    p = start(S)
    b0 = state(p)
    o1, o2 = S.real("o1"), S.real("o2")
    if kind == "fill":
        p.pushFillAttributes(color="red", opacity=o1)
        b1 = state(p)
        p.pushFillAttributes(opacity=o2)
        S.check("inner", same(S, state(p), ("red", o2) + b0[2:]))
        p.popFillAttributes()
        S.check("outer again", same(S, state(p), b1))
        S.check("outer", same(S, b1, ("red", o1) + b0[2:]))
        p.popFillAttributes()
    elif kind == "stroke":
        p.pushStrokeAttributes(width=o1, color="red")
        b1 = state(p)
        p.pushStrokeAttributes(opacity=o2, dash="1, 1")
        S.check("inner", same(S, state(p), b0[:2] + (o1, "red", o2, "1, 1")))
        p.popStrokeAtributes()
        S.check("outer again", same(S, state(p), b1))
        p.popStrokeAtributes()
    elif kind == "both":
        p.pushFillAttributes(color="red")
        p.pushStrokeAttributes(color="blue")
        S.check("inner", same(S, state(p), ("red", b0[1], b0[2], "blue", b0[4], b0[5])))
        p.popStrokeAtributes()
        p.popFillAttributes()
    else:
        p.pushFillAttributes(color="red")
        p.pushStrokeAttributes(color="blue")
        p.popFillAttributes()
        S.check("stroke still applies", same(S, state(p), b0[:3] + ("blue",) + b0[4:]))
        p.popStrokeAtributes()
    S.check("attributes are as before", same(S, state(p), b0))


@harness("C28", cases=["contours red True", "contours red False", "contours None True", "circles ['red', 'blue'] True False", "arrow"])
def inside_pushed(S, name):
    """A drawing call between a push and its pop."""
    p = start(S)
    b0 = state(p)
    o1, o2 = S.real("o1"), S.real("o2")
    p.pushFillAttributes(opacity=o1)
    p.pushStrokeAttributes(width=o2)
    b1 = state(p)
    CALLS[name](S, p, "p")
    S.check("pushed attributes are kept", same(S, state(p), b1))
    p.popStrokeAtributes()
    p.popFillAttributes()
    S.check("attributes are as before", same(S, state(p), b0))


@harness("C28")
def plotters_are_separate(S, _):
    a, b = start(S), plotter(S, False)
    before = state(b)
    a.pushFillAttributes(color="red")
    b.pushFillAttributes(color="blue")
    a.popFillAttributes()
    S.check("first restored", same(S, state(a)[:1], ("fill-start",)))
    b.popFillAttributes()
    S.check("second restored", same(S, state(b), before))


@harness("C28", cases=["arrow", "plain arrow"])
def arrows_when_dashed_alike(S, name):
    """The dash an arrow asks for is already the current one."""
    p = start(S, "2, 1")
    before = state(p)
    CALLS[name](S, p, "p")
    S.check("attributes are as before", same(S, state(p), before))


@harness("C28", cases=["fill", "stroke"])
def pushed_as_they_are(S, kind):
    """Pushing the current values changes nothing, and neither does popping them."""
    p = start(S)
    before = state(p)
    for k in range(2):
        if kind == "fill":
            p.pushFillAttributes(color=before[0], opacity=before[1])
        else:
            p.pushStrokeAttributes(width=before[2], color=before[3], opacity=before[4], dash=before[5])
        S.check("nothing changed", same(S, state(p), before))
    for k in range(2):
        p.popFillAttributes() if kind == "fill" else p.popStrokeAtributes()
        S.check("attributes are as before", same(S, state(p), before))


@harness("C28", cases=["fill", "stroke"])
def pushed_with_values_of_the_past(S, kind):
    """Inner attributes equal to outer ones."""
    p = start(S)
    before = state(p)
    o = S.real("o")
    if kind == "fill":
        push, pop = (lambda c: p.pushFillAttributes(color=c, opacity=o)), p.popFillAttributes
    else:
        push, pop = (lambda c: p.pushStrokeAttributes(color=c, opacity=o)), p.popStrokeAtributes
    push("red")
    b1 = state(p)
    push("fill-start" if kind == "fill" else "stroke-start")
    push("red")
    S.check("the innermost apply", same(S, state(p), b1))
    pop()
    pop()
    S.check("the outer ones apply", same(S, state(p), b1))
    pop()
    S.check("attributes are as before", same(S, state(p), before))
