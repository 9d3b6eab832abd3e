"""C26 Components are the component glyph's contours under its transformation."""
from sx.api import harness
from .c25 import check, draw, run, new_pen, same_contours

BOUNDS = ("all six-number transformations including the identity, nested to depth two; glyphs of one or two contours of up "
          "to two drawing calls with all coordinates; components before, between, after and in the middle of other contours; several "
          "fonts with glyphs of the same names; the result of one call changed before the next")
BUDGET = 400


class Glyph:
    def __init__(self, calls):
        self.calls = calls

    def draw(self, pen):
        draw(pen, self.calls)


def component(name, t):
    return ("addComponent", (name, t))


def transformation(S, name):
    return tuple(S.real(f"{name}{i}") for i in range(6))


def mapped(t, want):
    a, b, c, d, m, n = t
    return [[(a * x + c * y + m, b * x + d * y + n) for x, y in s] for s in want]


IDENTITY = (1, 0, 0, 1, 0, 0)


def same(S, got, want, source):
    """got are the contours `want`, which are images of `source` (whose zero-length lines may be missing)."""
    S.check("number of contours", len(got) <= len(want))
    S.check("what was drawn, transformed", images(S, want, source, got))


def images(S, want, source, got):
    if not want:
        return S.eq(len(got), 0)
    alts = []
    w, s = want[0], source[0]
    if all(len(x) == 2 for x in s):
        alts.append(S.And(S.And(S.eq(x[0], x[1]) for x in s), images(S, want[1:], source[1:], got)))
    if got:
        alts.append(S.And(image(S, w, s, got[0]), images(S, want[1:], source[1:], got[1:])))
    return S.Or(alts) if alts else S.Not(S.eq(0, 0))


def image(S, want, source, got):
    if not want:
        return S.eq(len(got), 0)
    alts = []
    w = want[0]
    if len(w) == 2:
        alts.append(S.And(S.eq(source[0][0], source[0][1]), image(S, want[1:], source[1:], got)))
    if got and len(got[0]) == len(w):
        alts.append(S.And(S.eq([tuple(p) for p in got[0]], [tuple(p) for p in w]),
                          image(S, want[1:], source[1:], got[1:])))
    return S.Or(alts) if alts else S.Not(S.eq(0, 0))


@harness("C26", cases=[("l",), ("c",), ("q2",), ("q2", "c")])
def one(S, ops):
    t = transformation(S, "t")
    calls, want = run(S, "p", ops)
    pen = new_pen(S, {"a": Glyph(calls)})
    pen.addComponent("a", t)
    same(S, pen.contours, [mapped(t, want)], [want])


@harness("C26", cases=[("l",), ("c",), ("q2", "l")])
def identity(S, ops):
    calls, want = run(S, "p", ops)
    for t in (IDENTITY, (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)):
        pen = new_pen(S, {"a": Glyph(calls)})
        pen.addComponent("a", t)
        same(S, pen.contours, [want], [want])


@harness("C26", cases=["offset", "scale", "flip", "skew", "halves"])
def special(S, kind):
    """Transformations with the usual defaults in most places."""
    u, v = S.real("u"), S.real("v")
    t = {"offset": (1, 0, 0, 1, u, v), "scale": (u, 0, 0, v, 0, 0), "flip": (-1, 0, 0, 1, u, 0),
         "skew": (1, u, v, 1, 0, 0), "halves": (0.5, 0.25, -0.5, 2, 3, 4)}[kind]
    calls, want = run(S, "p", ("c", "q2"))
    pen = new_pen(S, {"a": Glyph(calls)})
    pen.addComponent("a", t)
    same(S, pen.contours, [mapped(t, want)], [want])


@harness("C26", cases=["before", "after", "between"])
def among_contours(S, where):
    """Components are appended to what the pen holds."""
    t = transformation(S, "t")
    calls, want = run(S, "p", ("c",))
    own, w = run(S, "r", ("c",))
    own2, w2 = run(S, "s", ("q1",))
    pen = new_pen(S, {"a": Glyph(calls)})
    img = mapped(t, want)
    if where == "before":
        pen.addComponent("a", t)
        draw(pen, own)
        same(S, pen.contours, [img, w], [want, w])
    elif where == "after":
        draw(pen, own)
        pen.addComponent("a", t)
        same(S, pen.contours, [w, img], [w, want])
    else:
        draw(pen, own)
        pen.addComponent("a", t)
        draw(pen, own2)
        same(S, pen.contours, [w, img, w2], [w, want, w2])


@harness("C26")
def same_glyph_twice(S, _):
    """The component glyph is not affected by being used."""
    t, u = transformation(S, "t"), transformation(S, "u")
    calls, want = run(S, "p", ("q1",))
    g = Glyph(calls)
    pen = new_pen(S, {"a": g})
    pen.addComponent("a", t)
    pen.addComponent("a", u)
    pen.addComponent("a", IDENTITY)
    same(S, pen.contours, [mapped(t, want), mapped(u, want), want], [want] * 3)
    alone = new_pen(S)
    g.draw(alone)
    check(S, alone.contours, [want])


@harness("C26", cases=["free", "identity outside", "identity inside"])
def nested(S, kind):
    """Nested components compose: the inner transformation first."""
    t = IDENTITY if kind == "identity inside" else transformation(S, "t")
    u = IDENTITY if kind == "identity outside" else transformation(S, "u")
    calls, want = run(S, "p", ("c",))
    own, w = run(S, "r", ("q1",))
    glyphs = {"a": Glyph(calls), "b": Glyph(own + [component("a", t)])}
    pen = new_pen(S, glyphs)
    pen.addComponent("b", u)
    same(S, pen.contours, [mapped(u, w), mapped(u, mapped(t, want))], [w, want])


@harness("C26")
def two_contours(S, _):
    t = transformation(S, "t")
    calls, want = run(S, "p", ("c",))
    more, w = run(S, "r", ("n2",))
    pen = new_pen(S, {"a": Glyph(calls + more)})
    pen.addComponent("a", t)
    same(S, pen.contours, [mapped(t, want), mapped(t, w)], [want, w])


@harness("C26", cases=["fresh", "same set", "after drawing"])
def another_font(S, kind):
    """A component is looked up by name in the pen's own glyph set, as it is then."""
    t = transformation(S, "t")
    calls, want = run(S, "p", ("q1",))
    more, w = run(S, "r", ("c",))
    for u in (t, IDENTITY):
        glyphs = {"a": Glyph(calls), "b": Glyph(more)}
        pen = new_pen(S, glyphs)
        pen.addComponent("a", u)
        m = (lambda x: mapped(u, x)) if u is t else (lambda x: x)
        if kind == "same set":
            glyphs["a"] = Glyph(more)
            pen.addComponent("a", u)
            same(S, pen.contours, [m(want), m(w)], [want, w])
            continue
        if kind == "after drawing":
            pen = new_pen(S, {"b": Glyph(calls), "a": Glyph(more)})
            pen.addComponent("b", u)
            pen.addComponent("a", u)
            same(S, pen.contours, [m(want), m(w)], [want, w])
            continue
        pen = new_pen(S, {"a": Glyph(more)})
        pen.addComponent("a", u)
        same(S, pen.contours, [m(w)], [w])


@harness("C26", cases=["free", "identity"])
def results_are_independent(S, kind):
    """Editing what one pen recorded leaves later uses of the glyph alone."""
    t = transformation(S, "t") if kind == "free" else IDENTITY
    calls, want = run(S, "p", ("q1",))
    g = {"a": Glyph(calls)}
    pen = new_pen(S, g)
    pen.addComponent("a", t)
    for c in pen.contours:
        for s in c:
            s[0] = (0, 0)
            s.append((1, 1))
        c.append([(0, 0), (2, 2)])
    pen.contours.append([])
    pen = new_pen(S, g)
    pen.addComponent("a", t)
    same(S, pen.contours, [mapped(t, want)], [want])


@harness("C26", cases=["free", "identity", "offset"])
def within_a_contour(S, kind):
    """A component added while a contour is under way is a contour of its own; the contour under way goes on."""
    t = {"free": transformation(S, "t"), "identity": IDENTITY, "offset": (1, 0, 0, 1, S.real("u"), S.real("v"))}[kind]
    calls, want = run(S, "p", ("c",))
    own, w = run(S, "r", ("c", "l"))
    for k in range(2, len(own)):
        pen = new_pen(S, {"a": Glyph(calls)})
        draw(pen, own[:k])
        pen.addComponent("a", t)
        draw(pen, own[k:])
        img = mapped(t, want)
        got = pen.contours
        S.check("both contours", S.Or(images(S, [img, w], [want, w], got), images(S, [w, img], [w, want], got)))
