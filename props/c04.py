"""C04 Elementary transforms: translation, scaling, shearing, mirroring and perspective."""
from sx.api import harness

BOUNDS = "all real parameters and points (perspective: points off the vanishing line); both axis flags"


@harness("C04", cases=["f", "i"])
def translate(S, kind):
    T = S.mod("PathLib.Transform").Transform
    f, t, p = S.point("f", kind), S.point("t", kind), S.point("p", kind)
    tr = T.translate(f, t)
    S.check("moves from to to", S.eq(tr.applyToPoint(f), t))
    S.check("every point by the same amount", S.eq(tr.applyToPoint(p), (p[0] + t[0] - f[0], p[1] + t[1] - f[1])))
    back = T.translate(t, f)
    S.check("inverse", S.eq(back.applyToPoint(tr.applyToPoint(p)), p))


@harness("C04", cases=["f", "i"])
def scale(S, kind):
    T = S.mod("PathLib.Transform").Transform
    sx = S.real("sx", kind=kind) if kind == "f" else S.inum("sx")
    sy = S.real("sy", kind=kind) if kind == "f" else S.inum("sy")
    p = S.point("p", kind)
    S.check("scales each axis", S.eq(T.scale(sx, sy).applyToPoint(p), (sx * p[0], sy * p[1])))
    S.check("keyword x", S.eq(T.scale(sx=sx).applyToPoint(p), (sx * p[0], p[1])))
    S.check("keyword y", S.eq(T.scale(sy=sy).applyToPoint(p), (p[0], sy * p[1])))
    S.check("default", S.eq(T.scale().applyToPoint(p), p))


@harness("C04", cases=["f", "i"])
def shear(S, kind):
    T = S.mod("PathLib.Transform").Transform
    sx = S.real("sx", kind=kind) if kind == "f" else S.inum("sx")
    sy = S.real("sy", kind=kind) if kind == "f" else S.inum("sy")
    p = S.point("p", kind)
    S.check("shear", S.eq(T.shear(sx, sy).applyToPoint(p), (p[0] + sx * p[1], p[1] + sy * p[0])))
    S.check("shear x only", S.eq(T.shear(sx=sx).applyToPoint(p), (p[0] + sx * p[1], p[1])))
    S.check("shear y only", S.eq(T.shear(sy=sy).applyToPoint(p), (p[0], p[1] + sy * p[0])))
    S.check("default", S.eq(T.shear().applyToPoint(p), p))


FLAGS = [(False, False), (True, False), (False, True), (True, True)]


@harness("C04", cases=FLAGS)
def mirror(S, flags):
    xa, ya = flags
    T = S.mod("PathLib.Transform").Transform
    p = S.point("p")
    t = T.mirror(xAxis=xa, yAxis=ya)
    S.check("mirror", S.eq(t.applyToPoint(p), (-p[0] if ya else p[0], -p[1] if xa else p[1])))
    S.check("involution", S.eq(t.applyToPoint(t.applyToPoint(p)), p))
    S.check("positional", S.eq(T.mirror(xa, ya).applyToPoint(p), t.applyToPoint(p)))


@harness("C04", cases=[(f, k) for f in FLAGS for k in "fi"])
def mirror_around(S, case):
    (xa, ya), kind = case
    T = S.mod("PathLib.Transform").Transform
    c, p = S.point("c", kind), S.point("p", kind)
    t = T.mirrorAround(c, xAxis=xa, yAxis=ya)
    want = (2 * c[0] - p[0] if ya else p[0], 2 * c[1] - p[1] if xa else p[1])
    S.check("mirror around", S.eq(t.applyToPoint(p), want))
    S.check("center is fixed", S.eq(t.applyToPoint(c), c))
    S.check("involution", S.eq(t.applyToPoint(t.applyToPoint(p)), p))


@harness("C04")
def around_defaults(S, _):
    """What is left out is left alone."""
    T = S.mod("PathLib.Transform").Transform
    c, p, k = S.point("c"), S.point("p"), S.real("k")
    S.check("mirrors in neither direction by default", S.And(S.eq(T.mirror().applyToPoint(p), p),
                                                             S.eq(T.mirrorAround(c).applyToPoint(p), p)))
    S.check("in one direction", S.And(S.eq(T.mirror(xAxis=True).applyToPoint(p), (p[0], -p[1])),
                                      S.eq(T.mirrorAround(c, xAxis=True).applyToPoint(p), (p[0], 2 * c[1] - p[1])),
                                      S.eq(T.mirror(yAxis=True).applyToPoint(p), (-p[0], p[1])),
                                      S.eq(T.mirrorAround(c, yAxis=True).applyToPoint(p), (2 * c[0] - p[0], p[1]))))
    S.check("no perspective by default", S.eq(T.perspectiveFrom(c).applyToPoint(p), p))
    x, y = p[0] - c[0], p[1] - c[1]
    for t, w in ((T.perspectiveFrom(c, k), k * x + 1), (T.perspectiveFrom(c, q=k), k * y + 1)):
        S.assume(S.ne(w, 0))
        r = t.applyToPoint(p)
        S.check("perspective in one direction", S.And(S.eq((r[0] - c[0]) * w, x), S.eq((r[1] - c[1]) * w, y)))
    S.check("scales by one by default", S.And(S.eq(T.scale().applyToPoint(p), p),
                                              S.eq(T.scale(sx=k).applyToPoint(p), (k * p[0], p[1])),
                                              S.eq(T.scale(sy=k).applyToPoint(p), (p[0], k * p[1]))))


@harness("C04")
def perspective(S, _):
    T = S.mod("PathLib.Transform").Transform
    p, q, s = S.real("p"), S.real("q"), S.real("s")
    x, y = S.point("pt")
    w = p * x + q * y + s
    S.assume(S.ne(w, 0))
    rx, ry = T.perspective(p, q, s).applyToPoint((x, y))
    S.check("perspective division", S.And(S.eq(rx * w, x), S.eq(ry * w, y)))


@harness("C04")
def perspective_defaults(S, _):
    T = S.mod("PathLib.Transform").Transform
    p, q = S.real("p"), S.real("q")
    x, y = S.point("pt")
    w = p * x + q * y + 1
    S.assume(S.ne(w, 0))
    rx, ry = T.perspective(p, q).applyToPoint((x, y))
    S.check("unit scale by default", S.And(S.eq(rx * w, x), S.eq(ry * w, y)))
    S.check("identity by default", S.eq(T.perspective().applyToPoint((x, y)), (x, y)))


@harness("C04")
def perspective_from(S, _):
    T = S.mod("PathLib.Transform").Transform
    p, q = S.real("p"), S.real("q")
    c, (x, y) = S.point("c"), S.point("pt")
    w = p * (x - c[0]) + q * (y - c[1]) + 1
    S.assume(S.ne(w, 0))
    t = T.perspectiveFrom(c, p, q)
    rx, ry = t.applyToPoint((x, y))
    S.check("perspective around the center", S.And(S.eq((rx - c[0]) * w, x - c[0]), S.eq((ry - c[1]) * w, y - c[1])))
    S.check("center is fixed", S.eq(t.applyToPoint(c), c))
