"""C05 Rotations are rigid: they fix their center and turn by the stated angle, both ways."""
import math

from sx.api import harness

BOUNDS = ("all angles in (-180, 180] degrees plus whole turns of -1, 0, +1; all real centers and points; segments of "
          "up to 4 points, contours of up to 2 segments; uneven angles: coordinates within 1000, to 1e-6")
TURNS = (0, 1, -1)


def turned(c, s, about, p, ccw):
    x, y = p[0] - about[0], p[1] - about[1]
    if not ccw:
        s = -s
    return (about[0] + c * x - s * y, about[1] + s * x + c * y)


@harness("C05", cases=[(ccw, k) for ccw in (True, False) for k in "fi"])
def rotation_about(S, case):
    ccw, kind = case
    T = S.mod("PathLib.Transform").Transform
    deg, c, s = S.angle("a", TURNS)
    o, p = S.point("o", kind), S.point("p", kind)
    t = T.rotationAbout(o, deg, ccw)
    S.check("turns by the angle", S.eq(t.applyToPoint(p), turned(c, s, o, p, ccw)))
    S.check("center is fixed", S.eq(t.applyToPoint(o), o))
    S.check("keywords", S.eq(T.rotationAbout(about=o, degrees=deg, ccw=ccw).applyToPoint(p), turned(c, s, o, p, ccw)))


@harness("C05", cases=[True, False])
def rotation_about_origin(S, ccw):
    T = S.mod("PathLib.Transform").Transform
    deg, c, s = S.angle("a", TURNS)
    p = S.point("p")
    t = T.rotation(deg, ccw)
    S.check("turns by the angle", S.eq(t.applyToPoint(p), turned(c, s, (0, 0), p, ccw)))


@harness("C05", cases=[True, False])
def rigid(S, ccw):
    T = S.mod("PathLib.Transform").Transform
    deg, c, s = S.angle("a")
    o, p, q = S.points("p", 3)
    t = T.rotationAbout(o, deg, ccw)
    a, b = t.applyToPoint(p), t.applyToPoint(q)
    S.check("distances kept", S.eq((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]),
                                   (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])))
    S.check("orientation kept", S.eq((a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]),
                                     (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])))


@harness("C05")
def clockwise_undoes_counterclockwise(S, _):
    T = S.mod("PathLib.Transform").Transform
    deg, c, s = S.angle("a")
    o, p = S.points("p", 2)
    a = T.rotationAbout(o, deg, True).applyToPoint(p)
    S.check("inverse", S.eq(T.rotationAbout(o, deg, False).applyToPoint(a), p))
    S.check("negated angle", S.eq(T.rotationAbout(o, -deg, False).applyToPoint(p), a))
    b = T.rotation(deg).applyToPoint(p)
    S.check("inverse about the origin", S.eq(T.rotation(deg, False).applyToPoint(b), p))


@harness("C05")
def rotations_add(S, _):
    T = S.mod("PathLib.Transform").Transform
    d1, c1, s1 = S.angle("a")
    d2, c2, s2 = S.angle("b")
    o, p = S.points("p", 2)
    q = T.rotationAbout(o, d2).applyToPoint(T.rotationAbout(o, d1).applyToPoint(p))
    S.check("angles add", S.eq(T.rotationAbout(o, d1 + d2).applyToPoint(p), q))


@harness("C05")
def defaults(S, _):
    T = S.mod("PathLib.Transform").Transform
    PU = S.mod("PathLib.PathUtilities")
    o, p = S.points("p", 2)
    want = (o[0] - (p[1] - o[1]), o[1] + (p[0] - o[0]))
    S.check("rotation is 90 degrees ccw", S.eq(T.rotation().applyToPoint(p), (-p[1], p[0])))
    S.check("rotationAbout is 90 degrees ccw", S.eq(T.rotationAbout(o).applyToPoint(p), want))
    S.check("rotatePointAbout is 90 degrees ccw", S.eq(PU.rotatePointAbout(p, o), want))
    S.check("rotateSegmentAbout is, too", S.eq([tuple(x) for x in PU.rotateSegmentAbout([p, o], o)], [want, o]))
    S.check("rotateContourAbout is, too", S.eq([[tuple(x) for x in y] for y in PU.rotateContourAbout([[p, o]], o)], [[want, o]]))
    S.check("rotateContoursAbout is, too", S.eq([[[tuple(x) for x in y] for y in z] for z in
                                                 PU.rotateContoursAbout([[[p, o]]], o)], [[[want, o]]]))


@harness("C05", cases=[0, 30, 45, 60, 90, 120, 135, 150, 180, 210, 225, 240, 270, 300, 315, 330, 360, -30, -45, -90,
                       -180, 720])
def particular_angles(S, deg):
    import math
    T = S.mod("PathLib.Transform").Transform
    p, q = S.points("p", 2)
    a, b = T.rotation(deg).applyToPoint(p), T.rotation(deg, False).applyToPoint(p)
    c, s = cs(S, deg)
    S.check("ccw", S.eq(a, (c * p[0] - s * p[1], s * p[0] + c * p[1])))
    S.check("cw", S.eq(b, (c * p[0] + s * p[1], -s * p[0] + c * p[1])))


def cs(S, deg):
    deg %= 360
    h = S.q(1, 2)
    r2, r3 = S.sqrt(2) / 2, S.sqrt(3) / 2
    t = {0: (1, 0), 30: (r3, h), 45: (r2, r2), 60: (h, r3), 90: (0, 1)}
    q, r = divmod(deg, 90)
    c, s = t[r]
    for _ in range(q):
        c, s = -s, c
    return c, s


@harness("C05", cases=[True, False])
def whole_shapes(S, ccw):
    PU = S.mod("PathLib.PathUtilities")
    deg, c, s = S.angle("a")
    o = S.point("o")
    P = S.points("p", 4)
    im = [turned(c, s, o, p, ccw) for p in P]
    S.check("point", S.eq(PU.rotatePointAbout(P[0], o, deg, ccw), im[0]))
    S.check("segment", S.eq(list(PU.rotateSegmentAbout(P, o, deg, ccw)), im))
    con = [[P[0], P[1]], [P[1], P[2], P[3]]]
    icon = [[im[0], im[1]], [im[1], im[2], im[3]]]
    S.check("contour", S.eq([list(x) for x in PU.rotateContourAbout(con, o, deg, ccw)], icon))
    S.check("contours", S.eq([[list(x) for x in y] for y in PU.rotateContoursAbout([con, con[:1]], o, deg, ccw)],
                             [icon, icon[:1]]))
    S.check("a single contour", S.eq([[list(x) for x in y] for y in PU.rotateContoursAbout([con], o, deg, ccw)], [icon]))
    S.check("no contours", PU.rotateContoursAbout([], o, deg, ccw) == [])
    S.check("input unchanged", con == [[P[0], P[1]], [P[1], P[2], P[3]]])


@harness("C05")
def move_and_rotate(S, _):
    T = S.mod("PathLib.Transform").Transform
    deg, c, s = S.angle("a", TURNS)
    f, t, p = S.points("p", 3)
    moved = (p[0] + t[0] - f[0], p[1] + t[1] - f[1])
    q = T.moveAndRotate(f, t, deg).applyToPoint(p)
    S.check("moves, then rotates about the origin", S.eq(q, turned(c, s, (0, 0), moved, True)))
    r = turned(c, s, (0, 0), p, True)
    q2 = T.rotateAndMove(f, t, deg).applyToPoint(p)
    S.check("rotates about the origin, then moves", S.eq(q2, (r[0] + t[0] - f[0], r[1] + t[1] - f[1])))
    back = T.rotateAndMove(t, f, -deg).applyToPoint(q)
    S.check("rotateAndMove by the opposite undoes moveAndRotate", S.eq(back, p))


@harness("C05", cases=[0.0004, 33.33333333, -0.00001, 179.9999, 719.99995, -1234.56789, 89.9999999])
def uneven_angles(S, deg):
    """Fixed angles that are no round numbers, about any center."""
    T = S.mod("PathLib.Transform").Transform
    o = (S.real("ox", -1000, 1000), S.real("oy", -1000, 1000))
    p = (S.real("px", -1000, 1000), S.real("py", -1000, 1000))
    c, s = (S.q(round(f(math.radians(deg)) * 10**15), 10**15) for f in (math.cos, math.sin))
    tol = S.q(1, 10**6)
    for ccw in (True, False):
        want = turned(c, s, o, p, ccw)
        for got in (T.rotationAbout(o, deg, ccw).applyToPoint(p), S.mod("PathLib.PathUtilities").rotatePointAbout(p, o, deg, ccw)):
            S.check("turns by the angle", S.And(S.between(-tol, a - b, tol) for a, b in zip(got, want)))
