"""C31 Direction, linearity and orientation of a curve are classified correctly."""
from sx.api import harness
from .util import cross, dot, sub

BOUNDS = ("direction: all control points of orders 1 to 4, float, int and Decimal kinds; linearity and sense: orders 1 to 4 (thorough 5), all "
          "chords given as origin, direction and length with all handles, and all integer or Decimal chords along (3, -4)")
ASSUMPTIONS = ["curves with distinct end points (no chord line otherwise); a first handle pointing straight back along "
               "the chord has no side"]


def curve(S, P, k="f"):
    return S.mod("PathLib.Bezier").Bezier([S.decimals(p) for p in P] if k == "d" else P)


@harness("C31", cases=[(n, k) for n in (1, 2, 3, 4) for k in "fid"], lazy=False)
def direction(S, case):
    n, k = case
    B = S.mod("PathLib.Bezier").Bezier
    if k == "i":
        P = [(S.int(f"x{i}", -1000, 1000), S.int(f"y{i}", -1000, 1000)) for i in range(n + 1)]
    else:
        P = [(S.real(f"x{i}") if i in (0, n) else 7 * i * i, S.real(f"y{i}")) for i in range(n + 1)]
    # only the heights matter: put the curve on a frame whose other branches are settled
    d = curve(S, [(i, y) for i, (_, y) in enumerate(P)], k).direction
    y = [p[1] for p in P]
    up = S.And(S.le(a, b) for a, b in zip(y, y[1:]))
    down = S.And(S.le(b, a) for a, b in zip(y, y[1:]))
    S.check("one of the four directions", d in (B.dir_up, B.dir_down, B.dir_flat, B.dir_mixed))
    S.check("four different directions", len({B.dir_up, B.dir_down, B.dir_flat, B.dir_mixed}) == 4)
    if n == 4:
        S.check("higher orders are not classified", S.Implies(d != B.dir_mixed, S.And(d == B.dir_up, up) if d == B.dir_up
                                                             else down))
        return
    if n == 1:
        S.check("flat exactly for horizontal lines", S.iff(d == B.dir_flat, S.eq(y[0], y[1])))
    flat = S.And(up, down)
    S.check("up", S.Implies(S.Not(flat), S.iff(d == B.dir_up, up)))
    S.check("down", S.Implies(S.Not(flat), S.iff(d == B.dir_down, down)))
    S.check("mixed", S.iff(d == B.dir_mixed, S.And(S.Not(up), S.Not(down))))


def chord(S, n, k):
    """Control points on a chord frame: origin, unit direction, positions along and across."""
    if k == "f":
        o, d, l = S.point("o"), S.direction("d"), S.real("l")
        us = [S.real(f"u{i}") for i in range(1, n)]
        ws = [S.real(f"w{i}") for i in range(1, n)]
    else:
        o = (S.int("ox", -1000, 1000), S.int("oy", -1000, 1000)) if k == "i" else S.point("o")
        d = (S.q(3, 5), S.q(-4, 5))
        num = (lambda m: 5 * S.int(m, -100, 100)) if k == "i" else S.real
        l = num("l")
        us = [num(f"u{i}") for i in range(1, n)]
        ws = [num(f"w{i}") for i in range(1, n)]
    S.assume(S.lt(0, l))
    us, ws = [0] + us + [l], [0] + ws + [0]
    if k == "i":
        a = [(3 * (u // 5) + 4 * (w // 5), -4 * (u // 5) + 3 * (w // 5)) for u, w in zip(us, ws)]
        return [(o[0] + x, o[1] + y) for x, y in a], us, ws
    return [(o[0] + u * d[0] - w * d[1], o[1] + u * d[1] + w * d[0]) for u, w in zip(us, ws)], us, ws


@harness("C31", cases=[(n, k) for n in (1, 2, 3, 4) for k in "fd"], thorough=[(5, "f")], lazy=False)
def linearity(S, case):
    n, k = case
    P, us, ws = chord(S, n, k)
    b = curve(S, P, k)
    if not hasattr(b, "_linear"):
        return
    tol = S.q(1, 10000)
    if b._linear:
        S.check("control points within tolerance of the chord line", S.And(
            S.And(S.le(w, tol * S.q(1000001, 1000000)), S.le(-tol * S.q(1000001, 1000000), w)) for w in ws))
    else:
        S.check("some control point is off the chord line", S.Or(
            S.Or(S.le(tol * S.q(999999, 1000000), w), S.le(w, -tol * S.q(999999, 1000000))) for w in ws))


@harness("C31", cases=[(n, k) for n in (1, 2, 3, 4) for k in "fid"], lazy=False)
def sense(S, case):
    n, k = case
    P, us, ws = chord(S, n, k)
    if n > 1:
        S.assume(S.Or(S.ne(ws[1], 0), S.le(0, us[1])))
    b = curve(S, P, k)
    if not hasattr(b, "_clockwise"):
        return
    turn = ws[1]
    S.check("sense", S.iff(bool(b._clockwise), S.lt(0, turn)))


@harness("C31", cases=[1, 2, 3], lazy=False)
def any_control_points(S, n):
    """Without a frame: the same answers for all control points."""
    P = S.points("p", n + 1)
    S.assume(S.ne(P[0], P[n]))
    a, h = sub(P[n], P[0]), sub(P[1], P[0])
    if n > 1:
        S.assume(S.Or(S.ne(cross(a, h), 0), S.le(0, dot(a, h))))
    b = curve(S, P)
    if hasattr(b, "_clockwise"):
        S.check("sense", S.iff(bool(b._clockwise), S.lt(0, cross(a, h))))
    if hasattr(b, "_linear") and not b._linear:
        S.check("a straight curve is linear", S.Not(S.And(S.eq(cross(a, sub(p, P[0])), 0) for p in P)))
    S.check("control points kept", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)
