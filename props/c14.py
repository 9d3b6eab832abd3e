"""C14 A curve's bounding box contains the curve and is tight."""
from sx.api import harness
from .util import bern

BOUNDS = ("orders 1 to 3; each coordinate with all control values: containment is decided at the ends and at every "
          "critical parameter in [0,1] (which bounds the curve, being differentiable), parametrised by the critical "
          "parameter itself; quadratics also at an arbitrary parameter; overlaps for all pairs of lines and for "
          "quadratics against a line")

OTHER = {1: [2, 5], 2: [2, 5, 9], 3: [2, 5, 9, 20], "wavy2": [2, 9, 3], "wavy3": [0, 6, -6, 0]}


def curve(S, v, dim, other=None):
    B = S.mod("PathLib.Bezier").Bezier
    o = OTHER[other or len(v) - 1]
    return B([(a, b) if dim == 0 else (b, a) for a, b in zip(v, o)])


def box(S, b, dim):
    r = b.boundsRectangle
    lo, hi = b.bbox[dim][0], b.bbox[dim][1]
    S.check("rectangle and box agree", S.eq((r.left, r.right) if dim == 0 else (r.bottom, r.top), (lo, hi)))
    return lo, hi


def value(S, v, t):
    return bern(S, [(x, 0) for x in v], t)[0]


def ends_inside(S, v, lo, hi):
    S.check("contains the ends", S.And(S.between(lo, v[0], hi), S.between(lo, v[-1], hi)))


def tight(S, v, lo, hi, cands):
    """Each edge is the coordinate at 0, at 1 or at one of the given parameters, if it is in [0,1]."""
    for name, e in (("lower", lo), ("upper", hi)):
        S.check(name + " edge touches the curve", S.Or(
            [S.eq(e, v[0]), S.eq(e, v[-1])] + [S.And(S.between(0, t, 1), S.eq(e, value(S, v, t))) for t in cands]))


def no_tangle(S, v, lo, hi):
    ends_inside(S, v, lo, hi)
    tight(S, v, lo, hi, [])


@harness("C14", cases=[(0, "f"), (1, "f"), (0, "i"), (1, "i")])
def line(S, case):
    dim, k = case
    v = [S.inum("v0"), S.inum("v1")] if k == "i" else [S.real("v0"), S.real("v1")]
    lo, hi = box(S, curve(S, v, dim), dim)
    no_tangle(S, v, lo, hi)
    t = S.real("t", 0, 1)
    S.check("contains the line", S.between(lo, value(S, v, t), hi))


@harness("C14", cases=[0, 1])
def quadratic_without_critical_point(S, dim):
    v0, d0, d1 = S.real("v0"), S.real("d0"), S.real("d1")
    # derivative d0 (1-t) + d1 t has no zero strictly inside
    S.assume(S.Or(S.And(S.ge(d0, 0), S.ge(d1, 0)), S.And(S.le(d0, 0), S.le(d1, 0))))
    v = [v0, v0 + d0, v0 + d0 + d1]
    no_tangle(S, v, *box(S, curve(S, v, dim), dim))


@harness("C14", cases=[0, 1])
def quadratic_with_critical_point(S, dim):
    v0, g, r = S.real("v0"), S.real("g"), S.real("r", 0, 1)
    S.assume(S.And(S.lt(0, r), S.lt(r, 1), S.ne(g, 0)))
    v = [v0, v0 - g * r, v0 - g * r + g * (1 - r)]   # derivative 2 g (t - r)
    lo, hi = box(S, curve(S, v, dim), dim)
    ends_inside(S, v, lo, hi)
    S.check("contains the critical point", S.between(lo, value(S, v, r), hi))
    tight(S, v, lo, hi, [r])


@harness("C14", cases=[0, 1])
def quadratic_anywhere(S, dim):
    v0, g, r, t = S.real("v0"), S.real("g"), S.real("r"), S.real("t", 0, 1)
    S.assume(S.ne(g, 0))
    v = [v0, v0 - g * r, v0 - g * r + g * (1 - r)]
    lo, hi = box(S, curve(S, v, dim), dim)
    S.check("contains the curve", S.between(lo, value(S, v, t), hi))


def with_root(v0, al, be, r):
    """Control values of the cubic with derivative 3 (t - r) (al t + be)."""
    q0 = -r * be
    q1 = q0 + (be - al * r) / 2
    q2 = (1 - r) * (al + be)
    return [v0, v0 + q0, v0 + q0 + q1, v0 + q0 + q1 + q2]


@harness("C14", cases=[(dim, s) for dim in (0, 1) for s in ("two", "one")], weight=3)
def cubic_with_critical_points(S, case):
    dim, s = case
    v0, be, r = S.real("v0"), S.real("be"), S.real("r")
    if s == "one":
        # derivative 3 be (t - r)
        S.assume(S.ne(be, 0))
        v = with_root(v0, 0, be, r)
        cands = [r]
    else:
        al, r2 = S.real("al"), S.real("r2")
        S.assume(S.And(S.ne(al, 0), S.le(r, r2)))
        v = with_root(v0, al, -al * r2, r)
        cands = [r, r2, (r + r2) / 2]
    lo, hi = box(S, curve(S, v, dim), dim)
    ends_inside(S, v, lo, hi)
    for t in cands[:2]:
        S.check("contains the critical points", S.Implies(S.between(0, t, 1), S.between(lo, value(S, v, t), hi)))
    tight(S, v, lo, hi, cands)


@harness("C14", cases=[0, 1])
def cubic_without_critical_points(S, dim):
    v0, a, m, k = S.real("v0"), S.real("a"), S.real("m"), S.real("k")
    # derivative 3 a ((t - m)^2 + k), k > 0 (or constant: a == 0 and the constant c)
    S.assume(S.And(S.ne(a, 0), S.gt(k, 0)))
    q0 = a * (m * m + k)
    q1 = q0 - a * m
    q2 = a * ((1 - m) * (1 - m) + k)
    v = [v0, v0 + q0, v0 + q0 + q1, v0 + q0 + q1 + q2]
    lo, hi = box(S, curve(S, v, dim), dim)
    ends_inside(S, v, lo, hi)
    tight(S, v, lo, hi, [m])


@harness("C14", cases=[0, 1])
def cubic_linear(S, dim):
    v0, c = S.real("v0"), S.real("c")
    v = [v0, v0 + c, v0 + 2 * c, v0 + 3 * c]
    no_tangle(S, v, *box(S, curve(S, v, dim), dim))


@harness("C14", cases=[(n, dim) for n in (2, 3) for dim in (0, 1)])
def coordinates_do_not_mix(S, case):
    """The box of one coordinate does not depend on the other (which has its own critical points)."""
    n, dim = case
    u = S.real("u")
    other = {2: [u, u + 4, u + 1], 3: [u, u + 8, u - 6, u + 2]}[n]
    B = S.mod("PathLib.Bezier").Bezier
    w = OTHER["wavy%d" % n]
    b = B([(p, q) if dim == 0 else (q, p) for p, q in zip(w, other)])
    c = B([(p, q) if dim == 0 else (q, p) for p, q in zip(w, OTHER[n])])
    S.check("same box", S.eq(tuple(b.bbox[dim]), tuple(c.bbox[dim])))
    S.check("translated box", S.eq(tuple(b.bbox[1 - dim]), tuple(x + u for x in B(
        [(p, q - u) if dim == 0 else (q - u, p) for p, q in zip(w, other)]).bbox[1 - dim])))


def meet(S, a, b):
    A, B = a.bbox, b.bbox
    return S.And(S.And(S.le(A[k][0], B[k][1]), S.le(B[k][0], A[k][1])) for k in (0, 1))


@harness("C14")
def overlaps_lines(S, _):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", 4)
    a, b = B(P[:2]), B(P[2:])
    got = a.overlaps(b)
    S.check("exactly when the boxes meet", S.iff(got, meet(S, a, b)), exact=True)


@harness("C14", cases=[0, 1])
def overlaps_quadratic(S, dim):
    B = S.mod("PathLib.Bezier").Bezier
    v0, g, r = S.real("v0"), S.real("g"), S.real("r", 0, 1)
    S.assume(S.And(S.lt(0, r), S.lt(r, 1), S.ne(g, 0)))
    a = curve(S, [v0, v0 - g * r, v0 - g * r + g * (1 - r)], dim)
    x0, x1 = S.real("x0"), S.real("x1")
    b = curve(S, [x0, x1], dim)
    got, back = a.overlaps(b), b.overlaps(a)
    S.check("exactly when the boxes meet", S.And(S.iff(got, meet(S, a, b)), S.iff(back, meet(S, a, b))))
