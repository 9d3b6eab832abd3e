"""C34 Numeric helper functions satisfy their laws."""
from sx.api import harness
from .util import cross, dot, sub

BOUNDS = ("all arguments, float and int kinds; duplicate removal for lists of up to four numbers (five in the thorough "
          "tier) and three points; flattening of up to three contours of up to three segments")
ASSUMPTIONS = ["ranges to map from are not empty; units per em are not zero"]


def bu(S):
    return S.mod("PathLib.BezierUtilities")


def pu(S):
    return S.mod("PathLib.PathUtilities")


def real(S, name, k):
    return S.inum(name) if k == "i" else S.real(name)


@harness("C34", cases=["f", "i"])
def range_map(S, k):
    f = bu(S).map
    ds, de, ts, te, v, w = [real(S, x, k) for x in ("ds", "de", "ts", "te", "v", "w")]
    S.assume(S.ne(ds, de))
    r = f(v, ds, de, ts, te)
    S.check("affine", S.eq((r - ts) * (de - ds), (te - ts) * (v - ds)))
    S.check("start to start", S.eq(f(ds, ds, de, ts, te), ts))
    S.check("end to end", S.eq(f(de, ds, de, ts, te), te))
    S.check("identity", S.eq(f(v, ds, de, ds, de), v))
    S.check("straight line", S.eq(f(v, ds, de, ts, te) + f(w, ds, de, ts, te), 2 * f((v + w) / S.q(2), ds, de, ts, te)))


@harness("C34", cases=["f", "i"])
def range_map_back(S, k):
    f = bu(S).map
    ds, de, ts, te, v = [real(S, x, k) for x in ("ds", "de", "ts", "te", "v")]
    S.assume(S.And(S.ne(ds, de), S.ne(ts, te)))
    S.check("mapping back", S.eq(f(f(v, ds, de, ts, te), ts, te, ds, de), v))


def about(S, x, y, tol):
    """(surely within, surely not within) the tolerance"""
    d = x - y
    lo, hi = tol * S.q(10**9 - 1, 10**9), tol * S.q(10**9 + 1, 10**9)
    return S.And(S.le(d, lo), S.le(-d, lo)), S.Or(S.lt(hi, d), S.lt(hi, -d))


@harness("C34", cases=["f", "i", "given", "zero"])
def approximate(S, k):
    f = bu(S).approximately
    a, b = real(S, "a", k), real(S, "b", k)
    if k == "given":
        tol = S.real("tol", 0)
        r = f(a, b, tol)
    elif k == "zero":
        tol = 0
        r = f(a, b, 0)
    else:
        tol = S.q(1, 10**6)
        r = f(a, b)
    if k == "zero":
        S.check("equal", S.iff(bool(r), S.eq(a, b)))
        return
    r = bool(r)
    yes, no = about(S, a, b, tol)
    S.check("within the precision", S.Implies(yes, r), exact=True)
    S.check("not within the precision", S.Implies(no, not r), exact=True)
    if k != "given":
        S.check("symmetric", bool(f(b, a)) == r)


@harness("C34", cases=["f", "i"])
def tolerant_between(S, k):
    f = bu(S).between
    v, m, M = [real(S, x, k) for x in ("v", "m", "M")]
    r = bool(f(v, m, M))
    tol = S.q(1, 10**6)
    ya, na = about(S, v, m, tol)
    yb, nb = about(S, v, M, tol)
    inside = S.And(S.le(m, v), S.le(v, M))
    S.check("between or near an end", S.Implies(S.Or(inside, ya, yb), r), exact=True)
    S.check("neither between nor near an end", S.Implies(S.And(S.Not(inside), na, nb), not r), exact=True)


@harness("C34", cases=["f", "i"])
def cube_root(S, k):
    f = bu(S).crt
    v = real(S, "v", k)
    r = f(v)
    S.check("inverse of cubing", S.eq(r * r * r, v))
    S.check("sign", S.And(S.Implies(S.lt(0, v), S.lt(0, r)), S.Implies(S.lt(v, 0), S.lt(r, 0)), S.Implies(S.eq(v, 0), S.eq(r, 0))))
    S.check("odd", S.eq(f(-v), -r))


@harness("C34", cases=["f", "i"])
def square_root(S, k):
    f = bu(S).sqrt
    x = real(S, "x", k)
    r = f(x)
    if S.kind(r) == "f" and isinstance(r, float) and r != r:
        S.check("not a number only for negative arguments", S.lt(x, 0))
        return
    S.check("a number only for other arguments", S.le(0, x))
    S.check("square root", S.And(S.le(0, r), S.eq(r * r, x)))


def first_occurrences(S, l, r, same):
    """r is l without the entries equal to an earlier one."""
    alts = []
    n = len(l)
    for mask in range(1 << n):
        keep = [i for i in range(n) if mask >> i & 1]
        if len(keep) != len(r):
            continue
        c = [same(l[i], r[j]) for j, i in enumerate(keep)]
        for i in range(n):
            dup = S.Or([same(l[j], l[i]) for j in range(i)]) if i else S.Not(S.eq(0, 0))
            c.append(S.Not(dup) if i in keep else dup)
        alts.append(S.And(c))
    return S.Or(alts) if alts else S.Not(S.eq(0, 0))


@harness("C34", cases=[(n, k) for n in (0, 1, 2, 3, 4) for k in "fi"], thorough=[(5, "f")])
def duplicates(S, case):
    n, k = case
    l = [real(S, f"x{i}", k) for i in range(n)]
    keep = list(l)
    r = bu(S).removeDuplicates(l)
    S.check("first occurrences in order", first_occurrences(S, keep, list(r), S.eq), exact=True)
    S.check("list unchanged", S.And(len(l) == n, S.And(S.eq(a, b) for a, b in zip(l, keep)) if n else S.eq(0, 0)), exact=True)


@harness("C34", cases=[2, 3])
def duplicate_points(S, n):
    l = S.points("p", n)
    r = bu(S).removeDuplicates(l)
    S.check("first occurrences in order", first_occurrences(S, l, [tuple(p) for p in r], S.eq), exact=True)


@harness("C34", cases=["f", "i"])
def pairing(S, k):
    a, b = real(S, "a", k), real(S, "b", k)
    lo, hi = pu(S).minMax(a, b)
    S.check("in order", S.le(lo, hi), exact=True)
    S.check("the same two", S.Or(S.And(S.eq(lo, a), S.eq(hi, b)), S.And(S.eq(lo, b), S.eq(hi, a))), exact=True)


@harness("C34", cases=["f", "i"])
def signed_angle(S, k):
    o, p, q = S.points("p", 3, k)
    u, v = sub(p, o), sub(q, o)
    S.assume(S.And(S.gt(dot(u, u), 0), S.gt(dot(v, v), 0)))
    x = bu(S).angle(o, p, q)
    c, s = S.cossin(x)
    C, D = cross(u, v), dot(u, v)
    h = S.sqrt(C * C + D * D)
    S.check("cosine", S.eq(c * h, D))
    S.check("sine", S.eq(s * h, C))
    S.check("positive counter-clockwise", S.And(S.Implies(S.lt(0, C), x > 0), S.Implies(S.lt(C, 0), x < 0),
                                                S.Implies(S.And(S.eq(C, 0), S.lt(0, D)), S.And(x >= 0, x <= 0))))


@harness("C34", cases=["f", "i"])
def units(S, k):
    f = pu(S).toMicros
    x = real(S, "x", k)
    n = S.int("n", 1, 16384)
    S.check("thousandths of the em", S.eq(f(x, n) * n, x * 1000))


@harness("C34", cases=["f", "i"])
def units_common(S, k):
    f = pu(S).toMicros
    x = real(S, "x", k)
    for n in (1000, 2048, 1):
        S.check("thousandths of the em", S.eq(f(x, n) * n, x * 1000))


@harness("C34", cases=[(), (0,), (1,), (2, 0, 1), (1, 3), (0, 0), (3, 2, 2)])
def flat(S, sizes):
    segs = []
    contours = []
    for i, n in enumerate(sizes):
        c = [S.points(f"p{i}.{j}.", 2 + (i + j) % 3) for j in range(n)]
        contours.append(c)
        segs += c
    copies = [list(c) for c in contours]
    r = pu(S).flatten(contours)
    S.check("all segments in order", S.And(len(r) == len(segs), S.eq([list(map(tuple, s)) for s in r],
                                                                     [list(map(tuple, s)) for s in segs])), exact=True)
    S.check("contours unchanged", [len(c) for c in contours] == [len(c) for c in copies])


@harness("C34", cases=["f", "i"])
def interpolation(S, k):
    f = bu(S).lerp
    a, b = S.points("p", 2, k)
    r = S.real("r")
    x = tuple(f(r, a, b))
    S.check("affine", S.eq(x, (a[0] * (1 - r) + b[0] * r, a[1] * (1 - r) + b[1] * r)))
    S.check("ends", S.And(S.eq(tuple(f(0, a, b)), a), S.eq(tuple(f(1, a, b)), b)))
    S.check("backwards", S.eq(tuple(f(1 - r, b, a)), x))


@harness("C34")
def no_angle(S, _):
    """A vector of length zero is on no side of another one, whatever the signs of its zeros."""
    for x in (-1.0, 1.0):
        for y in (-2.0, 0.0, 2.0):
            for z in ((0.0, 0.0), (-0.0, -0.0), (0, 0)):
                S.check("zero", bu(S).angle((0, 0), (x, y), z) == 0)
                S.check("zero from a point", bu(S).angle((0, 0), z, (x, y)) == 0)
