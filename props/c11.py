"""C11 Curve evaluation is the Bernstein polynomial of the control points."""
from sx.api import harness
from .util import bern

BOUNDS = ("all real control points, float and int kinds; orders 1 to 5 (samples: 1 to 4); all real "
          "parameters; sample counts 2, 3, 5, 9")


@harness("C11", cases=[(n, k) for n in (1, 2, 3, 4, 5) for k in "fi"])
def evaluation(S, case):
    n, kind = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1, kind)
    t = S.real("t")
    b = B(P)
    S.check("order", b.order == n)
    S.check("curve point", S.eq(tuple(b.get(t)), bern(S, P, t)))
    S.check("starts at the first control point", S.eq(tuple(b.get(0)), P[0]), exact=True)
    S.check("ends at the last control point", S.eq(tuple(b.get(1)), P[n]), exact=True)
    S.check("start and end", S.And(S.eq(tuple(b.start), P[0]), S.eq(tuple(b.end), P[n]), S.eq(b.startX, P[0][0]),
                                   S.eq(b.startY, P[0][1]), S.eq(b.endX, P[n][0]), S.eq(b.endY, P[n][1])), exact=True)
    S.check("midpoint", S.eq(tuple(b.midpoint), bern(S, P, S.q(1, 2))))
    S.check("control points", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)


@harness("C11", cases=[(n, w) for n in (1, 2, 3, 4, 5) for w in (0.25, 0.5, 0.75, 0.875)])
def fixed_parameters(S, case):
    n, w = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    S.check("curve point", S.eq(tuple(B(P).get(w)), bern(S, P, S.q({0.25: 1, 0.5: 1, 0.75: 3, 0.875: 7}[w],
                                                                  {0.25: 4, 0.5: 2, 0.75: 4, 0.875: 8}[w]))))


@harness("C11", cases=[(n, w) for n in (1, 2, 3, 4, 5) for w in ("t", 0.5, 0.25, 0, 1)])
def hull(S, case):
    n, w = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t = S.real("t") if w == "t" else w
    h = B(P).hull(t)
    t = t if w == "t" else S.q(int(w * 4), 4)
    want, lvl = list(P), P
    while len(lvl) > 1:
        lvl = [(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])) for a, b in zip(lvl, lvl[1:])]
        want += lvl
    S.check("successive interpolations", S.eq([tuple(p) for p in h], want))
    S.check("last one is the curve point", S.eq(tuple(h[-1]), bern(S, P, t)))


@harness("C11", cases=[(n, k) for n in (1, 2, 3, 4) for k in (2, 3, 5, 9)])
def samples(S, case):
    n, k = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    b = B(P)
    lut = b.getLUT(k)
    S.check("number of samples", len(lut) == k)
    S.check("uniform samples", S.eq([tuple(p) for p in lut], [bern(S, P, S.q(i, k - 1)) for i in range(k)]))
    again = b.getLUT(k)
    S.check("same answer again", S.eq([tuple(p) for p in again], [bern(S, P, S.q(i, k - 1)) for i in range(k)]))
    other = b.getLUT(k + 1)
    S.check("another sample count", S.eq([tuple(p) for p in other], [bern(S, P, S.q(i, k)) for i in range(k + 1)]))
    S.check("and back", S.eq([tuple(p) for p in b.getLUT(k)], [bern(S, P, S.q(i, k - 1)) for i in range(k)]))


@harness("C11", cases=[1, 3])
def default_samples(S, n):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    lut = B(P).getLUT()
    S.check("100 samples", len(lut) == 100)
    for i in (0, 1, 33, 50, 98, 99):
        S.check("uniform samples", S.eq(tuple(lut[i]), bern(S, P, S.q(i, 99))))


@harness("C11", cases=["f", "i"])
def interpolation(S, kind):
    BU = S.mod("PathLib.BezierUtilities")
    a, b = S.points("p", 2, kind)
    r = S.real("r")
    S.check("interpolation", S.eq(tuple(BU.lerp(r, a, b)), (a[0] + r * (b[0] - a[0]), a[1] + r * (b[1] - a[1]))))
