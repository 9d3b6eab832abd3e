"""C19 Raising the order of a curve does not change it."""
from sx.api import harness
from .util import bern

BOUNDS = "all real control points (float and int kinds), orders 1 to 6, all real parameters; raised twice up to order 5"


@harness("C19", cases=[(n, k) for n in (1, 2, 3, 4, 5, 6) for k in "fi"])
def same_curve(S, case):
    n, kind = case
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1, kind)
    t = S.real("t")
    b = B(P)
    r = b.raiseOrder()
    q = [tuple(p) for p in r.controlPoints]
    S.check("one more control point", len(q) == n + 2 and r.order == n + 1)
    S.check("same curve", S.eq(bern(S, q, t), bern(S, P, t)))
    S.check("same ends", S.And(S.eq(q[0], P[0]), S.eq(q[-1], P[-1])))
    S.check("original unchanged", S.eq([tuple(p) for p in b.controlPoints], P), exact=True)


@harness("C19", cases=[1, 2, 3, 4])
def evaluated(S, n):
    """The raised curve's own evaluation gives the points of the original."""
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t = S.real("t")
    b = B(P)
    S.check("same points", S.eq(tuple(b.raiseOrder().get(t)), tuple(b.get(t))))


@harness("C19", cases=[1, 2, 3])
def raised_twice(S, n):
    B = S.mod("PathLib.Bezier").Bezier
    P = S.points("p", n + 1)
    t = S.real("t")
    r = B(P).raiseOrder().raiseOrder()
    S.check("same curve", S.eq(bern(S, [tuple(p) for p in r.controlPoints], t), bern(S, P, t)))
