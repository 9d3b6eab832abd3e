"""C18 Queries do not change a curve: answers do not depend on history."""
from sx.api import harness

BOUNDS = ("every ordered pair of 28 queries (for the reduction: after box, extrema and everything), and all of them in a row "
          "twice, on lines with free points, on quadratics and "
          "cubics with one free coordinate (cheap queries) and on fixed quadratics and cubics under a free horizontal translation "
          "(all queries, with reduction, length, self intersection); pieces and curves sharing control points; "
          "answers kept while 18 kinds of further queries run on it and on similar curves, and at different parameters")


def norm(x):
    """Answers as nested lists of numbers, so that they can be compared (copied at once)."""
    if x is None or isinstance(x, (bool, str)):
        return [["atom", x]]
    if hasattr(x, "controlPoints"):
        return [norm(p) for p in x.controlPoints] + [x._t1, x._t2]
    if hasattr(x, "left") and hasattr(x, "top"):
        return [x.left, x.bottom, x.right, x.top]
    if isinstance(x, dict):
        return [norm(x[k]) for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    return x


def same(S, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return S.And(False)
        if len(a) == 2 and a[0] == "atom" and isinstance(a[0], str):
            return S.And(isinstance(b[0], str) and a[1] == b[1])
        return S.And(same(S, x, y) for x, y in zip(a, b))
    return S.eq(a, b)


T = 0.375

CHEAP = {
    "get": lambda b: b.get(T),
    "midpoint": lambda b: b.midpoint,
    "ends": lambda b: [b.start, b.end, b.startX, b.startY, b.endX, b.endY, b.order],
    "dcPoints": lambda b: b.dcPoints,
    "derivative": lambda b: b._derivative(T),
    "extrema": lambda b: b.extrema,
    "bbox": lambda b: b.bbox,
    "boundsRectangle": lambda b: b.boundsRectangle,
    "skeletonBounds": lambda b: b.skeletonBounds,
    "hull": lambda b: b.hull(T),
    "lut4": lambda b: b.getLUT(4),
    "lut3": lambda b: b.getLUT(3),
    "split": lambda b: b.split(T),
    "piece": lambda b: b.split(0.25, 0.5),
    "raiseOrder": lambda b: b.raiseOrder(),
    "controlPoints": lambda b: b.controlPoints,
    "direction": lambda b: b.direction,
}
MORE = {
    "normal": lambda b: b.normal(T),
    "offsetPoint": lambda b: b.offset(T, 2),
    "length": lambda b: b.length,
    "reduce": lambda b: b.reduce(),
    "offset": lambda b: b.offset(0.5),
    "tightbbox": lambda b: b.tightbbox,
    "align": lambda b: b.align(),
    "simple": lambda b: [1] if b.simple() else [2],
    "intersectWithLine": lambda b: b.intersectWithLine(type(b)([(-50, 0.5), (90, 0.5)])),
    "overlaps": lambda b: [1] if b.overlaps(type(b)([(-50, 0.5), (90, 0.5)])) else [2],
}
CURVED = {
    "roots": lambda b: b.roots(),
    "lineIntersects": lambda b: b.lineIntersects(((-50, 0.5), (90, 0.5))),
    "abc": lambda b: b.getABC(T),
}

FAMILIES = {
    2: [(0, -1), (2, 3), (6, -1)],
    3: [(0, 0), (2, 3), (5, -2), (9, 1)],
}


def queries(kind, n):
    q = dict(CHEAP)
    if kind == "all":
        q.update(MORE)
        if n > 1:
            q.update(CURVED)
    return q


def build(S, kind, n):
    B = S.mod("PathLib.Bezier").Bezier
    if kind == "free":
        if n == 1:
            P = S.points("p", 2)
        else:
            P = [(S.real(f"v{i}"), y) for i, y in enumerate((2, 9, 3) if n == 2 else (0, 6, -6, 0))]
            if n == 3:
                P = [(S.real("v0"), 0), (3, 6), (-1, -6), (4, 0)]
    else:
        if n == 1:
            x = S.real("u", 0, 10)
            P = [(x, 0), (x + 4, 3)]
        else:
            u = S.real("u", 0, 10)
            P = [(a + u, b) for a, b in FAMILIES[n]]
    return B, P


HEAVY = ("reduce", "offset")


def light(kind, n):
    return {k: q for k, q in queries(kind, n).items() if k not in HEAVY}


def pairs(S, kind, n, first):
    B, P = build(S, kind, n)
    qs = light(kind, n)
    fresh = {k: norm(q(B(list(P)))) for k, q in qs.items()}
    base = norm(B(list(P)))
    for k, q in qs.items():
        c = B(list(P))
        handed = qs[first](c)
        a1 = norm(handed)
        S.check(f"{k} after {first}", same(S, norm(q(c)), fresh[k]))
        S.check("control points and interval unchanged", same(S, norm(c), base))
        S.check(f"the answer to {first} stays as it was given", same(S, norm(handed), fresh[first]))
        S.check(f"{first} asked again after {k}", same(S, norm(qs[first](c)), fresh[first]))
        S.check(f"{first} asked first", same(S, a1, fresh[first]))


CASES = [("free", n, q) for n in (1, 2, 3) for q in CHEAP]
ALL = [("all", n, q) for n in (1, 2, 3) for q in light("all", n) if q in MORE or q in CURVED]


@harness("C18", cases=CASES)
def pair_free(S, case):
    pairs(S, *case)


@harness("C18", cases=ALL)
def pair_all(S, case):
    pairs(S, *case)


@harness("C18", cases=[(n, h) for n in (1, 2, 3) for h in HEAVY], weight=3)
def pair_heavy(S, case):
    """Reduction and offsetting (which reduces): everything after it, and it after everything."""
    n, heavy = case
    B, P = build(S, "all", n)
    qs = light("all", n)
    fresh = {k: norm(q(B(list(P)))) for k, q in qs.items()}
    base = norm(B(list(P)))
    h = queries("all", n)[heavy]
    c = B(list(P))
    handed = h(c)
    first = norm(handed)
    S.check("control points and interval unchanged", same(S, norm(c), base))
    for k, q in qs.items():
        S.check(f"{k} after {heavy}", same(S, norm(q(c)), fresh[k]))
    S.check(f"{heavy} after everything", same(S, norm(h(c)), first))
    for k in ("bbox", "extrema"):
        c = B(list(P))
        qs[k](c)
        S.check(f"{heavy} after {k}", same(S, norm(h(c)), first))
        S.check(f"the answer to {heavy} stays as it was given", same(S, norm(handed), first))
        S.check(f"{k} after {k} and {heavy}", same(S, norm(qs[k](c)), fresh[k]))


@harness("C18", cases=[(k, n) for k in ("free", "all") for n in (1, 2, 3)])
def long_history(S, case):
    kind, n = case
    B, P = build(S, kind, n)
    qs = light(kind, n)
    fresh = {k: norm(q(B(list(P)))) for k, q in qs.items()}
    c = B(list(P))
    order = list(qs)
    for k in order + order[::-1] + order[::3]:
        S.check(f"{k} in a long history", same(S, norm(qs[k](c)), fresh[k]))
    S.check("control points and interval unchanged", same(S, norm(c), norm(B(list(P)))))


@harness("C18", cases=[(k, n) for k in ("free", "all") for n in (1, 2, 3)])
def curves_are_independent(S, case):
    """Curves with the same control points, and pieces of a curve, do not influence each other."""
    kind, n = case
    B, P = build(S, kind, n)
    qs = light(kind, n)
    fresh = {k: norm(q(B(list(P)))) for k, q in qs.items()}
    shared = list(P)
    a, b = B(shared), B(shared)
    left, right, _ = a.split(0.5)
    keep = [norm(left), norm(right)]
    for k, q in qs.items():
        q(b)
        if kind == "free":
            q(left)
        S.check(f"{k} is not influenced", same(S, norm(qs[k](a)), fresh[k]))
    S.check("pieces unchanged", S.And(same(S, norm(x), y) for x, y in zip((left, right), keep)))


OFFSET = {1: (1, 2), 2: (1, 2), 3: (-3, 0)}


def twin(P, how):
    """Control points that agree with P in much."""
    if how == "moved":
        return [(x + 7, y - 2) for x, y in P]
    if how == "reversed":
        return list(reversed(P))
    if how == "mirrored":
        return [(x, -y) for x, y in P]
    dx, dy = OFFSET[len(P) - 1]
    return [(x + dx, y + dy) if i == how else (x, y) for i, (x, y) in enumerate(P)]


@harness("C18", cases=[(n, how) for n in (1, 2, 3) for how in [*range(n + 1), "moved", "reversed", "mirrored"]])
def similar_curves(S, case):
    """A curve answers the same whether or not one that shares points with it was asked before."""
    n, how = case
    B, P = build(S, "all", n)
    Q = twin(P, how)
    qs = light("all", n)
    alone = {}
    for name, pts in (("a", P), ("b", Q)):
        F = S.fresh("PathLib.Bezier").Bezier
        alone[name] = {k: norm(q(F(list(pts)))) for k, q in qs.items()}
    a, b = B(list(P)), B(list(Q))
    for k, q in qs.items():
        S.check(f"{k} of the first", same(S, norm(q(a)), alone["a"][k]))
        S.check(f"{k} of the second", same(S, norm(q(b)), alone["b"][k]))
    for k, q in qs.items():
        S.check(f"{k} of another first", same(S, norm(q(B(list(P)))), alone["a"][k]))
        S.check(f"{k} of another second", same(S, norm(q(B(list(Q)))), alone["b"][k]))


@harness("C18", cases=[1, 2, 3])
def different_parameters(S, n):
    """Questions about several parameters, line ends and sizes in turn."""
    B, P = build(S, "all", n)
    ts = [0.25, 0.250244140625, 0.75, 0.5, 0.25]
    qs = [("get", lambda b, t: b.get(t)), ("derivative", lambda b, t: b._derivative(t)), ("hull", lambda b, t: b.hull(t)),
          ("split", lambda b, t: b.split(t)), ("piece", lambda b, t: b.split(t / 2, t)), ("normal", lambda b, t: b.normal(t)),
          ("offset", lambda b, t: b.offset(t, 2)), ("offset by", lambda b, t: b.offset(0.5, t)),
          ("samples", lambda b, t: b.getLUT(int(t * 16)))]
    if n > 1:
        qs.append(("abc", lambda b, t: b.getABC(t)))
    if n == 2:
        qs.append(("crossings", lambda b, t: b.roots([(-40, t), (90, t)])))
    alone = {}
    for k, q in qs:
        for i, t in enumerate(ts):
            alone[k, i] = norm(q(S.fresh("PathLib.Bezier").Bezier(list(P)), t)) if k != "crossings" else \
                norm(q(B(list(P)), t))
    b = B(list(P))
    for k, q in qs:
        handed = []
        for i, t in enumerate(ts):
            handed.append(q(b, t))
            S.check(f"{k} at several", same(S, norm(handed[-1]), alone[k, i]))
        S.check(f"{k}: answers stay as given", S.And(same(S, norm(x), alone[k, i]) for i, x in enumerate(handed)))
