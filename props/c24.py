"""C24 The SVG path string of a path round-trips to the same curves."""
from itertools import product
from sx.api import harness
from .util import BadPath, connected, same_path, svg_subpaths

BUDGET = 60
BOUNDS = "all connected paths of up to three curves of order 1 to 3 in any mix, and some of four and five; all coordinates"

ALL = ["".join(k) for n in (1, 2, 3) for k in product("lqc", repeat=n)]
FOUR = ["llll", "lqlq", "qqll", "lclc", "cllq", "llqc"]
MORE = ["".join(k) for k in product("lqc", repeat=4) if "".join(k) not in FOUR] + ["lllll", "llqll", "qlllq"]


def bounds(S):
    # the bounds of a path do not matter here
    m = S.mod("PathLib.Bezier")
    R = S.mod("PathLib.PathUtilities").BoundsRectangle
    S.stub(m.Bezier, "boundsRectangle", property(lambda s: R((0, 0), (1, 1))))
    return m


def read(S, label, text):
    try:
        return svg_subpaths(S, text)
    except BadPath as ex:
        S.check(label + ": well-formed path data", False)
        return None


@harness("C24", cases=ALL + FOUR, thorough=MORE, max_paths=600)
def path(S, kinds):
    m = bounds(S)
    want = connected(S, kinds)
    got = read(S, "data", m.BContour(want).d())
    if got is None:
        return
    S.check("one subpath", len(got) == 1)
    segs, closed, start = got[0]
    S.check("starts at the start", S.eq(start, want[0][0]))
    S.check("the same curves", same_path(S, want, segs))


@harness("C24", cases=["l", "ll", "qc"])
def integers(S, kinds):
    """Coordinates that are whole numbers."""
    m = bounds(S)
    want = [[(S.inum(f"x{i}{j}"), S.inum(f"y{i}{j}")) for j in range({"l": 1, "q": 2, "c": 3}[k])] for i, k in enumerate(kinds)]
    pen = (S.inum("x"), S.inum("y"))
    for s in want:
        s.insert(0, pen)
        pen = s[-1]
    got = read(S, "data", m.BContour(want).d())
    if got is None:
        return
    S.check("starts at the start", S.eq(got[0][2], want[0][0]))
    S.check("the same curves", same_path(S, want, got[0][0]))


@harness("C24", cases=["ll", "lq"])
def flags(S, kinds):
    """The options do not change the curves."""
    m = bounds(S)
    want = connected(S, kinds)
    for o in ({"useSandT": True}, {"use_closed_attrib": True}, {"rel": True}):
        got = read(S, "data", m.BContour(want).d(**o))
        if got is not None:
            S.check("the same curves", same_path(S, want, got[0][0]))


@harness("C24", cases=["lql", "ccl"])
def asked_twice(S, kinds):
    """The string does not depend on what was asked before."""
    m = bounds(S)
    want = connected(S, kinds)
    c = m.BContour(want)
    c.d()
    c.beziers[0].controlPoints
    got = read(S, "data", c.d())
    if got is not None:
        S.check("the same curves", same_path(S, want, got[0][0]))
