"""Shared specification helpers for the harnesses (plain arithmetic, usable in both modes)."""


def bern(S, pts, t):
    """Bernstein form of the curve with control points pts at t."""
    n = len(pts) - 1
    c = [1]
    for i in range(1, n + 1):
        c.append(c[-1] * (n - i + 1) // i)
    x = y = 0
    for i, p in enumerate(pts):
        w = c[i]
        for _ in range(n - i):
            w = w * (1 - t)
        for _ in range(i):
            w = w * t
        x = x + w * p[0]
        y = y + w * p[1]
    return (x, y)


def dbern(S, pts, t):
    """Derivative of the Bernstein form."""
    n = len(pts) - 1
    d = [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(pts, pts[1:])]
    return bern(S, d, t)


def is_bounds_of(S, r, pts):
    """r is the smallest axis-parallel rectangle containing pts."""
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return S.And(
        S.And(S.And(S.le(r.left, x), S.le(x, r.right)) for x in xs),
        S.And(S.And(S.le(r.bottom, y), S.le(y, r.top)) for y in ys),
        S.Or(S.eq(r.left, x) for x in xs), S.Or(S.eq(r.right, x) for x in xs),
        S.Or(S.eq(r.bottom, y) for y in ys), S.Or(S.eq(r.top, y) for y in ys))


FIXED = [3, -7, 12, 0, -40000, 5, 100000, 8, -1, 2, 33]


def axis_points(S, name, n, dim):
    """n points with one free coordinate; the other coordinate is a fixed scrambled sequence."""
    out = []
    for i in range(n):
        v = S.real(f"{name}{i}")
        out.append((v, FIXED[i % len(FIXED)]) if dim == 0 else (FIXED[i % len(FIXED)], v))
    return out


def quiet_logger():
    class L:
        def debug(self, *a, **k):
            pass

        info = warning = error = exception = log = debug

        def isEnabledFor(self, lvl):
            return False

    return L()


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def d2(a, b):
    v = sub(a, b)
    return dot(v, v)


def nested_copy(x):
    return [nested_copy(y) for y in x] if isinstance(x, (list,)) else x


TOKEN = __import__("re").compile(r"\u27e8\d+\u27e9|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[A-Za-z]|[\s,]+")


class BadPath(Exception):
    pass


def svg_subpaths(S, d):
    """Path data read by the rules of SVG: [(segments, closed)], each segment a list of points."""
    toks, at, glue = [], 0, False
    for m in TOKEN.finditer(d):
        if m.start() != at:
            raise BadPath(f"{d[at:at + 20]!r}")
        at = m.end()
        k = m.group()
        if k.strip(" \t\r\n,") == "":
            if k.count(",") > 1:
                raise BadPath("two commas")
            glue = False
            continue
        isnum = not k.isalpha()
        if isnum:
            if glue and k[0] not in "+-":
                raise BadPath("numbers run together")
            toks.append(S.num(k))
        else:
            toks.append(k)
        glue = isnum
    if at != len(d):
        raise BadPath(f"{d[at:at + 20]!r}")
    return svg_commands(toks)


ARGS = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "C": 6, "T": 2, "S": 4, "Z": 0}


def svg_commands(toks):
    subs, i, pen, start, cmd, last = [], 0, None, None, None, None
    while i < len(toks):
        if isinstance(toks[i], str):
            cmd = toks[i]
            i += 1
        elif cmd is None or cmd in "Zz":
            raise BadPath("number without a command")
        up = cmd.upper()
        if up not in ARGS:
            raise BadPath("command " + cmd)
        a = toks[i:i + ARGS[up]]
        i += ARGS[up]
        if len(a) < ARGS[up] or any(isinstance(x, str) for x in a):
            raise BadPath("arguments of " + cmd)
        if pen is None and up != "M":
            raise BadPath("data starts with " + cmd)
        rel = cmd.islower() and pen is not None
        pts = [((pen[0] if rel else 0) + x, (pen[1] if rel else 0) + y) for x, y in zip(a[::2], a[1::2])]
        ctl = None
        if up == "M":
            pen = start = pts[0]
            subs.append([[], False, pen])
            cmd = "l" if cmd == "m" else "L"
        elif up == "Z":
            subs[-1][1] = True
            pen = start
        else:
            if subs[-1][1]:
                subs.append([[], False, start])
            if up == "H":
                pts = [((pen[0] if rel else 0) + a[0], pen[1])]
            elif up == "V":
                pts = [(pen[0], (pen[1] if rel else 0) + a[0])]
            elif up in "TS":
                ok = last and last[0] == ("Q" if up == "T" else "C")
                c = last[1] if ok else pen
                pts.insert(0, (2 * pen[0] - c[0], 2 * pen[1] - c[1]))
            subs[-1][0].append([pen] + pts)
            ctl = ({3: "C", 2: "Q"}[len(pts)], pts[-2]) if len(pts) > 1 else None
            pen = pts[-1]
        last = ctl
    return subs


def same_path(S, want, got):
    """Same segments in order, where lines of length zero may be left out."""
    if not want:
        return S.eq(len(got), 0)
    alts = []
    w = want[0]
    if len(w) == 2:
        alts.append(S.And(S.eq(w[0], w[1]), same_path(S, want[1:], got)))
    if got and len(got[0]) == len(w):
        alts.append(S.And(S.eq([tuple(p) for p in got[0]], [tuple(p) for p in w]), same_path(S, want[1:], got[1:])))
    return S.Or(alts) if alts else S.Not(S.eq(0, 0))


def connected(S, kinds, name="p", start=None):
    """A path of lines (l), quadratics (q) and cubics (c), each starting where the last one ends."""
    pen = start or S.point(name)
    out = []
    for i, k in enumerate(kinds):
        pts = [pen] + [S.point(f"{name}{i}{j}") for j in range({"l": 1, "q": 2, "c": 3}[k])]
        out.append(pts)
        pen = pts[-1]
    return out
