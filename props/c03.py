"""C03 Applying a transform: the projective map of its matrix, pointwise, shape preserving and pure; composition."""
from sx.api import harness
from .util import nested_copy

BOUNDS = ("arbitrary 3x3 matrices of reals (affine: free 2x3 part; projective: all nine entries, points off the "
          "vanishing line); segments of up to 4 points, contours of up to 2 segments, 2 contours; up to 5 matrices (thorough: 7); "
          "several points, and transforms that differ little, one after the other in one process")


def affine(S, name):
    a, b, c, d, m, n = [S.real(name + k) for k in "abcdmn"]
    return [[a, b, 0], [c, d, 0], [m, n, 1]]


def projective(S, name):
    return [[S.real(f"{name}{i}{j}") for j in range(3)] for i in range(3)]


def image(M, p):
    x, y = p
    r = [x * M[0][j] + y * M[1][j] + M[2][j] for j in range(3)]
    return r


@harness("C03")
def point_affine(S, _):
    T = S.mod("PathLib.Transform").Transform
    M = affine(S, "m")
    p = S.point("p")
    x, y, w = image(M, p)
    S.check("row vector times matrix", S.eq(T(M).applyToPoint(p), (x, y)))


@harness("C03")
def point_projective(S, _):
    T = S.mod("PathLib.Transform").Transform
    M = projective(S, "m")
    p = S.point("p")
    x, y, w = image(M, p)
    S.assume(S.ne(w, 0))
    qx, qy = T(M).applyToPoint(p)
    S.check("divided by the homogeneous coordinate", S.And(S.eq(qx * w, x), S.eq(qy * w, y)))


@harness("C03")
def integer_points_and_matrix(S, _):
    T = S.mod("PathLib.Transform").Transform
    M = [[S.inum(f"m{i}{j}") if j < 2 else (1 if i == 2 else 0) for j in range(3)] for i in range(3)]
    p = S.point("p", kind="i")
    x, y, w = image(M, p)
    S.check("row vector times matrix", S.eq(T(M).applyToPoint(p), (x, y)))


@harness("C03", cases=[2, 3, 4])
def segment_is_pointwise(S, n):
    T = S.mod("PathLib.Transform").Transform
    t = T(affine(S, "m"))
    seg = S.points("p", n)
    keep = list(seg)
    out = t.applyToSegment(seg)
    S.check("same number of points", len(out) == n)
    S.check("pointwise", S.And(S.eq(q, t.applyToPoint(p)) for p, q in zip(keep, out)))
    S.check("input unchanged", len(seg) == n and all(a is b for a, b in zip(seg, keep)) and out is not seg)


@harness("C03", cases=["affine", "projective"])
def contours_are_pointwise(S, kind):
    T = S.mod("PathLib.Transform").Transform
    M = affine(S, "m") if kind == "affine" else projective(S, "m")
    t = T(M)
    n = 4 if kind == "affine" else 2
    P = S.points("p", n)
    for p in P:
        S.assume(S.ne(image(M, p)[2], 0))
    if kind == "affine":
        contours = [[[P[0], P[1]], [P[1], P[2], P[3]]], [[P[3], P[2], P[1], P[0]]]]
    else:
        contours = [[[P[0], P[1]]], [[P[1], P[0], P[1]]]]
    keep = nested_copy(contours)
    m0 = nested_copy(t.transform)
    img = {id(p): t.applyToPoint(p) for p in P}
    out = t.applyToContours(contours)
    one = t.applyToContour(contours[0])
    shape = [[len(s) for s in c] for c in keep]
    S.check("same shape", [[len(s) for s in c] for c in out] == shape and [len(s) for s in one] == shape[0])
    S.check("pointwise", S.And(S.eq(q, img[id(p)]) for c, d in zip(keep, out) for s, r in zip(c, d)
                               for p, q in zip(s, r)))
    S.check("contour pointwise", S.And(S.eq(q, img[id(p)]) for s, r in zip(keep[0], one) for p, q in zip(s, r)))
    same = all(p is q for c, d in zip(keep, contours) for s, r in zip(c, d) for p, q in zip(s, r))
    S.check("input unchanged", same and [[len(s) for s in c] for c in contours] == shape)
    S.check("transform unchanged", S.eq(t.transform, m0))


@harness("C03", cases=[1, 2, 3, 4, 5], thorough=[6, 7])
def concatenation_is_sequential_application(S, k):
    T = S.mod("PathLib.Transform").Transform
    Ms = [affine(S, f"m{i}") for i in range(k)]
    keep = nested_copy(Ms)
    p = S.point("p")
    t = T(*Ms)
    q = p
    for M in keep:
        x, y, w = image(M, q)
        q = (x, y)
    S.check("first matrix first", S.eq(t.applyToPoint(p), q))
    S.check("matrices unchanged", S.eq(Ms, keep))
    S.check("affine stays affine", S.eq([r[2] for r in t.transform], [0, 0, 1]))


@harness("C03")
def concatenation_projective(S, _):
    T = S.mod("PathLib.Transform").Transform
    A, B = projective(S, "a"), projective(S, "b")
    t = T(A, B)
    want = [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    S.check("matrix product", S.eq(nested_copy(t.transform), want))


@harness("C03")
def multiplication_is_associative(S, _):
    T = S.mod("PathLib.Transform").Transform
    A, B, C = projective(S, "a"), projective(S, "b"), projective(S, "c")
    mm = T.multiplyMatrixByMatrix
    S.check("(AB)C = A(BC)", S.eq(mm(mm(A, B), C), mm(A, mm(B, C))))
    S.check("three matrices", S.eq(T.concatenateMatrices(A, B, C), mm(mm(A, B), C)))


@harness("C03")
def identity_is_neutral(S, _):
    T = S.mod("PathLib.Transform").Transform
    A = projective(S, "a")
    I = T._identityMatrix()
    S.check("IA = A", S.eq(T.multiplyMatrixByMatrix(I, A), A))
    S.check("AI = A", S.eq(T.multiplyMatrixByMatrix(A, I), A))
    p = S.point("p")
    S.check("identity map", S.eq(T(I).applyToPoint(p), p))
    J = T._identityMatrix()
    J[0][0] = S.real("z")
    S.check("a fresh identity every time", S.eq(T._identityMatrix(), [[1, 0, 0], [0, 1, 0], [0, 0, 1]]))


@harness("C03")
def transforms_are_independent(S, _):
    """Making or using one transform does not change another."""
    T = S.mod("PathLib.Transform").Transform
    A, B = affine(S, "a"), affine(S, "b")
    p = S.point("p")
    t = T(A)
    q = t.applyToPoint(p)
    u = T(B)
    u.applyToPoint(p)
    T(A, B), T(B, A)
    T.translate((1, 2), p).applyToPoint(p)
    S.check("same image again", S.eq(t.applyToPoint(p), q))


@harness("C03", cases=["rows", "translation", "linear", "same"])
def similar_transforms(S, kind):
    """Two transforms that share part of their matrix, applied in turn to the same points."""
    T = S.mod("PathLib.Transform").Transform
    A, B = projective(S, "a"), projective(S, "b")
    if kind == "rows":
        B = [A[0], B[1], A[2]]
    elif kind == "translation":
        A[0][2] = A[1][2] = 0
        A[2][2] = 1
        B = [A[0], A[1], [B[2][0], B[2][1], 1]]
    elif kind == "linear":
        A[0][2] = A[1][2] = 0
        A[2][2] = 1
        B = [[B[0][0], B[0][1], 0], [B[1][0], B[1][1], 0], A[2]]
    else:
        B = nested_copy(A)
    P = S.points("p", 2)
    for p in P:
        S.assume(S.And(S.ne(image(A, p)[2], 0), S.ne(image(B, p)[2], 0)))
    t, u = T(A), T(B)
    for M, v in ((A, t), (B, u), (A, t)):
        for p in P:
            q = v.applyToPoint(p)
            r = v.applyToSegment([p])[0]
            x, y, w = image(M, p)
            S.check("its own matrix", S.And(S.eq(q[0] * w, x), S.eq(q[1] * w, y), S.eq(r, q)))
    C = T(A, B), T(B, A)
    for M, N, v in ((A, B, C[0]), (B, A, C[1])):
        want = [[sum(M[i][k] * N[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        S.check("its own product", S.eq(nested_copy(v.transform), want))


@harness("C03")
def different_points(S, _):
    """One transform, several points in turn (also sharing a coordinate): each gets its own image."""
    T = S.mod("PathLib.Transform").Transform
    M = affine(S, "m")
    t = T(M)
    x, y, z, w = [S.real("v%d" % i) for i in range(4)]
    P = [(x, y), (x, z), (w, y), (y, x), (x, y)]
    img = [t.applyToPoint(p) for p in P]
    seg = t.applyToSegment(list(P))
    con = t.applyToContours([[P[:2], P[1:4]], [P[3:]]])
    flat = con[0][0] + con[0][1] + con[1][0]
    want = [image(M, p)[:2] for p in P]
    S.check("point", S.And(S.eq(a, tuple(b)) for a, b in zip(img, want)))
    S.check("segment", S.And(S.eq(a, tuple(b)) for a, b in zip(seg, want)))
    S.check("contours", len(flat) == 7 and S.And(
        S.eq(a, tuple(b)) for a, b in zip(flat, [want[0], want[1], want[1], want[2], want[3], want[3], want[4]])))
