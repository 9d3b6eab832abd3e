"""C08 Matrix inversion returns the inverse exactly when there is one."""
from sx.api import harness
from .util import nested_copy

BOUNDS = ("all real 1x1, 2x2 and 3x3 matrices; 4x4 matrices with the listed zero patterns (permuted block and "
          "triangular shapes with up to 6 free entries); all shapes up to 3x4 that are not square")


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = 0
    for j, x in enumerate(m[0]):
        if type(x) is int and x == 0:
            continue
        d = x * det([row[:j] + row[j + 1:] for row in m[1:]])
        r = r + d if j % 2 == 0 else r - d
    return r


def verify(S, m, inv_of):
    n = len(m)
    keep = nested_copy(m)
    inv = inv_of(m)
    S.check("argument unchanged", S.eq(m, keep), exact=True)
    D = det(m)
    if inv is None:
        S.check("None only for singular matrices", S.eq(D, 0), exact=True)
        return
    S.check("an inverse only for non-singular matrices", S.ne(D, 0), exact=True)
    S.check("shape", len(inv) == n and all(len(r) == n for r in inv))
    I = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    S.check("right inverse", S.eq([[sum((m[i][k] * inv[k][j] for k in range(n)), 0) for j in range(n)]
                                   for i in range(n)], I))
    S.check("left inverse", S.eq([[sum((inv[i][k] * m[k][j] for k in range(n)), 0) for j in range(n)]
                                  for i in range(n)], I))


@harness("C08", cases=[1, 2, 3], thorough=[4], weight=5, max_forks=60)
def general(S, n):
    MI = S.mod("PathLib.MatrixInversion")
    m = [[S.real(f"m{i}{j}") for j in range(n)] for i in range(n)]
    verify(S, m, MI.matrixInvert)


@harness("C08", cases=[2])
def general_integers(S, n):
    MI = S.mod("PathLib.MatrixInversion")
    m = [[S.inum(f"m{i}{j}") for j in range(n)] for i in range(n)]
    verify(S, m, MI.matrixInvert)


# 3x3 and 4x4 zero patterns that force row exchanges; '*' is free, digits are fixed
PATTERNS = ["0**/***/***", "*1*/*1*/***", "00*/0*1/*11", "00*/*11/0*1", "12*/24*/36*", "12*/24*/3*6",
            "00*0/000*/*000/0*00", "00**/00**/**00/**00", "0*00/*000/000*/00*0", "*000/**00/00*0/0***",
            "0001/001*/01**/1***", "1***/0000/0*11/11*1", "1200/2400/001*/00*1", "0*1*/0*11/*101/1***",
            "1234/2468/*000/0*00"]


@harness("C08", cases=PATTERNS, weight=3, max_forks=60)
def patterns(S, pat):
    MI = S.mod("PathLib.MatrixInversion")
    m = [[S.real(f"m{i}{j}") if ch == "*" else int(ch) for j, ch in enumerate(row)]
         for i, row in enumerate(pat.split("/"))]
    verify(S, m, MI.matrixInvert)


@harness("C08", cases=[(1, 2), (2, 1), (2, 3), (3, 2), (3, 4)])
def not_square(S, shape):
    MI = S.mod("PathLib.MatrixInversion")
    m = [[S.real(f"m{i}{j}") for j in range(shape[1])] for i in range(shape[0])]
    S.check("None for matrices that are not square", MI.matrixInvert(m) is None)


@harness("C08", cases=[2])
def inverse_twice(S, n):
    MI = S.mod("PathLib.MatrixInversion")
    m = [[S.real(f"m{i}{j}") for j in range(n)] for i in range(n)]
    S.assume(S.ne(det(m), 0))
    S.check("inverse of the inverse", S.eq(MI.matrixInvert(MI.matrixInvert(m)), m))
