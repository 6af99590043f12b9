"""Random exact matrices and their encodings, for C12 to C18."""
from fractions import Fraction as Fr


def txt(x):
    return str(x)


def mat(rows, nc=None):
    """Request form; numbers as text when fractions."""
    nc = len(rows[0]) if rows else nc
    return {"nc": nc, "rows": rows}


def tmat(rows, nc=None):
    """Trace form: canonical text and explicit shape."""
    nc = len(rows[0]) if rows else nc
    return {"nr": len(rows), "nc": nc, "rows": [[txt(x) for x in r] for r in rows]}


def treq(rows):
    return [[txt(x) for x in r] for r in rows]


def num(rng, ty, size):
    if ty == "rat":
        if rng.random() < .5:
            return Fr(rng.randint(-size, size))
        return Fr(rng.randint(-size, size), rng.choice([1, 2, 3, 4, 5, 6, 7, 12]))
    return rng.randint(-size, size)


def matrix(rng, ty, m, n, size):
    """Random m x n matrix; often sparse, of low rank or with related rows."""
    mode = rng.random()
    z = rng.choice([0, 0, .3, .6])
    A = [[0 if rng.random() < z else num(rng, ty, size) for _ in range(n)] for _ in range(m)]
    if mode < .3 and m > 1:         # a dependent row
        i, j = rng.sample(range(m), 2)
        k = rng.choice([-2, -1, 0, 1, 2])
        A[i] = [k * x for x in A[j]]
        if m > 2 and rng.random() < .5:
            h = rng.choice([r for r in range(m) if r != i])
            A[i] = [x + y for x, y in zip(A[i], A[h])]
    elif mode < .4:                 # negative exact multiples, common factors
        A = [[rng.choice([-4, -3, -2, -1, 0, 1, 2, 4]) * (2 if rng.random() < .5 else 3) for _ in range(n)] for _ in range(m)]
    elif mode < .5 and n > 1:       # a zero column
        j = rng.randrange(n)
        for r in A:
            r[j] = 0
    elif mode < .62:                # sparse, with pivots in any order: long swaps while eliminating
        p = rng.sample(range(max(m, n)), max(m, n))
        for i in range(m):
            for j in range(n):
                if j < p[i] or j > p[i] and rng.random() < .7:
                    A[i][j] = 0
            if p[i] < n and rng.random() < .5:
                A[i][p[i]] = rng.choice([-1, 1])
    elif mode < .68 and m > 2:      # low rank
        k = rng.randint(0, 2)
        L = [[rng.randint(-2, 2) for _ in range(k)] for _ in range(m)]
        A = [[sum(x * y for x, y in zip(r, c)) for c in zip(*A[:k])] if k else [0] * n for r in L]
    if ty == "rat":
        A = [[Fr(x) for x in r] for r in A]
    return A


def unimod(rng, n, steps):
    M = [[int(i == j) for j in range(n)] for i in range(n)]
    for _ in range(steps):
        if n < 2:
            break
        i, j = rng.sample(range(n), 2)
        k = rng.choice([-2, -1, 1, 2])
        M[i] = [a + k * b for a, b in zip(M[i], M[j])]
        if rng.random() < .3:
            M[i], M[j] = M[j], [-x for x in M[i]]
    return M


def mul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def pick(rng, thorough=False):
    """Type and entry size with intermediate values well inside the range of the type."""
    ty = rng.choice(["i32", "i64", "i64", "rat", "rat", "big"])
    return ty, {"i32": 5, "i64": rng.choice([3, 9, 20]), "rat": rng.choice([2, 5, 1000]), "big": rng.choice([3, 20, 10 ** 12])}[ty]


def dims(rng, ty, size):
    """Numbers of rows and columns that leave room for the intermediate values."""
    if ty == "i32":
        return rng.randint(1, 4), rng.randint(1, 4)
    hi = 6 if ty in ("rat", "big") or size < 5 else 4
    if rng.random() < .7:
        hi = 4
    return rng.randint(1, hi), rng.randint(1, hi)


def req_rows(ty, rows):
    return treq(rows) if ty in ("rat", "big") else rows
