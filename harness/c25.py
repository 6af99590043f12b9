"""C25: linear algebra over floating-point numbers."""
from fractions import Fraction as Fr

from . import algebra as al
from .c13 import small_grid


class Inexact(Exception):
    pass


def ok(x):
    """Exactly a binary64, with room to spare."""
    if x.denominator & (x.denominator - 1) or x.denominator > 1 << 24 or abs(x.numerator) > 1 << 30:
        raise Inexact
    return x


def echelon(rows):
    """Row by row elimination; raises Inexact when binary64 could not follow it."""
    basis = []
    for v in rows:
        v = [ok(Fr(x)) for x in v]
        i = 0
        while any(v) and i < len(basis):
            c = next(k for k, x in enumerate(v) if x)
            cb = next(k for k, x in enumerate(basis[i]) if x)
            if c < cb:
                break
            if c == cb:
                f = ok(v[c] / basis[i][c])
                v = [ok(x - ok(f * y)) for x, y in zip(v, basis[i])]
            i += 1
        if any(v):
            basis.insert(i, v)
    return basis


def rref(rows):
    basis = echelon(rows)
    for i, b in enumerate(basis):
        c = next(k for k, x in enumerate(b) if x)
        ok(1 / b[c])
        basis[i] = b = [ok(x / b[c]) for x in b]
        for j in range(i):
            f = basis[j][c]
            basis[j] = [ok(x - ok(f * y)) for x, y in zip(basis[j], b)]
    return basis


def exact(what, A, B=None):
    """Can binary64 compute this without rounding?"""
    tr = lambda M: [list(c) for c in zip(*M)]
    idt = lambda n: [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    cat = lambda M, N: [list(a) + list(b) for a, b in zip(M, N)]
    try:
        if what in ("rank", "extend", "det", "reduced"):
            b = rref(A)
            d = Fr(1)
            for r in echelon(A):
                d = ok(d * next(x for x in r if x))
        elif what == "null":
            rref(cat(tr(A), idt(len(A[0]))))
        else:
            t = rref(cat(A, B or idt(len(A))))
            n = len(A[0])
            l = [r[:n] for r in t]
            if l and len(echelon(l)) == len(l):
                rref(cat(tr(l), idt(n)))
        return True
    except Inexact:
        return False


def wellbehaved(A):
    """Elimination in the order of the rows meets pivots of moderate size only."""
    M = [[Fr(x) for x in r] for r in A]
    n = len(M)
    for k in range(n):
        if not Fr(1, 20) <= abs(M[k][k]) <= 1000:
            return False
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if abs(f) > 100:
                return False
            M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return True


def check(ctx):
    rng = ctx.rng
    reqs, evs = [], []

    def add(what, A, B=None, near=False):
        n = len(A[0])
        ev = {"op": ("near_" if near else "") + what, "ty": "f64"}
        if what == "extend":
            rq = {"op": "linalg", "ty": "f64", "what": what, "vecs": al.treq(A)}
            ev["vecs"] = al.treq(A)
        else:
            rq = {"op": "linalg", "ty": "f64", "what": what, "a": al.mat(al.treq(A), n)}
            ev["a"] = al.tmat(A, n)
        if B is not None:
            rq["b"], ev["b"] = al.mat(al.treq(B)), al.tmat(B)
        reqs.append(rq)
        evs.append(ev)

    def some(A):
        square = len(A) == len(A[0])
        for what in ["rank", "reduced", "null", "extend", "solve"] + (["det", "inverse"] if square else []):
            B = None
            if what == "solve":
                k = rng.choice([1, 2, 3])
                X = al.matrix(rng, "int", len(A[0]), k, 3)
                B = al.mul(A, X) if rng.random() < .6 else al.matrix(rng, "int", len(A), k, 3)
            if exact(what, A, B):
                add(what, A, B)
    for _, A in small_grid(ctx, 300, 4000):
        some(A)
    for _ in range(ctx.scale(900, 9000)):
        k = 5 if rng.random() < .92 else 10
        m, n = rng.randint(1, k), rng.randint(1, k)
        x = rng.random()
        if x < .4:
            A = al.matrix(rng, "int", m, n, rng.choice([1, 1, 2]))
        else:           # lower times upper triangular, pivots powers of two
            r = rng.randint(0, min(m, n))
            z = rng.choice([0, .5])
            v = lambda: 0 if rng.random() < z else rng.randint(-3, 3)
            L = [[1 if i == j else (v() if j < i else 0) for j in range(r)] for i in range(m)]
            D = [rng.choice([1, -1, 2, -2, 4, Fr(1, 2), Fr(-1, 4)]) for _ in range(r)]
            U = [[D[i] * (1 if i == j else (v() if j > i else 0)) for j in range(n)] for i in range(r)]
            A = [[sum((L[i][k] * U[k][j] for k in range(r)), Fr(0)) for j in range(n)] for i in range(m)]
            if rng.random() < .3:
                A = [[q * Fr(rng.choice([1, 2, 1])) for q in row] for row in A]
            if rng.random() < .3:
                rng.shuffle(A)
        some(A)
    for _ in range(ctx.scale(150, 1500)):       # entries of very different sizes
        n = rng.choice([2, 2, 3, 3, 4])
        A = [[rng.choice([1, 1, -1, 2]) if i == j else rng.choice([0, 0, 0, 1, -1]) * (j > i) for j in range(n)] for i in range(n)]
        i, j = sorted(rng.sample(range(n), 2))
        A[i][j] = rng.choice([1, -1]) * 2 ** rng.randint(20, 29)
        if rng.random() < .5:
            rng.shuffle(A)
        if rng.random() < .4:
            A = [list(c) for c in zip(*A)]
        some([[Fr(x) / (1 if rng.random() < .9 else 2) for x in r] for r in A])
    n_exact = len(reqs)
    while len(reqs) < n_exact + ctx.scale(600, 6000):
        n = rng.randint(1, 6 if rng.random() < .93 else 9)
        s = rng.choice([1, 1, 1000, Fr(1, 1000)])
        A = [[float(s * Fr(rng.randint(-60, 60), rng.choice([1, 3, 7, 10]))) for _ in range(n)] for _ in range(n)]
        A = [[Fr(x) for x in r] for r in A]
        if not wellbehaved([[x / s for x in r] for r in A]):
            continue
        what = rng.choice(["det", "inverse", "solve", "rank", "reduced"])
        B = [[Fr(float(Fr(rng.randint(-60, 60), rng.choice([1, 3, 10])))) for _ in range(rng.choice([1, 2, 3]))]] if what == "solve" else None
        if B:
            k = len(B[0])
            B = [[Fr(float(Fr(rng.randint(-60, 60), rng.choice([1, 3, 10])))) for _ in range(k)] for _ in range(n)]
        add(what, A, B, near=True)
    ctx.count("exact_cases", n_exact)
    res = ctx.drive(reqs)
    groups = []
    for ev, out in zip(evs, res):
        if ev["op"] == "extend":
            g = [{"op": "basis"}]
            outs = out if isinstance(out, list) else [out] * len(ev["vecs"])
            g += [{"op": "extend", "ty": "f64", "vec": v, "r": r["r"], "v": r["v"]} for v, r in zip(ev["vecs"], outs)]
        else:
            g = [dict(ev, r=out["r"], v=out["v"])]
        groups.append(g)
    ctx.validate("LinTrace", groups, reqs)
