"""C13: linear systems, null spaces, inverses."""
import itertools

from . import algebra as al


def small_grid(ctx, quick, thorough):
    """Small matrices, exhaustively enumerated and sampled down to a budget."""
    rng = ctx.rng
    res = []
    shapes = [((1, 1), 3), ((1, 2), 2), ((2, 1), 2), ((2, 2), 2), ((2, 3), 1), ((3, 2), 1), ((3, 3), 1)]
    for (m, n), r in shapes:
        k = ctx.scale(quick, thorough) // len(shapes)
        total = (2 * r + 1) ** (m * n)
        if total <= k:
            cells = list(itertools.product(range(-r, r + 1), repeat=m * n))
        else:
            cells = [tuple(rng.randint(-r, r) for _ in range(m * n)) for _ in range(k)]
        for c in cells:
            res.append((rng.choice(["i32", "i64", "rat", "big"]), [list(c[i * n:(i + 1) * n]) for i in range(m)]))
    return res


def check(ctx):
    rng = ctx.rng
    reqs, evs = [], []

    def add(ty, what, A, B=None):
        n = len(A[0])
        rq = {"op": "linalg", "ty": ty, "what": what, "a": al.mat(al.req_rows(ty, A), n)}
        ev = {"op": what, "ty": ty, "a": al.tmat(A, n)}
        if B is not None:
            rq["b"], ev["b"] = al.mat(al.req_rows(ty, B)), al.tmat(B)
        reqs.append(rq)
        evs.append(ev)
    for ty, A in small_grid(ctx, 500, 6000):
        add(ty, "null", A)
        add(ty, "solve", A, al.matrix(rng, ty, len(A), rng.randint(1, 2), 3))
        if len(A) == len(A[0]):
            add(ty, "inverse", A)
    for _ in range(ctx.scale(2500, 20000)):
        ty, size = al.pick(rng)
        m, n = al.dims(rng, ty, size)
        if ty == "i32":
            m, n = min(m, 3), min(n, 3)
        A = al.matrix(rng, ty, m, n, size)
        what = rng.choice(["null", "solve", "solve", "inverse"])
        if what == "null":
            add(ty, what, A)
        elif what == "inverse":
            A = al.matrix(rng, ty, n, n, size)
            if rng.random() < .5:
                A = al.unimod(rng, n, 3)
            add(ty, what, A)
        else:
            k = rng.choice([1, 1, 2, 3, 5])
            X = al.matrix(rng, ty, n, k, 3)
            B = al.mul(A, X) if rng.random() < .6 else al.matrix(rng, ty, m, k, size)
            if rng.random() < .5:       # only one column, or one entry, out of reach
                i, j = rng.randrange(m), rng.randrange(k)
                B[i][j] += rng.choice([1, -1, 2])
            if rng.random() < .1:
                B = [[2 * x for x in r] for r in B]
            add(ty, what, A, B)
    for _ in range(ctx.scale(60, 600)):       # larger ones
        ty = rng.choice(["big", "rat", "rat"])
        m, n = rng.randint(5, 9), rng.randint(5, 9)
        r = rng.choice([min(m, n), rng.randint(1, min(m, n))])
        A = al.mul(al.matrix(rng, "int", m, r, 1), al.matrix(rng, "int", r, n, 2))
        what = rng.choice(["null", "solve", "inverse"])
        if what == "inverse":
            add(ty, what, al.unimod(rng, n, 8) if rng.random() < .5 else al.matrix(rng, "int", n, n, 2))
        elif what == "null":
            add(ty, what, A)
        else:
            k = rng.randint(1, 3)
            B = al.mul(A, al.matrix(rng, "int", n, k, 3))
            if rng.random() < .3:
                B[rng.randrange(m)][rng.randrange(k)] += 1
            add(ty, what, A, B)
    for _ in range(ctx.scale(40, 400)):       # larger ones whose elimination stays small
        ty = rng.choice(["i32", "i64"])
        n = rng.randint(4, 8)
        v = lambda: rng.choice([-1, 0, 0, 0, 1])
        L = [[1 if i == j else (v() if j < i else 0) for j in range(n)] for i in range(n)]
        U = [[rng.choice([-1, 1]) if i == j else (v() if j > i else 0) for j in range(n)] for i in range(n)]
        A = al.mul(L, U)
        if max(abs(x) for r in A for x in r) > 3:
            continue
        if rng.random() < .5:
            add(ty, "inverse", A)
        else:
            add(ty, "solve", A, al.mul(A, [[rng.randint(-3, 3) for _ in range(2)] for _ in range(n)]))
    for _ in range(ctx.scale(80, 800)):       # late unknowns that depend on early ones
        ty = rng.choice(["i32", "i64", "big", "rat"])
        n, p = rng.randint(5, 12), rng.choice([.2, .5, 1])
        A = [[(rng.choice([1, 1, -1]) if i < n - 3 else rng.choice([1, 2, 3])) if i == j else rng.choice([-2, -1, 1, 1]) if (j < i and (j == 0 or j > i - 2 or i == n - 1 or rng.random() < p / 5)) else 0
              for j in range(n)] for i in range(n)]
        if rng.random() < .5:               # divisors shared by an early and a late pivot
            q = rng.choice([2, 2, 3, 4, 6])
            A = [[0] * n for _ in range(n)]
            for i in range(n):
                A[i][i] = rng.choice([1, 1, q, q * q, 2])
            for i in (0, rng.randrange(n - 1)):
                for j in range(i + 1, n):
                    if j == n - 1 or rng.random() < p / 4:
                        A[i][i], A[i][j], A[j][j] = q * q, rng.choice([1, q, q]), rng.choice([q, q * q])
        x = rng.random()
        if x < .4:
            A = [list(r) for r in zip(*A)]
        elif x < .6 and ty in ("big", "rat"):
            rng.shuffle(A)
        if rng.random() < .15:
            add(ty, "inverse", A)
            continue
        B = al.mul(A, [[rng.randint(-3, 3) for _ in range(rng.choice([1, 1]))] for _ in range(n)])
        if rng.random() < .2:
            B[-1][0] += 1
        add(ty, "solve", A, B)
    for _ in range(ctx.scale(60, 600)):       # operands that do not fit
        ty = rng.choice(["i32", "i64", "big", "rat"])
        m, n = rng.sample(range(1, 5), 2)
        if rng.random() < .5:
            add(ty, "inverse", al.matrix(rng, ty, m, n, 2))
        else:
            add(ty, "solve", al.matrix(rng, ty, m, rng.randint(1, 4), 2), al.matrix(rng, ty, n, rng.randint(1, 3), 2))
    res = ctx.drive(reqs)
    ctx.validate("LinTrace", [[dict(ev, r=o["r"], v=o["v"])] for ev, o in zip(evs, res)], reqs)
