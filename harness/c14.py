"""C14: modular arithmetic and the p-adic solver."""
from . import algebra as al

PRIMES = [2, 3, 5, 7, 13, 101, 65537, 9999991, 999999937, 2147483647,
          3037000493, 3037000507, 4294967311, 10 ** 12 + 39, 2305843009213693951, 9223372036854775783]
P = 9999991


def rnd(rng, p):
    return max(-2 ** 63, min(2 ** 63 - 1, any_int(rng, p)))


def any_int(rng, p):
    x = rng.random()
    if x < .2:
        return p * rng.randint(-3, 3)
    if x < .35:
        return rng.choice([p - 1, 1 - p, p + 1, -p - 1, 1, -1, 0])
    s = rng.choice([3, p, 4 * p])
    return rng.randint(-s, s)


def imatrix(rng, p, m, n):
    A = [[rnd(rng, p) if rng.random() < .8 else 0 for _ in range(n)] for _ in range(m)]
    if m > 1 and rng.random() < .4:     # dependent modulo p, or altogether
        i, j = rng.sample(range(m), 2)
        k = rng.choice([-1, 0, 1, 2])
        A[i] = [max(-2 ** 63, min(2 ** 63 - 1, k * x + (p * rng.randint(-1, 1) if rng.random() < .5 else 0))) for x in A[j]]
    if n > 1 and rng.random() < .25:
        j = rng.randrange(n)
        for r in A:
            r[j] = p * rng.randint(-1, 1)
    return A


def laplacian(rng):
    """The systems solved for placements of nets with many vertices."""
    n = rng.randint(9, 24)
    A = [[0] * n for _ in range(n)]
    for i in range(1, n):
        for j in [rng.randrange(i)] + [rng.randrange(n) for _ in range(rng.randrange(3))]:
            if j != i:
                A[i][j] -= 1
                A[j][i] -= 1
                A[i][i] += 1
                A[j][j] += 1
    A[0] = [1] + [0] * (n - 1)
    return A, [[0] * 3] + [[rng.randint(-4, 4) for _ in range(3)] for _ in range(n - 1)]


def system(rng, big):
    """Integer systems, with tight Hadamard bounds among them."""
    n = rng.randint(1, 5 if not big else 8)
    x = rng.random()
    if x < .25:
        s = rng.choice([1, 2, 9])
        A = [[rng.randint(-s, s) for _ in range(n)] for _ in range(n)]
    elif x < .45:       # diagonal: the determinant meets the Hadamard bound
        s = rng.choice([9, 1000, 3162, 3163, 10 ** 6, 10 ** 10])
        A = [[rng.choice([-1, 1]) * rng.randint(max(1, s // 2), s) if i == j else 0 for j in range(n)] for i in range(n)]
        rng.shuffle(A)
    elif x < .6:        # Hadamard matrices, scaled
        H = [[1]]
        while len(H) < n:
            H = [r + r for r in H] + [r + [-y for y in r] for r in H]
        s = rng.choice([1, 3, 1000, 10 ** 9])
        A = [[s * y for y in r] for r in H]
        n = len(A)
    elif x < .75:       # weighted graph Laplacian with one row grounded, as in placements
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                w = rng.choice([0, 1, 1, 2])
                A[i][j] -= w
                A[j][i] -= w
                A[i][i] += w
                A[j][j] += w
        A[0] = [1] + [0] * (n - 1)
    elif x < .9:
        s = rng.choice([10 ** 4, 10 ** 7, 10 ** 10])
        A = [[rng.randint(-s, s) for _ in range(n)] for _ in range(n)]
    else:               # singular, or singular modulo the prime only
        A = [[rng.randint(-9, 9) for _ in range(n)] for _ in range(n)]
        if rng.random() < .5:
            A[0] = [0] * n if n == 1 else [rng.choice([-1, 2]) * y for y in A[-1]]
        else:
            A[0] = [P * rng.randint(-2, 2) for _ in range(n)]
    s = rng.choice([1, 9, 10 ** 5, 10 ** 11])
    k = rng.randint(1, 3)
    B = [[rng.choice([-1, 1]) * rng.randint(s // 2, s) if rng.random() < .8 else 0 for _ in range(k)] for _ in range(n)]
    if rng.random() < .1:
        B = [[0] * k for _ in range(n)]
    if rng.random() < .3:               # columns of different sizes
        k = rng.randint(2, 5)
        B = [[rng.randint(-9, 9) for _ in range(k)] for _ in range(n)]
        j, s = rng.randrange(k), rng.choice([10 ** 5, 10 ** 9, 10 ** 11])
        for r in B:
            r[j] = rng.randint(-s, s)
    return A, B


PHI = (1 + 5 ** .5) / 2


def tight(rng):
    """Diagonal systems whose solution just fits the number of p-adic steps."""
    n = rng.randint(1, 3)
    k = rng.randint(max(1, 2 * n - 2), 2 * n + 1)
    # the product of all but the smallest norm is just below p^(k/2) / phi
    top = P ** (k / 2) / PHI
    d = []
    for _ in range(n - 1):
        x = rng.randint(2, max(2, min(10 ** 10, int(top ** (1 / n)) * 2)))
        d.append(x)
        top /= x
    if not 1 <= top <= 4 * 10 ** 10:
        return tight(rng)
    b = max(1, int(top) - rng.choice([0, 0, 1, 2, rng.randint(0, 50)]))
    small = rng.randint(1, max(1, min(d + [b])))
    diag = d + [small]
    A = [[diag[i] if i == j else 0 for j in range(n)] for i in range(n)]
    B = [[0] for _ in range(n)]
    B[rng.randrange(n)][0] = rng.choice([-1, 1]) * b
    if rng.random() < .3:
        rng.shuffle(A)
    return A, B


def check(ctx):
    rng = ctx.rng
    ctx.model("PAdic", ctx.scale("PAdic", "PAdicDeep"))
    reqs = []
    for p in (2, 3, 5, 7, 4, 12):       # moduli that are not prime too
        for x in range(-2 * p, 2 * p + 1):
            reqs.append({"what": "inverse", "x": x, "p": p})
    for _ in range(ctx.scale(200, 3000)):
        p = rng.choice(PRIMES)
        reqs.append({"what": "inverse", "x": rnd(rng, p), "p": p})
    for _ in range(ctx.scale(1000, 8000)):
        p = rng.choice(PRIMES[:4] if rng.random() < .5 else PRIMES)
        what = rng.choice(["echelon", "echelon", "minv", "minv", "mprod", "iprod"])
        m, n, k = rng.randint(1, 4), rng.randint(1, 5), rng.randint(1, 4)
        if rng.random() < .06:
            m, n, k = rng.randint(5, 10), rng.randint(5, 12), rng.randint(4, 8)
        if what == "echelon":
            rq = {"a": imatrix(rng, p, m, n)}
        elif what == "minv":
            rq = {"a": imatrix(rng, p, m, m)}
        else:
            rq = {"a": imatrix(rng, p, m, n), "b": imatrix(rng, p, n, k)}
            if what == "iprod":
                rq = {"a": [[rng.randint(-10 ** 9, 10 ** 9) for _ in range(n)] for _ in range(m)],
                      "b": [[rng.randint(-10 ** 8, 10 ** 8) for _ in range(k)] for _ in range(n)]}
        reqs.append(dict(rq, what=what, p=p))
    for _ in range(ctx.scale(80, 800)):     # sparse ones: pivots far down, or far right
        p = rng.choice(PRIMES)
        n, m, q = rng.randint(5, 12), rng.randint(5, 12), rng.choice([0, 0, .05, .2])
        perm = rng.sample(range(n), n)
        a = [[rng.choice([1, -1, p + 2, p - 1]) if perm[i] == j else rnd(rng, p) if rng.random() < q else rng.choice([0, 0, p]) for j in range(n)] for i in range(n)]
        if rng.random() < .5:
            reqs.append({"what": "minv", "a": a, "p": p})
        else:
            reqs.append({"what": "echelon", "a": a[:m] if rng.random() < .5 else [r[:m] for r in a], "p": p})
    # all small matrices modulo 2 and 3
    import itertools
    for p, shape in ((2, (2, 2)), (2, (2, 3)), (3, (2, 2)), (2, (3, 3))):
        m, n = shape
        cells = list(itertools.product(range(p), repeat=m * n))
        for c in cells if len(cells) < 100 or ctx.thorough else rng.sample(cells, 100):
            a = [[x + p * rng.randint(-1, 0) for x in c[i * n:(i + 1) * n]] for i in range(m)]
            reqs.append({"what": "echelon", "a": a, "p": p})
            if m == n:
                reqs.append({"what": "minv", "a": a, "p": p})
    for i in range(ctx.scale(700, 5000)):
        A, B = system(rng, i % 10 == 0)
        reqs.append({"what": "solve", "a": A, "b": B, "p": P})
    for i in range(ctx.scale(25, 300)):
        A, B = laplacian(rng)
        reqs.append({"what": "solve", "a": A, "b": B, "p": P})
    for i in range(ctx.scale(8, 60)):       # solutions of hundreds of digits
        n, m = rng.choice([(12, 10 ** 9), (16, 10 ** 8), (20, 10 ** 6), (24, 10 ** 9), (30, 10 ** 4)])
        A = [[rng.randint(-m, m) for _ in range(n)] for _ in range(n)]
        B = [[rng.randint(-m, m) for _ in range(rng.choice([1, 1, 2]))] for _ in [0]]
        B += [[rng.randint(-m, m) for _ in B[0]] for _ in range(n - 1)]
        reqs.append({"what": "solve", "a": A, "b": B, "p": P})
    for i in range(ctx.scale(400, 5000)):
        A, B = tight(rng)
        reqs.append({"what": "solve", "a": A, "b": B, "p": P})
    reqs = [dict(r, op="modular") for r in reqs]
    res = ctx.drive(reqs)
    groups = []
    for rq, o in zip(reqs, res):
        e = {"op": rq["what"], "p": str(rq["p"]), "r": o["r"], "v": o["v"]}
        if "x" in rq:
            e["x"] = str(rq["x"])
        for k in ("a", "b"):
            if k in rq:
                e[k] = al.treq(rq[k])
        groups.append([e])
    ctx.validate("ModTrace", groups, reqs)
