"""C12: bases, reduced forms, ranks, determinants, extended gcd."""
from . import algebra as al
from .c13 import small_grid


def check(ctx):
    rng = ctx.rng
    ctx.model("LinLaws", ctx.scale("LinLaws", "LinLawsDeep"))
    reqs, evs = [], []

    def add(rq, ev):
        reqs.append(rq)
        evs.append(ev)
    for ty, A in small_grid(ctx, 600, 6000):
        for what in ("rank", "reduced") + (("det",) if len(A) == len(A[0]) else ()):
            add({"op": "linalg", "ty": ty, "what": what, "a": al.mat(al.req_rows(ty, A))},
                {"op": what, "ty": ty, "a": al.tmat(A)})
    for _ in range(ctx.scale(2500, 20000)):
        ty, size = al.pick(rng)
        m, n = al.dims(rng, ty, size)
        what = rng.choice(["extend", "extend", "rank", "det", "reduced", "reduced"])
        if what == "det":
            m = n
        A = al.matrix(rng, ty, m, n, size)
        if what == "extend":
            rng.shuffle(A)
            add({"op": "linalg", "ty": ty, "what": "extend", "vecs": al.req_rows(ty, A)}, {"op": "extend", "ty": ty, "vecs": al.treq(A)})
        else:
            add({"op": "linalg", "ty": ty, "what": what, "a": al.mat(al.req_rows(ty, A), n)}, {"op": what, "ty": ty, "a": al.tmat(A, n)})
        if what == "reduced" and m == n:
            # the same span from other rows
            B = al.mul(al.unimod(rng, m, 2), A)
            add({"op": "linalg", "ty": ty, "what": what, "a": al.mat(al.req_rows(ty, B), n)}, {"op": what, "ty": ty, "a": al.tmat(B, n)})
    for _ in range(ctx.scale(60, 600)):       # larger ones
        ty = rng.choice(["big", "rat"])
        m, n = rng.randint(6, 10), rng.randint(6, 10)
        what = rng.choice(["extend", "rank", "det", "reduced"])
        if what == "det":
            m = n
        r = rng.choice([min(m, n), rng.randint(1, min(m, n))])
        A = al.mul(al.matrix(rng, "int", m, r, 1), al.matrix(rng, "int", r, n, 2))
        if r == m == n and rng.random() < .5:
            A = al.unimod(rng, n, 8)
        if what == "extend":
            add({"op": "linalg", "ty": ty, "what": what, "vecs": al.req_rows(ty, A)}, {"op": what, "ty": ty, "vecs": al.treq(A)})
        else:
            add({"op": "linalg", "ty": ty, "what": what, "a": al.mat(al.req_rows(ty, A), n)}, {"op": what, "ty": ty, "a": al.tmat(A, n)})
    for _ in range(ctx.scale(30, 300)):       # refused
        ty = rng.choice(["i32", "i64", "big", "rat"])
        m, n = rng.sample(range(1, 6), 2)
        A = al.matrix(rng, ty, m, n, 2)
        add({"op": "linalg", "ty": ty, "what": "det", "a": al.mat(al.req_rows(ty, A), n)}, {"op": "det", "ty": ty, "a": al.tmat(A, n)})
    # determinants of signed permutations and what is close to them
    for i in range(ctx.scale(250, 3000)):
        n = rng.choice([3, 4, 4, 5, 5, 6, 7, 8, 9])
        p = rng.sample(range(n), n)
        A = [[rng.choice([-1, 1, 1, 2]) if j == p[i] else (rng.choice([-1, 1]) if j > p[i] and rng.random() < .15 else 0)
              for j in range(n)] for i in range(n)]
        ty = rng.choice(["i32", "i64", "big", "rat"])
        what = rng.choice(["det", "det", "extend", "reduced"])
        if what == "extend":
            add({"op": "linalg", "ty": ty, "what": "extend", "vecs": al.req_rows(ty, A)}, {"op": "extend", "ty": ty, "vecs": al.treq(A)})
        else:
            add({"op": "linalg", "ty": ty, "what": what, "a": al.mat(al.req_rows(ty, A))}, {"op": what, "ty": ty, "a": al.tmat(A)})
    for i in range(ctx.scale(250, 3000)):
        ty = rng.choice(["i32", "i64"])
        s = rng.choice([3, 20, 10 ** 6, 10 ** 9 if ty == "i32" else 10 ** 18])
        x, y = rng.randint(-s, s), rng.randint(-s, s)
        if i % 10 == 0:
            x, y = rng.choice([(0, 0), (0, y), (x, 0), (x, x), (x, -x), (2 * y, y), (1, y), (-1, y)])
        add({"op": "linalg", "ty": ty, "what": "gcdx", "x": x, "y": y}, {"op": "gcdx", "ty": ty, "x": str(x), "y": str(y)})
    res = ctx.drive(reqs)
    groups = []
    for ev, out in zip(evs, res):
        if ev["op"] == "extend":
            g = [{"op": "basis"}]
            outs = out if isinstance(out, list) else [out] * len(ev["vecs"])
            g += [{"op": "extend", "ty": ev["ty"], "vec": v, "r": r["r"], "v": r["v"]} for v, r in zip(ev["vecs"], outs)]
        else:
            g = [dict(ev, r=out["r"], v=out["v"])]
        groups.append(g)
    ctx.validate("LinTrace", groups, reqs)
