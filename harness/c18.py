"""C18: lattice reduction, Dirichlet cells, rational lattices."""
from fractions import Fraction as Fr

from . import algebra as al
from .c15 import posdef, regular, rvec


def dot(g, v, w):
    return sum(v[i] * g[i][j] * w[j] for i in range(len(v)) for j in range(len(w)))


def superbase(vs, g):
    """Obtuse superbase (without its last vector) by Selling's algorithm; only a certificate."""
    n = len(vs)
    s = [list(v) for v in vs] + [[-sum(c) for c in zip(*vs)]]
    if n == 1:
        return s[:1]
    while True:
        for i in range(n + 1):
            for j in range(i + 1, n + 1):
                if dot(g, s[i], s[j]) > 0:
                    if n == 2:
                        k = 3 - i - j
                        s[k] = [a + 2 * b for a, b in zip(s[k], s[i])]
                    else:
                        for k in range(n + 1):
                            if k not in (i, j):
                                s[k] = [a + b for a, b in zip(s[k], s[i])]
                    s[i] = [-a for a in s[i]]
                    break
            else:
                continue
            break
        else:
            return s[:n]


h = Fr(1, 2)
NICE = {1: [[[1]]],
        2: [[[1, 0], [0, 1]], [[h, h], [h, -h]], [[1, 0], [0, 2]], [[2, 1], [1, 2]]],
        3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, h, h], [h, 0, h], [h, h, 0]], [[-h, h, h], [h, -h, h], [h, h, -h]],
            [[1, 0, 0], [0, 1, 0], [0, 0, 3]], [[h, h, 0], [h, -h, 0], [0, 0, 1]]]}
FORMS = {1: [[[1]]],
         2: [[[1, 0], [0, 1]], [[2, -1], [-1, 2]], [[2, 1], [1, 2]], [[1, 0], [0, 3]]],
         3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, -1, 0], [-1, 2, 0], [0, 0, 3]], [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [[1, 0, 0], [0, 1, 0], [0, 0, 2]],
             [[3, -1, -1], [-1, 3, -1], [-1, -1, 3]]]}


def lattice(rng, n):
    frac = lambda M: [[Fr(x) for x in r] for r in M]
    x = rng.random()
    vs = frac(rng.choice(NICE[n])) if x < .6 else regular(rng, n)
    if rng.random() < .7:
        vs = al.mul(frac(al.unimod(rng, n, rng.randint(1, 6))), vs)
    g = frac(rng.choice(FORMS[n])) if rng.random() < .6 else posdef(rng, n)
    return vs, g


def check(ctx):
    rng = ctx.rng
    ctx.model("Lagrange", ctx.scale("Lagrange", "LagrangeDeep"))
    ctx.model("Selling", ctx.scale("Selling", "SellingDeep"))
    ctx.model("Dirichlet", ctx.scale("Dirichlet", "DirichletDeep"))
    reqs, evs = [], []
    first = []
    for n, k in ((1, 15), (2, 250), (3, 330)):
        for _ in range(ctx.scale(k, 10 * k)):
            first.append((n,) + lattice(rng, n))
    base = [{"op": "lattice", "what": "dirichlet", "vs": al.treq(vs), "gram": al.treq(g)} for n, vs, g in first]
    for rq in base:             # a tolerance far below the granularity of the data changes nothing
        if rng.random() < .3:
            rq["eps"] = "1/" + str(10 ** rng.choice([25, 30]))
    dv = ctx.drive(base)
    for (n, vs, g), rq, o in zip(first, base, dv):
        ev = {"n": n, "vs": al.treq(vs), "g": al.treq(g), "w": al.treq(superbase(vs, g))}
        reqs.append(rq)
        evs.append(dict(ev, op="dirichlet", r=o["r"], v=o["v"]))
        reqs.append(dict(rq, what="reduced"))
        evs.append(dict(ev, op="reduced"))
        if o["r"] == "ok":
            for _ in range(2):
                p = rvec(rng, n, rng.choice([2, 30]))
                if rng.random() < .4:       # on the boundary of a cell, or a lattice point
                    c = [Fr(rng.randint(-5, 5), rng.choice([1, 2])) for _ in range(n)]
                    p = [sum(c[i] * vs[i][j] for i in range(n)) for j in range(n)]
                p = al.treq([p])[0]
                reqs.append({"op": "lattice", "what": "shift", "vs": o["v"], "gram": rq["gram"], "p": p, **({"eps": rq["eps"]} if "eps" in rq else {})})
                evs.append(dict(ev, op="shift", p=p))
    for n, k in ((1, 30), (2, 150), (3, 200), (4, 60), (5, 30), (6, 20)):
        for _ in range(ctx.scale(k, 10 * k)):
            vs = [[Fr(rng.randint(-7, 7), rng.choice([1, 2, 3, 4, 6, 8, 5])) for _ in range(n)]
                  for _ in range(rng.randint(1, 4 if rng.random() < .8 else 9))]
            if rng.random() < .4:       # one denominator appears once only, anywhere
                vs = [[Fr(x.numerator, rng.choice([1, 1, 2])) for x in v] for v in vs]
                rng.choice(vs)[rng.randrange(n)] = Fr(rng.choice([-5, -1, 1, 2, 11]), rng.choice([3, 7, 9, 16, 25]))
            if rng.random() < .06:      # many vectors, the last of which may matter most
                m = rng.randint(20, 90)
                vs = [[Fr(rng.randint(-9, 9) * rng.choice([1, 2, 3])) for _ in range(n)] for _ in range(m)] + vs[:rng.randint(1, n)]
            if rng.random() < .1:
                vs = [[x * Fr(rng.randint(1, 10 ** 6), rng.choice([1, 7, 1001, 99991])) for x in v] for v in vs]
            if rng.random() < .2:
                vs[0] = [Fr(rng.randint(-3, 3)) for _ in range(n)]
            reqs.append({"op": "lattice", "what": "rational", "vs": al.treq(vs)})
            evs.append({"op": "rational", "n": n, "vs": al.treq(vs), "g": [], "w": []})
    todo = [i for i, ev in enumerate(evs) if "r" not in ev]
    for i, o in zip(todo, ctx.drive([reqs[i] for i in todo])):
        evs[i].update(r=o["r"], v=o["v"])
    ctx.validate("LatticeTrace", [[ev] for ev in evs], reqs, weight=lambda g: (1, 1, 4, 40, 10, 10, 10)[g[0]["n"]])
