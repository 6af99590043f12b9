"""Nets in two frames (C08-C11): what the code says must not depend on names, representatives or basis."""
from . import graphs as G


def skew(rng, d):
    """A unimodular matrix, from none to entries of some thousands."""
    while True:
        U = G.unimodular(rng, d, rng.choice([0, 2, 4, 8]), rng.choice([1, 3, 10]))
        if max(abs(x) for r in U for x in r) <= 4000:
            return U


def nets(ctx, n):
    """Connected locally stable nets, small and large, symmetric and not, also ladders."""
    rng, res = ctx.rng, []
    while len(res) < n:
        d = 2 + len(res) % 2
        kind = rng.choice(["super", "super", "large", "random", "cover", "symmetrised", "ladder"])
        base = rng.choice(list(G.named(d).values())) if rng.random() < .7 else G.random_net(rng, d, 4)
        E = base
        if kind == "super":
            E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 3, 4, 5, 6, 8]))), rng)
        elif kind == "large":
            E = G.larger(rng, d, 8, 40)
        elif kind == "random":
            E = G.random_net(rng, d, 9)
        elif kind == "cover":
            E = G.cover(E, rng)
        elif kind == "symmetrised":
            E = G.symmetrised(rng, d)
        else:
            E = G.ladder(E, rng, rng.choice([0, .3]))
            if rng.random() < .5:
                E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 3]))), rng)
        if not E or len(G.verts(E)) > 48 or not G.is_net(E, d):
            continue
        net = G.Net(E, d)
        if not net.ok or not net.stable():
            ctx.count("frames skipped:" + kind)
            continue
        t = net.tree()
        if t is None or t[0] * len(G.verts(E)) > 15000:      # the code would need many seconds for it
            ctx.count("frames skipped:" + kind)
            continue
        ctx.count("frames:" + kind)
        res.append(net)
    return res


def images(x):
    """Size of a minimal image."""
    return [] if not x else [len({e[0] for e in x[0]} | {e[1] for e in x[0]}), len(x[0])]


def frames(ctx, n, queries, unless_ladder=()):
    """queries: names asked in both frames; those of unless_ladder are compared only when there is no choice."""
    rng = ctx.rng
    reqs, plan = [], []
    for net in nets(ctx, n):
        E, d = net.edges, net.d
        V = G.verts(E)
        U = skew(rng, d)
        name = dict(zip(V, rng.sample(range(1, 2 * len(V) + 1), len(V))))
        r = rng.choice([0, 1, 3, 1000])
        gauge = {v: G.rnd_shift(rng, d, r) if r else (0,) * d for v in V}
        E2 = G.canon_set(G.renamed(G.rebased(G.regauged(E, gauge), U), name))
        E2 = [e if rng.random() < .5 else (e[1], e[0], tuple(-x for x in e[2])) for e in E2]
        rng.shuffle(E2)
        qs = [[q] for q in queries]
        pos = [["position", v] for v in V] if "symmetries" in queries or "ladder_symmetries" in queries else []
        plan.append((net, V, U, name, gauge, E2, qs, pos))
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": [["is_ladder"]] + qs + pos})
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E2), "queries": [["is_ladder"]] + qs})
    res = ctx.drive(reqs)
    groups = []
    for i, (net, V, U, name, gauge, E2, qs, pos) in enumerate(plan):
        a = G.answers(res[2 * i], 1 + len(qs) + len(pos))
        b = G.answers(res[2 * i + 1], 1 + len(qs))
        e = {"op": "frame", "d": net.d, "edges": G.outs(net.edges), "edges2": G.outs(E2), "U": U,
             "names": [[v, name[v], list(gauge[v])] for v in V], "obs": [],
             "pos": [[q[1], x["v"]] for q, x in zip(pos, a[1 + len(qs):])]}
        bad = next((x["r"] for x in a + b if x["r"] != "ok"), None)
        if bad:
            e["obs"].append({"q": "", "r": bad, "a": [], "b": []})
        else:
            lad = a[0]["v"] or b[0]["v"]
            for q, x, y in zip(qs, a[1:], b[1:]):
                if q[0] in unless_ladder and lad:
                    continue
                f = images if q[0] == "minimal_image" else lambda z: z
                e["obs"].append({"q": q[0], "r": "ok", "a": f(x["v"]), "b": f(y["v"])})
        groups.append([e])
    ctx.validate("FrameTrace", groups, reqs, weight=lambda g: 5 + sum(len(o["a"]) if isinstance(o["a"], list) else 1 for o in g[0]["obs"]) * len(g[0]["edges"]))


def covers(ctx, n, queries):
    """Minimal stable nets in big cells: everything follows from the symmetries of the small cell."""
    rng = ctx.rng
    pool = []
    for d in (2, 3):
        pool += [(E, d, True) for E in G.named(d).values()]
        pool += [(G.random_net(rng, d, 4), d, False) for _ in range(ctx.scale(12, 150))]
        pool += [(G.symmetrised(rng, d), d, False) for _ in range(ctx.scale(8, 100))]
    asked = []
    for E, d, named in pool:
        E = G.canon_set(E)
        if not G.is_net(E, d) or len(G.verts(E)) > 8:
            continue
        net = G.Net(E, d)
        if net.ok and net.stable() and len({tuple(x % net.D for x in net.P[v]) for v in net.P}) == len(net.P):
            asked.append((E, d, net))
    res = ctx.drive([{"op": "graph", "dim": d, "edges": G.outs(E), "queries": [["is_minimal"], ["symmetries"]]} for E, d, _ in asked])
    bases = []
    for (E, d, net), out in zip(asked, res):
        a = G.answers(out, 2)
        if a[0]["r"] == "ok" and a[0]["v"] is True and a[1]["r"] == "ok" and (not ctx.hooks or a[1]["v"]):
            bases.append((E, d, a[1]["v"] if ctx.hooks else []))
    reqs, plan = [], []
    # single vertices in long cells, numbered along them: the first ones of an orbit span a line only
    lines = [(b, m, k) for m, k in ((2, 18), (2, 24), (3, 16), (2, 20), (4, 12), (6, 6)) for b in
             rng.sample([b for b in bases if len(G.verts(b[0])) == 1], 1)][:max(3, n // 20)]
    while len(plan) < n:
        line = lines.pop() if lines else None
        E, d, syms = line[0] if line else rng.choice(bases)
        V = G.verts(E)
        top = 48 // len(V)
        k = rng.choice([1, 2, 4, 8, 9, 16] + [x for x in (3, 5, 6, 7, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 23, 24, 25, 27, 29, 31, 32, 36, 37, 41, 48) if x <= top])
        if line:
            k = line[1] * line[2]
        if not line and (k > top or k * max(1, len(syms)) > 1600):
            continue
        B = rng.choice(G.hnf_matrices(d, k))
        if rng.random() < .3 and k % 2 == 0:       # mostly along one direction
            B = [[1] * d for _ in range(d)]
            two = rng.sample(range(d), 2)
            B = [[(2 if i == two[0] else k // 2 if i == two[1] else 1) if i == j else 0 for j in range(d)] for i in range(d)]
        if line:
            B = [[1 if i == j else 0 for j in range(d)] for i in range(d)]
            B[0][0], B[-1][-1] = line[1:]
        E2, at = G.supercell(E, B, rng if not line and rng.random() < .5 else None, where=True)
        B = [list(r) for r in B]
        # other representatives, other basis
        r = rng.choice([0, 0, 1, 30])
        phi = {w: G.rnd_shift(rng, d, r) if r else (0,) * d for w in at}
        E2 = G.regauged(E2, phi)
        # shifts count from the new representatives
        at = {w: (v, [c + sum(phi[w][i] * B[i][j] for i in range(d)) for j, c in enumerate(cell)]) for w, (v, cell) in at.items()}
        U = skew(rng, d) if rng.random() < .5 else [[int(i == j) for j in range(d)] for i in range(d)]
        E2 = G.canon_set(G.rebased(E2, U))      # s -> U s, so s B = (U s) (U^-T B)
        B = transposed_inverse_times(U, B)
        net = G.Net(E2, d)
        t = net.tree()
        if t is None or t[0] * len(G.verts(E2)) > 400000:
            ctx.count("big cells skipped")
            continue
        ctx.count("big cells")
        plan.append((E, E2, d, B, at, syms))
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E2), "queries": [[q] for q in queries]})
    groups = []
    for (E, E2, d, B, at, syms), out in zip(plan, ctx.drive(G.disguise(rng, reqs, .15))):
        e = {"op": "cover", "d": d, "edges": G.outs(E), "edges2": G.outs(E2), "B": B,
             "fibre": [[w, v, list(c)] for w, (v, c) in sorted(at.items())], "syms": syms, "obs": []}
        for q, x in zip(queries, G.answers(out, len(queries))):
            v = x["v"] if x["r"] == "ok" else []
            e["obs"].append({"q": q, "r": x["r"], "a": images(v) if q == "minimal_image" else v})
        groups.append([e])
    ctx.validate("FrameTrace", groups, reqs, weight=lambda g: 5 + len(g[0]["edges2"]))


def transposed_inverse_times(U, B):
    """U^-T B for a unimodular U."""
    from fractions import Fraction as Fr
    d = len(U)
    M = [[Fr(U[j][i]) for j in range(d)] + [Fr(x) for x in B[i]] for i in range(d)]
    for i in range(d):
        p = next(r for r in range(i, d) if M[r][i])
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(d):
            if r != i and M[r][i]:
                M[r] = [a - M[r][i] * b for a, b in zip(M[r], M[i])]
    return [[int(x) for x in r[d:]] for r in M]


def autos(ctx, n, queries):
    """Nets of any denominators, mostly with many vertices and little symmetry, decided by enumeration."""
    rng = ctx.rng
    reqs, plan = [], []
    while len(plan) < n:
        d = 2 + len(plan) % 2
        kind = rng.choice(["mirrored", "mirrored", "mirrored", "large", "random", "doubled"])
        if kind == "mirrored":
            E = G.mirrored(rng, d, 4, rng.choice([9, 14]))
        elif kind == "large":
            E = G.larger(rng, d, 8, 30)
        elif kind == "random":
            E = G.random_net(rng, d, 12, rng.choice([1, 3]))
        else:
            E = rng.choice([G.mirrored(rng, d, 4, 9), G.random_net(rng, d, 8)])
            E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 2, 3]))), rng)
        if rng.random() < .4:
            E = G.scrambled(rng, E, d, 1, 2)
        if not G.is_net(E, d):
            continue
        net = G.Net(E, d)
        if not net.ok or not net.stable():
            ctx.count("enumerated skipped:" + kind)
            continue
        t = net.tree()
        if t is None or t[0] > 1500 or t[0] * len(E) > 20000:
            ctx.count("enumerated skipped:" + kind)
            continue
        ctx.count("enumerated:" + kind)
        plan.append((net, t))
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": [[q] for q in queries]})
    groups = []
    for (net, t), out in zip(plan, ctx.drive(G.disguise(rng, reqs, .15))):
        e = {"op": "autos", "d": net.d, "edges": G.outs(net.edges), "root": t[1], "tree": [[G.out(f), p] for f, p in t[2]],
             "pos": [[v, [str(x) for x in net.pos[v]]] for v in G.verts(net.edges)], "obs": []}
        for q, x in zip(queries, G.answers(out, len(queries))):
            v = x["v"] if x["r"] == "ok" else []
            e["obs"].append({"q": q, "r": x["r"], "a": images(v) if q == "minimal_image" else v})
        groups.append([e])
    ctx.validate("AutoTrace", groups, reqs, weight=lambda g: len(g[0]["edges"]))
