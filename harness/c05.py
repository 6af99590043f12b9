"""C05: connectivity and component measures; and C06 shares the inputs."""
from . import graphs as G


def inputs(ctx, quick, thorough):
    rng = ctx.rng
    res = []
    for cfg in ("GraphGen2.cfg", "GraphGen3.cfg", "GraphGen1x3.cfg") if not ctx.thorough else \
            ("GraphGen2.cfg", "GraphGen2Deep.cfg", "GraphGen3.cfg", "GraphGen1x3.cfg"):
        gs = G.tlc_graphs(ctx, cfg)
        ctx.count("generated:" + cfg, len(gs))
        d = len(gs[0][0][2])
        k = ctx.scale(quick, thorough)
        res += [(E, d) for E in (gs if len(gs) <= k else rng.sample(gs, k))]
    for i in range(ctx.scale(quick, thorough)):
        d = 2 + i % 2
        E, base = [], 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.randint(1, 5)
            F = G.random_graph(rng, d, n, n - 1 + rng.randint(0, d + 2), rng.choice([1, 1, 2, 3]))
            if not F:
                continue
            if rng.random() < .35:
                # a sublattice of finite index, or of lower rank
                M = rng.choice(G.hnf_matrices(d, rng.choice([2, 3, 4, 6])))
                if rng.random() < .3:
                    M[rng.randrange(d)] = [0] * d
                T = [list(c) for c in zip(*M)]
                F = [(h, t, G.matvec(T, s)) for h, t, s in F]
                F = G.regauged(F, {v: G.rnd_shift(rng, d, 1) for v in G.verts(F)})
            E += [(h + base, t + base, s) for h, t, s in F]
            base += 10
        if E:
            if rng.random() < .5:
                E = G.scrambled(rng, E, d, sparse=rng.random() < .5)
            res.append((E, d))
    for i in range(ctx.scale(quick // 10, thorough // 10)):
        d = 2 + i % 2
        E = G.larger(rng, d) if i > ctx.scale(3, 20) else G.larger(rng, d, 50, 120)
        if rng.random() < .3:       # several big components
            m = max(G.verts(E)) + 1
            E = E + [(a + m, b + m, s) for a, b, s in G.larger(rng, d, 10, 20)]
        if rng.random() < .4:
            E = [e for e in E if rng.random() < .9] or E
        res.append((E, d))
    for d in (2, 3):
        for E in G.named(d).values():
            res.append((G.scrambled(rng, E, d), d))
            res.append((G.supercell(E, rng.choice(G.hnf_matrices(d, 2)), rng), d))
    return res


def large(ctx, quick, thorough):
    """Shifts far beyond unit cells: random ones, skewed bases, sublattices of large index, big gauges."""
    rng, res = ctx.rng, []
    for i in range(ctx.scale(quick, thorough)):
        d = 2 + i % 2
        n = rng.choice([1, 1, 2, 3, 4, 6, 12])
        E = G.random_graph(rng, d, n, n - 1 + rng.choice([1, d, d, d + 1, d + 6, 20]),
                           rng.choice([3, 10, 100, 1000, 10 ** 4, 10 ** 6]) if i % 3 == 0 else 1)
        if i % 3 == 1:      # index and skewness by choice
            M = [[0] * d for _ in range(d)]
            for j in range(d):
                M[j][j] = rng.choice([1, 1, 1, 2, 3, 10, 46341 if d == 2 else 1290, 0])
                for k in range(j):
                    M[j][k] = rng.randint(-30, 30)
            E = [(h, t, G.matvec(M, s)) for h, t, s in E]
        if i % 3:
            U = G.unimodular(rng, d, rng.choice([3, 6, 10]), rng.choice([1, 3, 10]))
            E = [(h, t, G.matvec(U, s)) for h, t, s in E]
            if max([abs(x) for _, _, s in E for x in s] or [0]) > 10 ** 7:
                continue
        r = rng.choice([0, 1, 10 ** 3, 10 ** 6])
        if r:
            E = G.regauged(E, {v: G.rnd_shift(rng, d, r) for v in G.verts(E)})
        if n > 2 and rng.random() < .3:
            E = [e for e in E if rng.random() < .8] or E
        E = G.canon_set(E)
        if E:
            res.append((E, d))
    return res


def spans(ctx):
    ins = large(ctx, 300, 6000)
    asked = [(E, d, ctx.rng.choice(G.verts(E))) for E, d in ins]
    reqs = [{"op": "graph", "dim": d, "edges": G.outs(E), "queries": [["component", v], ["is_connected"]]} for E, d, v in asked]
    groups = []
    for (E, d, v), out in zip(asked, ctx.drive(reqs)):
        a = G.answers(out, 2)
        e = {"op": "spans", "d": d, "edges": G.outs(E), "v0": v, "r": next((x["r"] for x in a if x["r"] != "ok"), "ok")}
        if e["r"] == "ok":
            size, rank, index = a[0]["v"]
            e.update(comp=[size, rank, [str(x) for x in index]], conn=a[1]["v"])
        groups.append([e])
    ctx.count("shifts of any size", len(groups))
    ctx.validate("PlaceTrace", groups, reqs)


def check(ctx):
    rng = ctx.rng
    ctx.model("Traverse", ctx.scale("Traverse", "TraverseDeep"))
    ins = inputs(ctx, 350, 6000)
    reqs = []
    for E, d in ins:
        V = G.verts(E)
        qs = [["is_connected"]] + [["component", v] for v in rng.sample(V, min(4, len(V)))]
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": qs})
    res = ctx.drive(G.disguise(ctx.rng, reqs, .15))
    groups = []
    for (E, d), rq, out in zip(ins, reqs, res):
        a = G.answers(out, len(rq["queries"]))
        groups.append([G.graph_event(E, d)] + [G.event(q, r) for q, r in zip(rq["queries"], a)])
    ctx.validate("PGraphTrace", groups, reqs)
    spans(ctx)
