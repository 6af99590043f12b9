"""C04: coordination sequences."""
from . import graphs as G


def check(ctx):
    rng = ctx.rng
    ctx.model("CoordImpl", ctx.scale("CoordImpl", "CoordImplDeep"))
    inputs = []
    for cfg in ("GraphGen2.cfg", "GraphGen3.cfg"):
        gs = G.tlc_graphs(ctx, cfg)
        d = len(gs[0][0][2])
        for E in gs if ctx.thorough else rng.sample(gs, 250):
            inputs.append((E, d))
    for d in (2, 3):
        for E in G.named(d).values():
            inputs.append((E, d))
            inputs.append((G.scrambled(rng, E, d, sparse=True), d))
            inputs.append((G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 3]))), rng), d))
    for i in range(ctx.scale(120, 2500)):
        d = 2 + i % 2
        n = rng.randint(1, 6)
        E = G.random_graph(rng, d, n, n - 1 + rng.randint(0, d + 2), rng.choice([1, 1, 2]))
        if rng.random() < .3:       # a second component
            F = G.random_graph(rng, d, 2, 2 + rng.randrange(3))
            E = E + [(h + 10, t + 10, s) for h, t, s in F]
        if E:
            inputs.append((E, d))
    for i in range(ctx.scale(24, 300)):
        d = 2 + i % 2
        inputs.append((G.larger(rng, d, 14, 30) if i > ctx.scale(3, 30) else G.larger(rng, d, 50, 110), d))
    reqs, groups = [], []
    for E, d in inputs:
        V = G.verts(E)
        qs = []
        for v in rng.sample(V, min(len(V), 2)):
            # terms until the shells get large
            k = rng.choice([3, 6, 9] if d == 2 else [2, 4, 5])
            if len(V) >= 14 and len(E) < len(V) * 1.3:      # long chains: shells grow slowly
                k = rng.choice([8, 12, 16] if d == 2 else [8, 10])
            elif len(E) > 12:
                k = min(k, 6 if d == 2 else 4)
            qs.append(["coordination", v, k])
        qs.append(["coordination2", rng.choice(V), rng.choice(V), rng.randint(1, 4 if d == 2 else 3)])
        qs.append(["coordination", V[0], rng.randrange(0, 3)])
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": qs})
    # the same sequence read again and again from one graph, further every
    # time, alone and in step with another one
    again = [(E, d) for E, d in inputs if 3 <= len(E) <= (6 if d == 2 else 4)]
    for E, d in rng.sample(again, min(len(again), ctx.scale(30, 300))):
        V = G.verts(E)
        v, w = rng.choice(V), rng.choice(V)
        k = rng.randint(9, 11) if d == 2 else rng.randint(3, 5)
        a = rng.randint(2, k)
        qs = [["coordination", v, a], ["coordination", w, k],
              ["coordination", v, k], ["coordination2", v, v, 3],
              ["coordination", v, k + rng.randint(1, 3 if d == 2 else 1)],
              ["coordination", v, a]]
        inputs.append((E, d))
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": qs})
    res = ctx.drive(G.disguise(ctx.rng, reqs, .15))
    for (E, d), rq, out in zip(inputs, reqs, res):
        a = G.answers(out, len(rq["queries"]))
        groups.append([G.graph_event(E, d)] + [G.event(q, r) for q, r in zip(rq["queries"], a)])
    ctx.validate("PGraphTrace", groups, reqs)
