"""C02: canonical, symmetric quotient-graph representation."""
from . import graphs as G


def arbitrary(rng, d):
    """An arbitrary edge list: any labels, shifts, duplicates and reversals."""
    n = rng.choice([1, 2, 3, 5, 8])
    big = rng.random() < .2
    labels = [rng.randrange(0, 2 ** 31 - 1) if big else rng.randrange(0, 12) for _ in range(n)]
    r = rng.choice([0, 1, 1, 2, 2 ** 30 if big else 7])
    E = []
    for _ in range(rng.randrange(0, 9)):
        E.append((rng.choice(labels), rng.choice(labels), G.rnd_shift(rng, d, r)))
    for e in list(E):
        x = rng.random()
        if x < .25:
            E.append(e)
        elif x < .6:
            E.append((e[1], e[0], tuple(-a for a in e[2])))
        elif x < .7:
            E.append((e[1], e[0], e[2]))
    rng.shuffle(E)
    return E


def queries(rng, E, d):
    qs = [["dim"], ["vertices"], ["directed_edges"], ["edges"], ["display"]]
    qs += [["incidences", v] for v in G.verts(E)]
    for e in E[:6]:
        qs += [["canonical", G.out(e)], ["neg", G.out(e)]]
    for _ in range(3):
        a, b = G.rnd_shift(rng, d, rng.choice([1, 1, 9, 10 ** 6])), G.rnd_shift(rng, d, 1)
        if rng.random() < .3:       # equal in the leading places
            b = tuple(x if i < d - 1 else y for i, (x, y) in enumerate(zip(a, b)))
        qs.append(["label", list(a), list(b)])
    tail = qs[1:]
    rng.shuffle(tail)
    return qs[:1] + tail


def check(ctx):
    rng = ctx.rng
    inputs = []
    for cfg in ("GraphGen2.cfg", "GraphGen3.cfg"):
        gs = G.tlc_graphs(ctx, cfg)
        ctx.count("generated:" + cfg, len(gs))
        d = len(gs[0][0][2])
        for E in gs if ctx.thorough else rng.sample(gs, 500):
            E = [e if rng.random() < .5 else (e[1], e[0], tuple(-x for x in e[2])) for e in E]
            rng.shuffle(E)
            inputs.append((E, d))
    for i in range(ctx.scale(30, 500)):
        d = 2 + i % 2
        E = G.larger(rng, d) if i > ctx.scale(3, 20) else G.larger(rng, d, 60, 150)
        E = [e if rng.random() < .5 else (e[1], e[0], tuple(-x for x in e[2])) for e in E + rng.sample(E, 5)]
        inputs.append((rng.sample(E, len(E)), d))
    for i in range(ctx.scale(30, 500)):         # many edges between few vertices
        d = 2 + i % 2
        V = rng.sample(range(1, 40), rng.choice([1, 1, 2, 3]))
        E = [(rng.choice(V), rng.choice(V), G.rnd_shift(rng, d, 9)) for _ in range(rng.randint(20, 60))]
        inputs.append((E, d))
    for i in range(ctx.scale(500, 8000)):
        d = 2 + i % 2
        inputs.append((arbitrary(rng, d), d))
    for d in (2, 3):
        for E in G.named(d).values():
            inputs.append((E, d))
            inputs.append((G.scrambled(rng, E, d, sparse=True), d))
    reqs = [{"op": "graph", "dim": d, "edges": G.outs(E), "queries": queries(rng, E, d)} for E, d in inputs]
    # the same edges in two orders give the same printed graph: judged through the canonical list
    G.disguise(rng, reqs, .4)
    res = ctx.drive(reqs)
    groups = []
    for (E, d), rq, out in zip(inputs, reqs, res):
        a = G.answers(out, len(rq["queries"]))
        groups.append([G.graph_event(E, d)] + [G.event(q, r) for q, r in zip(rq["queries"], a)])
    ctx.validate("PGraphTrace", groups, reqs)
