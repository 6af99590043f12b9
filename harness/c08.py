"""C08: symmetry groups; C09-C11 share the nets."""
from . import core, graphs as G
from . import frames as fr

LIMIT = 4000          # branches of the enumeration the specification performs


def usable(E, d, limit=LIMIT, nmax=12):
    """Net with certificates, when small enough for the specification."""
    if not E or len(G.verts(E)) > nmax or not G.is_net(E, d):
        return None
    net = G.Net(E, d)
    # keep determinants inside TLC's 32 bit integers
    if not net.ok or net.maxvec ** d * (2 if d == 2 else 6) >= 2 ** 30 or not net.stable():
        return None
    net.t = net.tree()
    if net.t is None or net.t[0] > limit:
        return None
    if nmax > 18 and net.t[0] * len(G.verts(E)) > 8000:     # the code would need many seconds for it
        return None
    return net


def nets(ctx, quick, thorough, ladders=True):
    """Connected locally stable nets: generated, named, scrambled, supercells, ladders."""
    rng = ctx.rng
    res = []

    def add(E, d, label):
        n = usable(E, d)
        if n is None:
            ctx.count("skipped:" + label)
        else:
            n.label = label
            ctx.count("nets:" + label)
            res.append(n)
    for cfg in ("GraphGen2.cfg", "GraphGen1x3.cfg") + (("GraphGen2Deep.cfg",) if ctx.thorough else ()):
        gs = [E for E in G.tlc_graphs(ctx, cfg) if G.is_net(E, len(E[0][2]))]
        k = ctx.scale(40, 1500)
        for E in (gs if len(gs) <= k else rng.sample(gs, k)):
            add(E, len(E[0][2]), "generated")
    for d in (2, 3):
        for E in G.named(d).values():
            add(E, d, "named")
            for _ in range(ctx.scale(1, 10)):
                add(G.scrambled(rng, E, d, 1, 3, sparse=True), d, "named scrambled")
        for _ in range(ctx.scale(6, 60)):       # one vertex, many loops, little symmetry
            E = G.canon_set([(1, 1, G.rnd_shift(rng, d, 2)) for _ in range(d + rng.randint(1, 3 if d == 2 else 2))])
            add([e for e in E if any(e[2])], d, "loops")
    for i in range(ctx.scale(quick // 2, thorough // 2)):
        d = 2 + i % 2
        add(G.symmetrised(rng, d), d, "symmetrised")
        if i % 4 == 0:
            add(G.mirrored(rng, 2 + i // 4 % 2), 2 + i // 4 % 2, "mirrored")
    for i in range(ctx.scale(quick, thorough)):
        d = 2 + i % 2
        kind = rng.choice(["random", "random", "super", "super", "super super"] + (["ladder", "ladder super"] if ladders else []))
        base = rng.choice(list(G.named(d).values())) if rng.random() < .5 else G.random_net(rng, d, 4)
        E = base
        if "super" in kind:
            E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 2, 3, 4]))), rng)
        if "super super" in kind:
            E = G.supercell(E, rng.choice(G.hnf_matrices(d, 2)), rng)
        if "ladder" in kind:
            E = G.ladder(base, rng, rng.choice([0, 0, .3, .5]))
            if "super" in kind:
                E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 3]))), rng)
        if len(G.verts(E)) <= 12 and rng.random() < .7:
            E = G.scrambled(rng, E, d, 1, rng.choice([0, 1, 3]), sparse=rng.random() < .3)
        add(E, d, kind)
    return res


def covers(ctx, quick, thorough, nmax=24):
    """Nets of several copies in the same places, with translations that permute the copies."""
    rng, res = ctx.rng, []
    while len(res) < ctx.scale(quick, thorough):
        d = rng.choice([2, 2, 3])
        E = rng.choice(list(G.named(d).values())) if rng.random() < .6 else G.random_net(rng, d, 3)
        if rng.random() < .3:       # two independent translations, one of which may have no lift of its own order
            E = rng.choice([E for E in G.named(d).values() if len(G.verts(E)) <= 2])
            H = rng.choice([[2, 2, 1], [2, 2, 1], [2, 4, 1], [3, 2, 1], [4, 2, 1]])[:d]
            rng.shuffle(H)
            E = G.supercell(E, [[H[i] if i == j else 0 for j in range(d)] for i in range(d)], rng)
        elif rng.random() < .75:
            E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 2, 2, 3, 4]))), rng)
        E = G.cover(E, rng)
        if len(G.verts(E)) > nmax:
            continue
        n = usable(G.scrambled(rng, E, d, 1, rng.choice([0, 1])), d, 3000, nmax)
        if n:
            n.label = "cover"
            ctx.count("nets:cover")
            res.append(n)
    return res


def more(ctx, nbig, tbig, nlarge, tlarge):
    """Bigger nets: with many symmetries, and with many vertices."""
    rng = ctx.rng
    big = []
    for i in range(ctx.scale(nbig, tbig)):       # many symmetries: big cells of symmetric nets
        d = 3 if i % 2 == 0 else 2
        k = 2 if d == 3 or i < 2 else rng.choice([2, 3])
        E = list(G.named(d).values())
        E = rng.choice([e for e in E if len(G.verts(e)) * k ** d <= (8 if i < 2 else 18)])
        H = tuple(tuple(k if a == b else 0 for b in range(d)) for a in range(d))
        if i >= 2 and rng.random() < .5:
            H = rng.choice(G.hnf_matrices(d, rng.choice([6, 8, 9])))
        E = G.supercell(E, H, rng)
        n = usable(G.scrambled(rng, E, d, 1, 1), d, 5000, 18)
        ctx.count("big" if n else "skipped:big")
        if n:
            n.label = "big"
            big.append(n)
    for i in range(ctx.scale(nlarge, tlarge)):       # more vertices than fit into a first batch, little symmetry
        d = 2 + i % 2
        E = list(rng.choice(list(G.named(d).values()) + [G.random_net(rng, d, 4)]))
        n = rng.choice([13, 14, 17, 20])
        if rng.random() < .3:
            E = G.supercell(E, rng.choice(G.hnf_matrices(d, 2)), rng)
        while len(G.verts(E)) < n:          # new vertices on edges
            todo = rng.sample(E, len(E)) if rng.random() < .5 else [rng.choice(E)]
            for e in todo[:n + 4 - len(G.verts(E))]:
                w = max(G.verts(E)) + 1
                E.remove(e)
                E += [(e[0], w, (0,) * d), (w, e[1], e[2])]
        E = G.scrambled(rng, E, d, 1, 1)
        n = usable(E, d, LIMIT, 24)
        ctx.count("large" if n else "skipped:large")
        if n:
            n.label = "large"
            big.append(n)
    return big


def run(ctx, nets, queries, extra=None, need_tree=True):
    reqs = [{"op": "graph", "dim": n.d, "edges": G.outs(n.edges), "queries": queries(n)} for n in nets]
    res = ctx.drive(G.disguise(ctx.rng, reqs, .15))
    groups = []
    for n, rq, out in zip(nets, reqs, res):
        a = G.answers(out, len(rq["queries"]))
        g = [G.graph_event(n.edges, n.d), n.place_event()]
        if need_tree:
            g.append(n.tree_event(n.t))
        for q, r in zip(rq["queries"], a):
            e = G.event(q, r, n.D)
            if q[0] in ("symmetries", "ladder_symmetries", "mul"):
                e["v"] = [{"vm": x["vm"], "em": x["em"], "m": [G.enc_vec(row, 1) for row in x["m"]]} for x in e["v"]]
            g.append(e)
        if extra:
            g += extra(n, rq, a)
        groups.append(g)
    ctx.validate("PGraphTrace", groups, reqs, weight=lambda g: sum(len(e.get("v") or []) if isinstance(e.get("v"), list) else 1 for e in g) + 20)


def check(ctx):
    ctx.model("SymDesign")
    if ctx.thorough:
        ctx.model("SymDesign", "SymDesign4")
    rng = ctx.rng

    def queries(n):
        if ctx.hooks:
            qs = [["symmetries"], ["nr_symmetries"]]
            qs += [["mul", rng.randrange(1000), rng.randrange(1000)] for _ in range(3)]
        else:
            qs = [["nr_symmetries"]]
        if rng.random() < .3 and n.t[0] < 500:
            qs.append(["closed"])
        return qs
    ns = nets(ctx, 130, 2500)
    run(ctx, ns + more(ctx, 4, 60, 6, 100) + covers(ctx, 15, 300, 18), queries)
    fr.frames(ctx, ctx.scale(60, 1200), ["symmetries"] if ctx.hooks else ["nr_symmetries"])
    if ctx.hooks:
        fr.covers(ctx, ctx.scale(60, 1200), ["nr_symmetries"])
    fr.autos(ctx, ctx.scale(80, 1500), ["symmetries"] if ctx.hooks else ["nr_symmetries"])
