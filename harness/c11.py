"""C11: minimal images."""
from . import graphs as G
from . import frames as fr
from .c08 import covers, nets, usable

MINIMAL = {2: ["sql", "hcb", "hxl", "kgm"], 3: ["pcu", "dia", "srs", "cds", "bcu"]}


def certificate(v, d):
    """Placement and edge tree of an observed image; (edges, None) when it has none,
    (edges, "large") when it is beyond what the specification can handle."""
    E = [(h, t, tuple(s)) for h, t, s in v]
    if not E or any(len(s) != d for _, _, s in E) or not G.is_net(E, d):
        return E, None
    n = G.Net(E, d)
    if not n.ok or not n.stable():
        return E, None
    n = usable(E, d, limit=4000)
    if n is None:
        return E, "large"
    V = G.verts(E)
    return E, {"verts": V, "pos": [n.P[x] for x in V], "D2": n.D, "root": n.t[1],
               "tree": [[G.out(e), p] for e, p in n.t[2]]}


def check(ctx):
    ctx.model("SymDesign", ctx.scale("SymDesign", "SymDesign4"))
    rng = ctx.rng
    items = [(n, None) for n in nets(ctx, ctx.scale(130, 1), ctx.scale(1, 2500))]
    # supercells of nets known to be minimal must give those back
    for d in (2, 3):
        for name in MINIMAL[d]:
            base = G.named(d)[name]
            cells = [B for k in ((2, 3, 4) if d == 2 else (2, 3)) for B in G.hnf_matrices(d, k)]
            for B in cells if ctx.thorough else rng.sample(cells, min(len(cells), 4)):
                E = G.supercell(base, B, rng)
                if len(G.verts(E)) > 12:
                    continue
                if rng.random() < .7:
                    E = G.scrambled(rng, E, d, 1, rng.choice([0, 2]))
                n = usable(E, d)
                if n:
                    items.append((n, base))
            # long orbits
            for _ in range(ctx.scale(1, 4)):
                k = rng.choice([x for x in (5, 6, 7, 8, 9, 10, 12, 16) if 8 <= x * len(G.verts(base)) <= 20 or x == 5])
                E = G.supercell(base, rng.choice(G.hnf_matrices(d, k)), rng)
                n = usable(G.scrambled(rng, E, d, 1, rng.choice([0, 2])), d, nmax=20)
                if n:
                    items.append((n, base))
            # long orbits in order: most of the orbit spans a line or plane only
            k = 8 if len(G.verts(base)) == 1 else 5
            if len(G.verts(base)) <= 2:
                M = [[2, 0], [0, k]] if d == 2 else [[2, 0, 0], [0, 1, 0], [0, 0, k]]
                if rng.random() < .5:
                    M[0][-1] = rng.randrange(k)
                n = usable(G.supercell(base, M), d, nmax=20)
                if n:
                    items.append((n, base))
    items += [(n, None) for n in covers(ctx, 25, 500, 16)]
    cost = lambda n: n.t[0] * len(n.edges)
    items = [x for x in items if x[1] or cost(x[0]) <= ctx.scale(12000, 10 ** 9)]
    reqs = [{"op": "graph", "dim": n.d, "edges": G.outs(n.edges),
             "queries": [["translational_orbits"], ["minimal_image"]]} for n, _ in items]
    res = ctx.drive(G.disguise(ctx.rng, reqs, .15))
    groups, wt = [], {}
    for (n, base), rq, out in zip(items, reqs, res):
        orb, img = G.answers(out, 2)
        g = [G.graph_event(n.edges, n.d), n.place_event(), n.tree_event(n.t)]
        e = {"op": "minimal_image", "r": img["r"], "v": img["v"] if img["r"] == "ok" else [], "placed": 0}
        cert = None
        if img["r"] == "ok" and img["v"]:
            ctx.count("images")
            E, cert = certificate(img["v"][0], n.d)
            if cert == "large":
                ctx.count("images too large to judge")
                groups.append([])
                continue
            if cert:
                e.update(cert, placed=1)
        g.append(e)
        if base:
            b = usable(base, n.d)
            if cert:
                V1, V2 = G.verts(E), G.verts(base)
                g.append({"op": "same_net", "r": "ok", "v": [], "e1": G.outs(E), "e2": G.outs(G.canon_set(base)),
                          "verts1": V1, "pos1": cert["pos"], "D1": cert["D2"], "verts2": V2,
                          "pos2": [b.P[v] for v in V2], "D2": b.D, "tree": cert["tree"], "root": cert["root"]})
            else:
                g.append({"op": "is_minimal", "r": "no image of a supercell", "v": []})
        wt[id(g)] = cost(n) // 300
        groups.append(g)
    ctx.validate("PGraphTrace", groups, reqs, weight=lambda g: 10 + wt.get(id(g), 0))
    fr.frames(ctx, ctx.scale(90, 1800), ["minimal_image", "is_minimal"], ["minimal_image"])
    fr.covers(ctx, ctx.scale(60, 1200), ["minimal_image", "is_minimal"])
    fr.autos(ctx, ctx.scale(80, 1500), ["minimal_image"])
