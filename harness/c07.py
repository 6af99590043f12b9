"""C07: barycentric placement, stability, lookups."""
from fractions import Fraction as Fr

from . import graphs as G


def inputs(ctx, quick, thorough):
    rng = ctx.rng
    res = []
    for cfg in ("GraphGen2.cfg", "GraphGen1x3.cfg") if not ctx.thorough else ("GraphGen2.cfg", "GraphGen2Deep.cfg", "GraphGen1x3.cfg"):
        gs = [E for E in G.tlc_graphs(ctx, cfg) if G.is_net(E, len(E[0][2]))]
        k = ctx.scale(150, 3000)
        ctx.count("generated:" + cfg, len(gs))
        res += [(E, len(E[0][2])) for E in (gs if len(gs) <= k else rng.sample(gs, k))]
    for d in (2, 3):
        for E in G.named(d).values():
            res += [(E, d), (G.scrambled(rng, E, d, 2, 5, sparse=True), d)]
            res.append((G.ladder(E, rng, .4), d))
            S = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 3, 4]))), rng)
            res += [(S, d), (G.scrambled(rng, S, d, 1, 3), d)]
    for i in range(ctx.scale(quick, thorough)):
        d = 2 + i % 2
        x = rng.random()
        if x < .6:
            E = G.random_net(rng, d, 6, rng.choice([1, 1, 2, 5, 200, 40000]))
        elif x < .8:        # unstable: pendant copies attached at one vertex collide
            E = G.random_net(rng, d, 3)
            v, n = rng.choice(G.verts(E)), len(G.verts(E))
            s = G.rnd_shift(rng, d, 1)
            E = E + [(v, n + 1, s), (v, n + 2, tuple(-a for a in s)), (n + 1, n + 2, G.rnd_shift(rng, d, 1))]
            if rng.random() < .5:
                E += [(v, n + 3, G.rnd_shift(rng, d, 1))]
        elif x < .9:        # larger nets with large denominators
            n = rng.randint(7, 12)
            E = G.random_graph(rng, d, n, n + d + 4, 1)
            if not G.is_net(E, d):
                continue
        elif x < .93:
            E = G.larger(rng, d, 13, 26 if rng.random() < .8 else 60)
        else:               # second order collisions: two vertices with the same neighbours
            E = G.random_net(rng, d, 3)
            n = len(G.verts(E))
            u, w = rng.choice(G.verts(E)), rng.choice(G.verts(E))
            s, t = G.rnd_shift(rng, d, 1), G.rnd_shift(rng, d, 1)
            for k in (1, 2):
                E = E + [(u, n + k, s), (w, n + k, t)]
        if G.is_net(E, d):
            res.append((E, d))
    return res


def check(ctx):
    rng = ctx.rng
    reqs, nets = [], []
    for E, d in inputs(ctx, 400, 8000):
        net = G.Net(E, d)
        if not net.ok or net.size > 2 ** 24:
            continue
        V = G.verts(E)
        qs = [["position", v] for v in V] + [["position_normalized", v] for v in V]
        es = G.directed(E)
        qs += [["edge_vector", G.out(e)] for e in (es if len(es) < 10 else rng.sample(es, 10))]
        qs += [["is_stable"], ["is_locally_stable"], ["second_order"]]
        for v in rng.sample(V, min(3, len(V))):
            inc = G.incid(E, v)
            for e in rng.sample(inc, min(3, len(inc))):
                qs.append(["by_delta", v, [str(Fr(x, net.D)) for x in G.evec(net.P, net.D, e)]])
            e = rng.choice(es)      # usually a vector of some other vertex
            qs.append(["by_delta", v, [str(Fr(x, net.D)) for x in G.evec(net.P, net.D, e)]])
            qs.append(["by_delta", v, [str(Fr(rng.randint(-3, 3), rng.choice([1, 2, net.D * 7 + 1]))) for _ in range(d)]])
        rng.shuffle(qs)
        nets.append(net)
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": qs})
    res = ctx.drive(G.disguise(ctx.rng, reqs, .15))
    groups = []
    for net, rq, out in zip(nets, reqs, res):
        a = G.answers(out, len(rq["queries"]))
        groups.append([G.graph_event(net.edges, net.d), net.place_event()] +
                      [G.event(q, r, net.D) for q, r in zip(rq["queries"], a)])
    ctx.validate("PGraphTrace", groups, reqs)
    unbounded(ctx)


PRIME = 9999991     # of the modular solver


def unbounded(ctx):
    """Denominators of any size: vertices that nearly meet, large nets, determinants divisible by the solver's prime."""
    rng = ctx.rng
    nets = []
    for i in range(ctx.scale(60, 900)):
        d = 2 + i % 2
        nets.append((G.near(rng, d, rng.choice([rng.randint(1, 14), rng.randint(15, 30)])), d))
    for i in range(ctx.scale(24, 300)):
        nets.append((G.larger(rng, 2 + i % 2, 20, rng.choice([40, 70])), 2 + i % 2))
    for i in range(ctx.scale(8, 60)):
        nets.append((G.treed(rng, 2 + i % 2, PRIME * rng.choice([1, 1, 2, 3, 7])), 2 + i % 2))
    for i in range(ctx.scale(20, 200)):
        nets.append((G.random_net(rng, 2 + i % 2, 9, rng.choice([3, 10 ** 6]), 6), 2 + i % 2))
    reqs, ask = [], []
    for E, d in nets:
        if not G.is_net(E, d):
            continue
        pos = G.placement(E, d)
        V, es = G.verts(E), G.directed(E)
        looks = []
        for _ in range(6):
            v = rng.choice(V)
            f = rng.choice(G.incid(E, v) if rng.random() < .7 else es)
            x = [pos[f[1]][i] + f[2][i] - pos[f[0]][i] for i in range(d)]
            if rng.random() < .2:
                x[0] += rng.choice([-1, 1]) * Fr(1, 10 ** rng.choice([3, 6, 9, 12, 18]))
            looks.append([v, [str(y) for y in x]])
        vs = rng.sample(es, min(len(es), 8))
        qs = [["position", v] for v in V] + [["position_normalized", v] for v in V] + [["edge_vector", G.out(f)] for f in vs]
        qs += [["by_delta"] + x for x in looks] + [["is_stable"], ["is_locally_stable"], ["second_order"]]
        ask.append((E, d, V, vs, looks))
        reqs.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": qs})
    groups = []
    for (E, d, V, vs, looks), rq, out in zip(ask, reqs, ctx.drive(reqs)):
        a = G.answers(out, len(rq["queries"]))
        bad = next((x["r"] for x in a if x["r"] != "ok"), "ok")
        e = {"op": "whole", "d": d, "edges": G.outs(E), "verts": V, "r": bad}
        if bad == "ok":
            v, n, k = [x["v"] for x in a], len(V), len(vs)
            e.update(pos=v[:n], norm=v[n:2 * n], vecs=[[G.out(f), x] for f, x in zip(vs, v[2 * n:])],
                     looks=[x + [y] for x, y in zip(looks, v[2 * n + k:])])
            e["stable"], e["local"], e["second"] = v[-3:]
        groups.append([e])
    ctx.count("placements of any denominator", len(groups))
    ctx.validate("PlaceTrace", groups, reqs, weight=lambda g: len(g[0]["edges"]))
