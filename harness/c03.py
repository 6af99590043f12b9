"""C03: answers do not depend on the history of queries."""
import json

from . import core, graphs as G

UNORDERED = {"symmetries", "ladder_symmetries"}


def histories(ctx, cfg, simulate=None):
    extra = ["-deadlock"] + (["-depth", "15", "-seed", str(ctx.seed)] if simulate else [])
    out, rc = core.tlc("GraphCache.tla", cfg + ".cfg", workers=1, simulate=simulate, extra=extra)
    res = core.generated(out)
    if not res or ("is violated" in out):
        raise core.ToolError("GraphCache:\n" + out[-2000:])
    gen, dist = core.stats(out)
    ctx.states += dist
    ctx.transitions += gen
    ctx.models.append({"module": "GraphCache", "cfg": cfg, "states": dist, "transitions": gen})
    return res


def concrete(rng, step, E, d, net):
    """A query of the given kind on vertex 1 or 2 of the model (any two real ones)."""
    k, v = step
    V = G.verts(E)
    x = V[(v * 7 - 7) % len(V)] if len(V) > 1 else V[0]
    if rng.random() < .06 and k in ("incidences", "position", "position_normalized", "component", "coordination", "by_delta"):
        x = rng.choice([0, V[-1] + 1, 77])      # no vertex of the graph
    if k in ("incidences", "position", "position_normalized", "component"):
        return [k, x]
    if k == "coordination":
        return [k, x, 3]
    if k == "edge_vector":
        e = rng.choice(G.directed(E))
        if rng.random() < .1:                   # no edge of the graph
            e = (e[0], rng.choice(V), tuple(x + 1 for x in e[2]))
        return [k, G.out(e)]
    if k == "by_delta":
        e = rng.choice(G.incid(E, x if x in V else V[0]))
        if rng.random() < .1:
            return [k, x, ["1/7"] * d]
        if net:
            vec = [str(a + s - b) for a, s, b in zip(net.pos[e[1]], e[2], net.pos[e[0]])]
        else:
            vec = [str(s) for s in e[2]]
        return [k, x, vec]
    return [k]


def check(ctx):
    rng = ctx.rng
    hs = histories(ctx, "GraphCache" if not ctx.thorough else "GraphCacheDeep")
    ctx.count("generated_histories", len(hs))
    if len(hs) > 12000:
        hs = rng.sample(hs, 12000)
    sims = histories(ctx, "GraphCacheSim", f"num={ctx.scale(40, 400)}")
    # small nets: stable, unstable, ladders, disconnected ones
    pool = []
    for d in (2, 3):
        for E in G.named(d).values():
            pool.append((E, d))
            if len(E) <= 4:
                pool.append((G.scrambled(rng, E, d), d))
                pool.append((G.ladder(E), d))
            pool.append((G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 2, 3]))), rng), d))
        for E in rng.sample(list(G.named(d).values()), min(ctx.scale(3, 8), len(G.named(d)))):     # connected, locally unstable
            n = max(G.verts(E))
            a = rng.choice(G.verts(E))
            z = (0,) * d
            twins = [(a, n + 1, z), (a, n + 2, z)]
            if rng.random() < .5:
                twins.append((n + 1, n + 2, z))
            pool.append((list(E) + twins, d))
        pool.append(([(1, 1, (1,) * d), (2, 2, (1,) * d)], d))
        pool.append(([(1, 2, (0,) * d), (1, 3, (0,) * d), (1, 1, G.rnd_shift(rng, d, 1))], d))
        for _ in range(ctx.scale(10, 60)):
            pool.append((G.random_net(rng, d, rng.choice([4, 4, 7])), d))
    for E, d in list(pool):     # positions away from the unit cell
        V = G.verts(E)
        pool.append((G.regauged(E, {v: G.rnd_shift(rng, d, 2) for v in V}), d))
    pool = [(E, d) for E, d in pool if len(G.verts(E)) <= 8]
    pool += [(G.larger(rng, 2 + i % 2, 9, 15), 2 + i % 2) for i in range(ctx.scale(6, 20))]
    sims = rng.sample(sims, min(len(sims), ctx.scale(250, 3000)))
    ctx.count("simulated_histories", len(sims))
    items = []
    for h in hs + sims * 2:
        E, d = rng.choice(pool)
        p = G.placement(E, d)
        net = G.Net(E, d) if p else None
        qs = [concrete(rng, s, E, d, net) for s in h]
        if len(h) < 6:
            # ask everything again afterwards
            qs += qs[:1] + [concrete(rng, [k, 1], E, d, net) for k in rng.sample(
                ["vertices", "incidences", "position", "edge_vector", "is_stable", "is_locally_stable",
                 "vertex_orbits", "symmetries", "minimal_image", "coordination", "display"], 3)]
        else:
            qs += rng.sample(qs, 4)
        items.append((E, d, qs))
    reqs = [{"op": "graph", "dim": d, "edges": G.outs(E), "queries": qs} for E, d, qs in items]
    # fresh copies: one object per distinct question
    fresh, order = {}, []
    for E, d, qs in items:
        for q in qs:
            key = json.dumps([d, G.outs(E), q])
            if key not in fresh:
                fresh[key] = len(order)
                order.append({"op": "graph", "dim": d, "edges": G.outs(E), "queries": [q]})
    res = ctx.drive(reqs + order)
    groups = []
    for (E, d, qs), out in zip(items, res):
        g = [{"op": "graph", "d": d, "edges": G.outs(E)}]
        seen = set()
        for q in qs:
            key = json.dumps(q)
            if key not in seen:
                seen.add(key)
                f = G.answers(res[len(reqs) + fresh[json.dumps([d, G.outs(E), q])]], 1)[0]
                g.append(ev("fresh", key, q, f))
        for q, r in zip(qs, G.answers(out, len(qs))):
            g.append(ev("later", json.dumps(q), q, r))
        groups.append(g)
    ctx.validate("PGraphTrace", groups, reqs)


def ev(op, key, q, r):
    return {"op": op, "q": key, "set": int(q[0] in UNORDERED and r["r"] == "ok"), "r": r["r"],
            "v": r["v"] if r["r"] == "ok" else []}
