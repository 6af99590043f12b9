"""C10: translational equivalence, minimality, ladders."""
from . import graphs as G
from . import frames as fr
from .c08 import covers, more, nets, run, usable


def supers(ctx):
    """Doubled and tripled cells of nets with many vertices, each translation moving all of them."""
    rng, res = ctx.rng, []
    for i in range(ctx.scale(8, 80)):
        d = 2 + i % 2
        while True:
            E = G.random_net(rng, d, 9)
            if len(G.verts(E)) >= 5:
                break
        E = G.supercell(E, rng.choice(G.hnf_matrices(d, rng.choice([2, 2, 3]))), rng)
        n = usable(E, d, 4000, 24)
        ctx.count("doubled" if n else "skipped:doubled")
        if n:
            n.label = "doubled"
            res.append(n)
    for i in range(ctx.scale(8, 60)):       # many ladder symmetries' worth of vertices: big cells of small ladders
        d = 2 + i % 2
        base = rng.choice([E for E in G.named(d).values() if len(G.verts(E)) == 1])
        E = G.ladder(base, rng, rng.choice([0, 0, .3]))
        k = rng.choice([5, 6, 7, 8, 9, 10])
        E = G.scrambled(rng, G.supercell(E, rng.choice(G.hnf_matrices(d, k)), rng), d, 1, 1)
        n = usable(E, d, 4000, 24)
        ctx.count("long ladders" if n else "skipped:long ladders")
        if n:
            n.label = "long ladder"
            res.append(n)
    return res


def check(ctx):
    ctx.model("SymDesign", ctx.scale("SymDesign", "SymDesign4"))
    def queries(n):
        qs = [["translational_orbits"], ["is_minimal"], ["is_ladder"], ["nr_ladder_symmetries"]]
        return qs + ([["ladder_symmetries"]] if ctx.hooks else [])
    run(ctx, nets(ctx, 200, 3500) + more(ctx, 2, 30, 6, 100) + supers(ctx) + covers(ctx, 60, 800), queries)
    fr.frames(ctx, ctx.scale(90, 1800), ["translational_orbits", "is_minimal", "is_ladder", "nr_ladder_symmetries"], ["translational_orbits"])
    fr.covers(ctx, ctx.scale(60, 1200), ["translational_orbits", "is_minimal", "is_ladder"])
    fr.autos(ctx, ctx.scale(80, 1500), ["translational_orbits", "is_minimal", "is_ladder", "nr_ladder_symmetries"])
