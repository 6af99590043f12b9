"""C17: invariant forms and vectors."""
from fractions import Fraction as Fr

from . import groups as gr
from .c15 import regular


def check(ctx):
    rng = ctx.rng
    ctx.model("GroupLaws", ctx.scale("GroupLaws", "GroupLawsDeep"))
    reqs, evs = [], []

    def both(ops):
        for what in ("gram", "shift_space"):
            o = [gr.enc(x) for x in ops]
            reqs.append({"op": "group", "what": what, "ops": o})
            evs.append({"op": what, "n": len(ops[0][0]), "ops": o})
    sets = gr.table()
    for name, _, ops in ctx.scale(rng.sample(sets, min(len(sets), 80)), sets):
        both(ops if rng.random() < .2 and len(ops) <= 16 else gr.thin(rng, ops) if len(ops) <= 48 else ops[:rng.randint(2, 9)])
    for n, k in ((1, 10), (2, 150), (3, 250), (4, 40)):
        for _ in range(ctx.scale(k, 12 * k)):
            gens, _ = gr.random_gens(rng, n, 400, zero=rng.random() < .5)
            if rng.random() < .4:       # any rational basis
                T = regular(rng, n)
                t = [Fr(rng.randint(-3, 3), rng.choice([1, 2, 3])) for _ in range(n)]
                gens = [gr.conj(T, t, g) for g in gens]
            if rng.random() < .25:      # symmetries of several lattices at once: few or no invariants
                gens = gens + gr.random_gens(rng, n, 400)[0]
            both(gens)
    for name, _, ops in rng.sample(sets, ctx.scale(4, 40)):        # all the operators
        both(rng.sample(ops, len(ops)))
    for _ in range(ctx.scale(12, 120)):     # long lists where one late operator decides
        n = rng.choice([2, 3, 3, 4])
        gens, _ = gr.random_gens(rng, n, 400)
        few = gens[:1]
        late = rng.choice(gens)
        both([rng.choice(few) for _ in range(rng.randint(10, 40))] + [late] + few)
    for _ in range(ctx.scale(8, 80)):       # signed permutations in higher dimension
        n = rng.choice([5, 5, 6])
        gens = []
        for _ in range(rng.randint(1, 2)):
            s = rng.sample(range(n), n) if rng.random() < .6 else list(range(n))
            gens.append(([[Fr(rng.choice([-1, 1]) if j == s[i] else 0) for j in range(n)] for i in range(n)],
                         [Fr(0)] * n))
        both(gens)
    res = ctx.drive(reqs)
    ctx.validate("GroupTrace", [[dict(ev, r=o["r"], v=o["v"])] for ev, o in zip(evs, res)], reqs,
                 weight=lambda g: len(g[0]["ops"]) * (5 if g[0]["op"] == "gram" else 1))
