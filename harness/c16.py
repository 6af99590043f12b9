"""C16: group generation modulo Z, primitive settings."""
from fractions import Fraction as Fr

from . import groups as gr


def check(ctx):
    rng = ctx.rng
    ctx.model("GroupGen", ctx.scale("GroupGen", "GroupGenDeep"))
    reqs, evs = [], []

    def add(what, ops):
        o = [gr.enc(x) for x in ops]
        reqs.append({"op": "group", "what": what, "ops": o})
        evs.append({"op": what, "n": len(ops[0][0]), "ops": o})

    def both(gens, full):
        add("generate", gens)
        if ctx.hooks:
            full = sorted(full)
            if rng.random() < .7:
                rng.shuffle(full)
            if rng.random() < .3:       # other representatives modulo Z
                full = [(m, tuple(x + rng.randint(-2, 2) for x in s)) for m, s in full]
            add("primitive", full)
    sets = gr.table()
    large = [x for x in sets if len(x[2]) > 48]
    for name, _, ops in ctx.scale(rng.sample(sets, min(len(sets), 45)) + rng.sample(large, min(len(large), 3)), sets):
        full = gr.closure(ops)
        if full is None:
            continue
        gens = gr.thin(rng, ops)
        if rng.random() < .5:           # representatives with any integral shift, of either sign
            gens = [(m, tuple(x + rng.randint(-2, 2) for x in s)) for m, s in gens]
        both(gens, full)
    for n, k in ((1, 12), (2, 90), (3, 60), (4, 20)):
        for _ in range(ctx.scale(k, 8 * k)):
            both(*gr.random_gens(rng, n, ctx.scale(60, 200)))
    for n, lim in ctx.scale([(4, 400), (3, 400)], [(4, 400)] * 12 + [(3, 1500)] * 12):       # hundreds of operators
        while True:
            gens, full = gr.random_gens(rng, n, lim, n == 3)
            if len(full) > 64 and (n == 3 or len({m for m, _ in full}) > 64):
                break
        both(gens, full)
    res = ctx.drive(reqs, timeout=60)
    groups = [[dict(ev, r=o["r"], v=o["v"])] for ev, o in zip(evs, res)]
    ctx.validate("GroupTrace", groups, reqs, weight=lambda g: 1 + len(g[0]["v"] if g[0]["op"] == "generate" else g[0]["ops"]) * (4 if g[0]["op"] == "primitive" else len(g[0]["ops"])))
