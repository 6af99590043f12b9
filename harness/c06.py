"""C06: shift normalisation."""
from . import graphs as G
from .c05 import inputs, large


def check(ctx):
    ctx.model("Traverse", "TraverseLine")
    if ctx.thorough:
        ctx.model("Traverse", "TraverseDeep")
    ins = inputs(ctx, 350, 6000) + large(ctx, 150, 3000)
    reqs = [{"op": "graph", "dim": d, "edges": G.outs(E), "queries": [["shift_normalized"]]} for E, d in ins]
    res = ctx.drive(G.disguise(ctx.rng, reqs, .15))
    groups = []
    for (E, d), rq, out in zip(ins, reqs, res):
        a = G.answers(out, 1)
        groups.append([G.graph_event(E, d)] + [G.event(q, r) for q, r in zip(rq["queries"], a)])
    ctx.validate("PGraphTrace", groups, reqs)
