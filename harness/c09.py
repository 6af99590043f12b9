"""C09: vertex and edge orbits."""
from . import frames as fr
from .c08 import covers, more, nets, run


def check(ctx):
    run(ctx, nets(ctx, 150, 3000) + more(ctx, 2, 30, 6, 100) + covers(ctx, 20, 400, 18), lambda n: [["vertex_orbits"], ["edge_orbits"]])
    fr.frames(ctx, ctx.scale(100, 2000), ["vertex_orbits", "edge_orbits"])
    if ctx.hooks:
        fr.covers(ctx, ctx.scale(60, 1200), ["vertex_orbits", "edge_orbits"])
    fr.autos(ctx, ctx.scale(100, 1500), ["vertex_orbits", "edge_orbits"])
