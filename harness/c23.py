"""C23: operator details, crystal systems of plane groups."""
from fractions import Fraction as Fr

from . import algebra as al
from . import core
from . import groups as gr
from .c15 import regular

INF3 = [[[1, 1, 0], [0, 1, 0], [0, 0, 1]]]


def check(ctx):
    rng = ctx.rng
    out = ctx.model("FinderGen", ctx.scale("FinderGen", "FinderGenDeep"))
    gen = core.generated(out)
    if not ctx.hooks:
        return
    mats, grps = [], []
    for g in gen:
        ms = [[[Fr(x) for x in r] for r in m] for m in g["ms"]]
        if g["kind"] == "op":
            mats += ms
        else:
            grps.append(ms)
            mats.append(rng.choice(ms))
    # operators of dimension 1 to 3 in any basis
    for n, k in ((1, 4), (2, 120), (3, 400)):
        for _ in range(ctx.scale(k, 8 * k)):
            m = rng.choice(rng.choice(gr.holohedries()[n]))
            x = rng.random()
            if x < .7:
                T = [[Fr(v) for v in r] for r in al.unimod(rng, n, rng.randint(1, 5))] if x < .5 else regular(rng, n)
                m = gr.conj(T, (Fr(0),) * n, (m, (Fr(0),) * n))[0]
            mats.append(m)
    reqs, evs, groups, greqs = [], [], [], []
    for m in mats:
        for a in (m, gr.inv([list(r) for r in m])):
            reqs.append({"op": "finder", "what": "details", "a": al.mat(al.treq(a))})
    res = ctx.drive(reqs)
    for i, m in enumerate(mats):
        o, p = res[2 * i], res[2 * i + 1]
        bad = [q["r"] for q in (o, p) if q["r"] != "ok"]
        groups.append([{"op": "details", "a": al.treq(m), "r": bad[0] if bad else "ok", "v": o["v"], "i": p["v"]}])
        greqs.append(reqs[2 * i])
    # plane groups: every subgroup, shuffled, some operators repeated as in lists with centrings
    for _ in range(ctx.scale(500, 6000)):
        ms = rng.choice(grps)
        x = rng.random()
        if x < .5:
            T = [[Fr(v) for v in r] for r in al.unimod(rng, 2, rng.randint(1, 6))] if x < .35 else regular(rng, 2)
            ms = [gr.conj(T, (Fr(0),) * 2, (m, (Fr(0),) * 2))[0] for m in ms]
        grps.append(ms)
    sreqs = []
    for ms in grps:
        ms = list(ms)
        if rng.random() < .7:
            rng.shuffle(ms)
        if rng.random() < .3:
            ms = [m for m in ms for _ in range(2)]
            if rng.random() < .5:
                rng.shuffle(ms)
        evs.append({"op": "system", "ms": [al.treq(m) for m in ms]})
        sreqs.append({"op": "finder", "what": "system", "ms": [al.mat(al.treq(m)) for m in ms]})
    for rq, ev, o in zip(sreqs, evs, ctx.drive(sreqs)):
        groups.append([dict(ev, r=o["r"], v=o["v"])])
        greqs.append(rq)
    ctx.validate("FinderTrace", groups, greqs)
