"""C01: union-find."""
from . import core

def gen(ctx, cfg, simulate=None, depth=None):
    extra = ["-deadlock"]
    if simulate:
        extra += ["-depth", str(depth), "-seed", str(ctx.seed)]
    out, rc = core.tlc("PartitionGen.tla", cfg, workers=1, simulate=simulate, extra=extra)
    res = core.generated(out)
    if not res:
        raise core.ToolError("no behaviours generated\n" + out[-2000:])
    return res


def check(ctx):
    ctx.model("PartitionImpl", ctx.scale("PartitionImpl", "PartitionImplDeep"))
    hists = gen(ctx, "PartitionGen.cfg")
    ctx.count("generated_exhaustive_histories", len(hists))
    sim = gen(ctx, "PartitionGenSim.cfg", simulate=f"num={ctx.scale(6, 100)}", depth=26)
    ctx.count("generated_simulated_histories", len(sim))
    rng = ctx.rng
    reqs = []
    for i, h in enumerate(hists):
        ops = [o for o in h]
        ops += [["f", x] for x in (1, 2, 3, 4)]
        ops.append(["c", [4, 1, 3, 2, 1]])
        reqs.append({"op": "partition", "ty": ["str", "dull", "list", "int", "int", "int", "int"][i % 7], "ops": ops})
    for i, h in enumerate(sim):
        ops = []
        for o in h:
            ops.append(o)
            if rng.random() < .3:
                xs = list(range(1, 12))
                rng.shuffle(xs)
                ops.append(["c", xs[: rng.randrange(0, 12)] + xs[:2]])
        reqs.append({"op": "partition", "ty": ["int", "str", "dull", "list"][i % 4], "ops": ops})
    # long random histories: deep trees, many elements, equal-rank unions
    for i in range(ctx.scale(60, 600)):
        n = rng.choice([12, 20, 40])
        names = [rng.randrange(-1000, 1000) for _ in range(n)]
        ops = []
        for _ in range(rng.choice([30, 80, 120])):
            x = rng.random()
            if x < .5:
                ops.append(["u", rng.choice(names), rng.choice(names)])
            elif x < .9:
                ops.append(["f", rng.choice(names)])
            else:
                ops.append(["c", [rng.choice(names) for _ in range(rng.randrange(0, n))]])
        ops.append(["c", names])
        reqs.append({"op": "partition", "ty": ["int", "dull", "int", "list"][i % 4], "ops": ops})
    for i in range(ctx.scale(3, 30)):       # hundreds of elements
        n = rng.choice([150, 300, 600])
        names = rng.sample(range(-10 ** 6, 10 ** 6), n)
        order = rng.choice(["chain", "back", "random", "star"])
        prs = [(names[j], names[j + 1]) for j in range(n - 3)]
        if order == "back":
            prs.reverse()
        elif order == "random":
            rng.shuffle(prs)
        elif order == "star":
            prs = [(names[j], names[0]) for j in range(1, n - 3)]
        ops = [["u"] + (list(p) if rng.random() < .5 else list(p)[::-1]) for p in prs if rng.random() < .97]
        ops += [["f", x] for x in rng.sample(names, 40)] + [["c", names], ["c", rng.sample(names, n // 2)]]
        reqs.append({"op": "partition", "ty": "int", "ops": ops})
    # binomial trees: only unions of equal rank, then finds from the deepest elements
    for k in (3, 4, 5):
        n = 1 << k
        ops, step = [], 1
        while step < n:
            ops += [["u", i, i + step] for i in range(0, n, 2 * step)]
            step *= 2
        ops += [["f", i] for i in reversed(range(n))] + [["u", n, 0], ["c", list(range(n + 2))]]
        reqs.append({"op": "partition", "ty": "int", "ops": ops})
    # classes of very different ranks: a deep tree meets singletons and small trees, on either side
    for k in range(2, ctx.scale(6, 8)):
        for small in range(0, k):
            for side in [0, 1] * 3:
                names = rng.sample(range(-5000, 5000), (1 << k) + (1 << small) + 3)
                big, sm, rest = names[:1 << k], names[1 << k:-3], names[-3:]
                ops = []
                # first met in any order: roots may be older or younger than what joins them
                ops += [["f", z] for z in rng.choice([[], sm, big[:1], rng.sample(names, len(names))])]
                for t in (big, sm):
                    step = 1
                    while step < len(t):
                        prs = [[t[i], t[i + step]] for i in range(0, len(t), 2 * step)]
                        ops += [["u"] + (p if rng.random() < .5 else p[::-1]) for p in prs]
                        step *= 2
                x, y = rng.choice(big), rng.choice(sm)
                ops.append(["u", x, y] if side else ["u", y, x])
                ops += [["f", x], ["f", y], ["f", rng.choice(big)], ["f", rng.choice(sm)]]
                ops += [["u", rest[0], rng.choice(sm)], ["u", rng.choice(big), rest[1]], ["f", rest[0]]]
                ops.append(["c", rng.sample(names, len(names))])
                reqs.append({"op": "partition", "ty": rng.choice(["int", "dull", "list"]) if side else "str", "ops": ops})
    res = ctx.drive(reqs)
    groups = []
    for rq, out in zip(reqs, res):
        g = [{"op": "new"}]
        if isinstance(out, dict):
            g.append({"op": "f", "a": 0, "r": out["r"], "v": 0})
        else:
            for o, r in zip(rq["ops"], out):
                e = {"op": o[0], "a": o[1], "r": r["r"], "v": r["v"]}
                if o[0] == "u":
                    e["b"] = o[2]
                g.append(e)
        groups.append(g)
    ctx.validate("PartitionTrace", groups, reqs)
