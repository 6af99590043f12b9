"""C19: coordinate-triplet notation."""
from . import core

BAD = ["?", "a", "X", "Y", "**", "//", ",,", "--", "+-", "()", "\u00a0", "\u2003", "\n", "\r", "\u00bd", "\u0663", "\uff58", "1/0", "0/0x",
       "99999999999", "1e3", ".5", "0.5", "x x", "2 3", "\u2212x", "\x00", ";", "'", "w", "t", "i"]


def blank(rng, p=.25):
    return rng.choice([" ", "  ", "\t", " \t "]) if rng.random() < p else ""


def number(rng, big=False):
    return str(rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12, 36, 999]) if not big else rng.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 999999999, 10 ** 9, 10 ** 20, 46341]))


def term(rng, n, big):
    f = number(rng, big)
    if rng.random() < .5:
        d = number(rng, big)
        f += blank(rng, .1) + "/" + blank(rng, .1) + (d if rng.random() < .05 or int(d) else "2")
    a = rng.choice("xyz"[:n] if rng.random() < .97 else "xyz")
    x = rng.random()
    if x < .35:
        return a
    if x < .55:
        return f
    return f + rng.choice(["", "", "*", " ", "*", " * " if rng.random() < .3 else "*"]) + a


def coordinate(rng, n, big=False):
    s = rng.choice(["", "", "+", "-", "-"])
    out = s + (blank(rng, .2) if s else "")
    for k in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        if k:
            out += blank(rng) + rng.choice("+-") + blank(rng)
        out += term(rng, n, big and rng.random() < .4)
    return out


def triplet(rng):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4 if rng.random() < .2 else 3])
    big = rng.random() < .12
    t = (blank(rng) + "," + blank(rng)).join(coordinate(rng, min(n, 3), big) for _ in range(n))
    return blank(rng) + t + blank(rng)


def mutate(rng, t):
    for _ in range(rng.randint(1, 2)):
        i = rng.randint(0, len(t))
        x = rng.random()
        if x < .3 and t:
            t = t[:i] + t[i + 1:]
        elif x < .6:
            t = t[:i] + rng.choice("xyz+-/*,0127 ") + t[i:]
        elif x < .85:
            t = t[:i] + rng.choice(BAD) + t[i:]
        else:
            j = rng.randint(0, len(t))
            t = t[:min(i, j)] + t[max(i, j):]
    return t


def cps(t):
    return [ord(c) for c in t]


def text(c):
    return "".join(map(chr, c))


def printed(ctx, texts):
    """Operators through the table: as printed, and read back by the code."""
    rng = ctx.rng
    by, reqs, meta = {}, [], []
    for t in texts:
        n = t.count(",") + 1
        if not any(c in t for c in "\n\r") and t.strip() and not t.lstrip().startswith("#"):
            by.setdefault(n, []).append(t)
    for n, ts in by.items():
        if n > 3:
            continue
        for i in range(0, len(ts), 12):
            part = ts[i:i + 12]
            body = "g " + ",".join("xyz"[:n]) + "\n" + "".join("  " + t + "\n" for t in part)
            reqs.append({"op": "table", "hex": body.encode().hex(), "pick": []})
            meta.append(part)
    evs = []
    again = []
    for part, o in zip(meta, ctx.drive(reqs)):
        lines = []
        if o["r"] == "ok" and o["v"] and o["v"][0]["settings"]:
            lines = o["v"][0]["settings"][0][1]
            k = [i for i, c in enumerate(lines) if text(c).startswith("Operators")]
            lines = lines[k[0] + 1:] if k else []
        for i, t in enumerate(part):
            p = lines[i] if len(lines) == len(part) else []
            evs.append({"op": "print", "cps": cps(t), "r": o["r"], "printed": p})
            again.append({"op": "operator", "what": "affine", "cps": p})
    for ev, o in zip(evs, ctx.drive(again)):
        ev["back"] = o["v"] if o["r"] == "ok" else []
    return evs


def check(ctx):
    rng = ctx.rng
    out = ctx.model("OperatorGen", ctx.scale("OperatorGen", "OperatorGenDeep"))
    walks = [text(c) for c in core.generated(out)]
    rng.shuffle(walks)
    good = [triplet(rng) for _ in range(ctx.scale(2500, 30000))]
    bad = [mutate(rng, rng.choice(good)) for _ in range(ctx.scale(2500, 30000))]
    n = ctx.scale(15000, 200000)
    reqs, evs = [], []

    def add(what, t):
        reqs.append({"op": "operator", "what": what, "cps": cps(t)})
        evs.append({"op": what, "cps": cps(t)})
    for t in walks[:n] + good + bad:
        add("affine", t)
    for t in walks[:n // 5] + good + bad:
        add("parse", t)
    for t in walks[:n // 20] + good + bad:
        add("coord", t)
    res = ctx.drive(reqs)
    evs = [dict(ev, r=o["r"], v=o["v"]) for ev, o in zip(evs, res)]
    fine = [text(ev["cps"]) for ev in evs if ev["op"] == "affine" and ev["r"] == "ok" and ev["v"]]
    rng.shuffle(fine)
    pr = printed(ctx, fine[:ctx.scale(2000, 20000)])
    ctx.validate("OperatorTrace", [[ev] for ev in evs + pr], reqs + [None] * len(pr), weight=lambda g: len(g[0]["cps"]) + 3)
