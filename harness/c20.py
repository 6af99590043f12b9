"""C20: space group tables and the shipped table."""
import os

from . import c19, core
from . import groups as gr

SYSTEMS = ["oblique", "rectangular", "square", "hexagonal", "cubic", "orthorhombic", "tetragonal", "trigonal", "monoclinic", "triclinic"]
CENTRINGS = list("pcPFIRABC")
PICK = [[s, c] for s in SYSTEMS for c in CENTRINGS]
SHIPPED = os.path.join(core.REPO, "src/data/sgtable.data")


def case(rng, t):
    x = rng.random()
    return t if x < .6 else t.upper() if x < .75 else t.capitalize() if x < .9 else "".join(rng.choice([c, c.upper()]) for c in t)


def op(rng, n, plain=.7):
    if rng.random() > plain:
        return ",".join(c19.coordinate(rng, n) for _ in range(n))
    rows = []
    for i in range(n):
        t = rng.choice(["", "-"]) + "xyz"[rng.randrange(n)] if rng.random() < .3 else rng.choice(["", "-"]) + "xyz"[i]
        rows.append(t + rng.choice(["", "", "+1/2", "-1/4", "+1", "-1", "+2/3"]))
    return ",".join(rows)


def transform(rng, n):
    if rng.random() < .35:
        return ",".join("xyz"[:n])
    while True:
        t = op(rng, n, .5)
        if rng.random() < .03:
            return t
        try:
            m, _ = gr.read_op(t.replace("\t", " "))
            gr.inv([list(r) for r in m])
            return t
        except (StopIteration, ZeroDivisionError, IndexError):
            continue


def a_name(rng, used):
    """A name that is not in use; any text without blanks is one."""
    while True:
        n = rng.choice([1, 2, 2, 3, 4, 6, 10, 25])
        t = "".join(rng.choice("PpRrIiFabcmn0123456789" if rng.random() < .6 else ":::/-_+*,.;'\"()[]{}#=&|<>!?%$@~^\\\u00e9\u00df\u0130\u03a3\u4e2d\U0001d11e") for _ in range(n))
        if t[0] != "#" and t not in used and t.lower() not in ("alias", "lookup"):
            used.add(t)
            return t


def a_table(rng):
    used = set()
    n = rng.choice([1, 2, 3, 3])
    out, k = [], 0
    if rng.random() < .93:
        out.append(f"G{k} " + ",".join("xyz"[:n]))
        k += 1
    bad = rng.random() < .25
    for _ in range(rng.choice([0, 2, 5, 9, 16])):
        x = rng.random()
        if x < .25:
            if rng.random() < .2:
                n = rng.choice([1, 2, 3])
            nm = rng.choice(["P", "p4:", "I-", "R3:", "\u00e9", "alias", "x,", "Lookup"]) + str(k)
            if rng.random() < .5 or nm in used:
                nm = a_name(rng, used)
            used.add(nm)
            out.append(nm + rng.choice([" ", "  ", "\t", " \t "]) + transform(rng, n))
            k += 1
        elif x < .65:
            out.append(rng.choice([" ", "  ", "    ", " \t"]) + op(rng, n) + rng.choice(["", "", " ", "\t"]))
        elif x < .75:
            nm = f"a{k}.{len(out)}" if rng.random() < .5 else a_name(rng, used)
            out.append(case(rng, "alias") + f" {nm} " + rng.choice([f"G{k - 1}", "nowhere", a_name(rng, set())] + [x.split()[1] for x in out if x[:5].lower() == "alias" and len(x.split()) > 1]))
        elif x < .87:
            out.append(" ".join([case(rng, "lookup"), rng.choice([f"L{len(out)}", a_name(rng, set())]), case(rng, rng.choice(SYSTEMS[:4] if rng.random() < .7 else SYSTEMS)),
                                 rng.choice(CENTRINGS[:3] if rng.random() < .7 else CENTRINGS), transform(rng, n)]))
        elif x < .95:
            out.append(rng.choice(["", "  ", "# x", "  # alias a", "#", "\u00a0"]))
        elif bad:
            out.append(rng.choice(["  x,?", "alias", "alias q", "lookup", "lookup a cubic", "lookup a cubic P", "lookup a cubi P x,y,z", "lookup a cubic p1 x,y,z",
                                   "lookup a cubic P x,x,x", "S", "S x,x", "S x,,y", "  x,y,z,x", "  1/0", "", "lookup a Cubic P x+,y,z", "alias q G0 extra", "S? y,x z",
                                   "  " + c19.mutate(rng, op(rng, n)).replace("\n", "")]))
    t = rng.choice(["\n", "\n", "\r\n"]).join(out)
    return (t + "\n" if rng.random() < .7 else t).encode()


def shipped_parts():
    """The shipped table cut before canonical settings; aliases and lookups in pieces of their own."""
    parts, cur = [], []
    for line in open(SHIPPED, "rb"):
        t = line.decode().split()
        head = not line[:1].isspace() and t and not t[0].startswith("#")
        if head and t[0].lower() in ("alias", "lookup"):
            if cur and (cur[0].split()[:1] == [b"#"] or len(cur) >= 40 or not cur[0].lower().startswith((b"alias", b"lookup"))):
                parts.append(cur)
                cur = []
        elif head and t[1:] in (["x"], ["x,y"], ["x,y,z"]):
            parts.append(cur)
            cur = []
        cur.append(line)
    parts.append(cur)
    return [b"".join(p) for p in parts if p]


def names_of(part):
    out = []
    for line in part.decode().splitlines():
        if line.strip() and not line[0].isspace() and line[0] != "#" and line.split()[0].lower() not in ("alias", "lookup"):
            out.append(line.split()[0])
    return out


def shipped(ctx):
    rng = ctx.rng
    data = open(SHIPPED, "rb").read()
    o = ctx.drive([{"op": "table", "hex": data.hex(), "pick": PICK}], timeout=120)[0]
    if o["r"] != "ok" or not o["v"]:
        return [{"op": "table", "bytes": [], "pick": [], "r": o["r"], "v": []}]
    v = o["v"][0]
    txt = lambda c: "".join(map(chr, c))
    lines = {txt(k): ls for k, ls in v["settings"]}
    evs, due = [], 0
    parts = shipped_parts()
    low, allal = [], []
    for p in parts:
        ns = names_of(p)
        due += len(ns)
        ls = [x.split() for x in p.decode().splitlines()]
        al = [x for x in ls if x and x[0].lower() == "alias"]
        lk = [x for x in ls if x and x[0].lower() == "lookup"]
        i = len(low)
        low += lk
        allal += al
        evs.append({"op": "table", "bytes": list(p), "pick": [], "r": "ok", "v": [{
            "settings": [[[ord(c) for c in n], lines.get(n, [])] for n in ns],
            "alias": [a for a in v["alias"] if txt(a[0]) in {x[1] for x in al}],
            "lookup": v["lookup"][i:i + len(lk)], "picked": []}]})
        # a part with a canonical setting of its own is a table of its own
    evs.append({"op": "count", "r": "ok", "have": [len(v["settings"]), len(v["alias"]), len(v["lookup"])], "due": [due, len(allal), len(low)]})
    # the lookups of the whole file
    only = b"".join(x for p in parts for x in p.splitlines(True) if x.lower().startswith(b"lookup"))
    evs.append({"op": "table", "bytes": list(only), "pick": PICK, "r": "ok", "v": [{
        "settings": [], "alias": [], "lookup": v["lookup"], "picked": v["picked"]}]})
    # laws
    def row(n, p):
        return next((txt(x)[len(p):] for x in lines[n] if txt(x).startswith(p)), "")
    order = [n for p in parts for n in names_of(p)]
    chosen = order if ctx.thorough else sorted(rng.sample(order, 180))
    for n in chosen:
        if n not in lines:
            continue
        k = next((i for i, x in enumerate(lines[n]) if txt(x).startswith("Operators:")), None)
        if k is None:
            continue
        ops = [gr.modz(gr.read_op(txt(x))) for x in lines[n][k + 1:]]
        gens, have = [], {gr.ident(len(ops[0][0]))} if ops else set()
        for i, g in sorted(enumerate(ops), key=lambda x: rng.random()):
            if g not in have:
                gens.append(i + 1)
                have = gr.closure([ops[j - 1] for j in gens]) or set()
        canon = row(n, "Group name: ")
        evs.append({"op": "group", "r": "ok", "lines": lines[n], "gens": gens})
        evs.append({"op": "transform", "r": "ok", "lines": lines[n], "canon": lines.get(canon, []), "gens": gens})
    names = [[ord(c) for c in n] for n in lines]
    for a, b in v["alias"]:
        evs.append({"op": "named", "r": "ok", "open": True, "name": b, "settings": names})
    looked = []
    for x in v["lookup"]:
        nm = next((y[13:] for y in x if txt(y).startswith("Lookup name: ")), [])
        evs.append({"op": "named", "r": "ok", "open": False, "name": nm, "settings": names})
        if txt(nm) in lines:
            evs.append({"op": "looked", "r": "ok", "entry": x, "lines": lines[txt(nm)]})
            looked.append([ord(c) for c in row(txt(nm), "Group name: ")])
    groups = {row(n, "Group name: ") for n in lines if row(n, "Transform: ").count(",")}
    evs.append({"op": "cover", "r": "ok", "groups": [[ord(c) for c in g] for g in sorted(groups)], "looked": looked})
    return evs


def twins(ctx, rng):
    """Long tables: most of the text is blank or comment."""
    evs = []
    for size in ctx.scale([70000, 1100000, 3000000], [70000, 140000, 1100000, 3000000, 20000000]):
        d = b"G0 x,y,z\n  x,y,z\n@  -x,y+1/2,z\n@P2 y,x,z\n  x,y,z\n@alias Q P2\nlookup P2 cubic P x,y,z\n@  z,x,y\n"
        fill = rng.choice([b"\n", b"# comment\n", b"   \n", b"#" + b"x" * size + b"\n", b" " * size + b"\n"])
        a, b = ctx.drive([{"op": "table", "hex": x.hex(), "pick": []} for x in (d.replace(b"@", fill * (size // len(fill) // 4 + 1)), d.replace(b"@", b""))], timeout=120)
        evs.append({"op": "twin", "size": size, "r": a["r"], "v": a["v"], "other": b["v"]})
    return evs


def check(ctx):
    rng = ctx.rng
    out = ctx.model("TableGen", ctx.scale("TableGen", "TableGenDeep"), timeout=850)
    datas = [bytes(t) for t in core.generated(out)]
    rng.shuffle(datas)
    datas = datas[:ctx.scale(5000, 60000)]
    datas += [a_table(rng) for _ in range(ctx.scale(1500, 20000))]
    reqs, evs = [], []
    for d in datas:
        lk = [x.split() for x in d.decode().splitlines() if x.lower().startswith("lookup")]
        pick = [[x[2], x[3]] for x in lk if len(x) > 4 and x[2].lower() in SYSTEMS and x[3] in CENTRINGS]
        pick = [[a.lower(), b] for a, b in pick][:4] + [[rng.choice(SYSTEMS), rng.choice(CENTRINGS)]]
        reqs.append({"op": "table", "hex": d.hex(), "pick": pick})
        evs.append({"op": "table", "bytes": list(d), "pick": pick})
    for what, good in (("system", SYSTEMS), ("centering", CENTRINGS)):
        for t in good + ["", "x", "cubi", "cubics", "cubic ", " P", "PP", "\u00e9", "p ", "a", "b", "f", "i", "r", "T", "S", "rhombohedral"]:
            for u in {t, t.upper(), t.capitalize(), t.swapcase()}:
                reqs.append({"op": "names", "what": what, "cps": [ord(c) for c in u]})
                evs.append({"op": "names", "what": what, "cps": [ord(c) for c in u]})
    for ev, o in zip(evs, ctx.drive(reqs)):
        ev["r"], ev["v"] = o["r"], o["v"]
    more = shipped(ctx) + twins(ctx, rng)
    ctx.validate("TableTrace", [[e] for e in evs + more], reqs + [None] * len(more),
                 weight=lambda g: {"group": 12, "transform": 25, "looked": 12, "named": 1, "twin": 1}.get(g[0]["op"], 1) * (len(g[0].get("bytes", g[0].get("lines", []))) + 5))
