"""C22: block structure of net-description files."""
from . import c21, core

KINDS = {"begin": b"NOd", "other": b"k 1", "data": b" 2 x", "end": b" End", "endx": b"end 7", "blank": b" ",
         "comment": b"# q", "unread": b'"', "cut": b'5 "q', "bad": b"a\xff", "quoted": b'"end"', "endcut": b'end"'}
WORDS = ["CRYSTAL", "crystal", "Periodic_Graph", "TILING", "END", "end", "End", "eND", "ends", "end1", "NAME", "atom", "EDGE",
         "Edge", "\u00c9dge", "x\u00c4\u00d7y", "k\u4e2d", "GROUP", "end"]
BADBYTES = [b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xf0\x8f\xbf\xbf", b"\xc3\xa9\xa9"]


def a_line(rng):
    x = rng.random()
    ind = rng.choice(["", "", "  ", "\t"])
    if x < .2:
        return (ind + rng.choice(["end", "END", "End", "end"]) + rng.choice(["", "", "", " ", " 1", " x y", "#c", " # c", '"', ' "', "\t"])).encode()
    if x < .45:
        k = rng.choice(WORDS)
        return (ind + k + "".join(" " + c21.token(rng) for _ in range(rng.choice([0, 0, 1, 2, 3])))).encode()
    if x < .7:
        return (ind + " ".join(c21.number(rng) for _ in range(rng.choice([1, 1, 2, 3]))) + rng.choice(["", "", " # x"])).encode()
    if x < .78:
        return (ind + rng.choice(["", "# comment", "#", " "])).encode()
    if x < .84:
        return (ind + rng.choice(['"', '"abc', '1 "', 'k "', '""', "'a'", '1x', 'a"b c'])).encode()
    if x < .9:
        b = bytearray(rng.choice([b"", b"a ", b"k 1 ", b"1 "]))
        return bytes(b + rng.choice(BADBYTES) + rng.choice([b"", b"x", b" 1"]))
    return c21.line(rng).replace("\n", "").replace("\r", "").encode()


def a_file(rng):
    ls = []
    for _ in range(rng.choice([0, 1, 2, 4, 7, 12, 20])):
        if ls and rng.random() < .12:
            ls.append(rng.choice(ls))
        else:
            ls.append(a_line(rng))
    nl = rng.choice([b"\n", b"\n", b"\r\n"])
    t = nl.join(ls)
    if ls and rng.random() < .7:
        t += nl
    return t


def event(op, data, o, failed=False):
    return {"op": op, "bytes": list(data), "failed": failed, "r": o["r"], "v": o["v"]}


def plain(ctx, datas, ops, hooks=True):
    reqs = [{"op": op, "hex": d.hex()} for d in datas for op in ops]
    evs = [event(op, d, None or {"r": "", "v": []}) for d in datas for op in ops]
    for ev, o in zip(evs, ctx.drive(reqs)):
        ev["r"], ev["v"] = o["r"], o["v"]
    return reqs, evs


def bare(v):
    """Without the quoted lines themselves."""
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items() if k != "content"}
    return [bare(x) for x in v] if isinstance(v, list) else v


def check(ctx):
    rng = ctx.rng
    out = ctx.model("BlockGen", ctx.scale("BlockGen", "BlockGenDeep"), timeout=850)
    walks = core.generated(out)
    if ctx.thorough:
        walks = rng.sample(walks, 60000)
    datas = []
    for w in walks:
        t = b"\n".join(KINDS[k] for k in w)
        datas.append(t + b"\n" if w and (KINDS[w[-1]] == b"" or rng.random() < .5) else t)
    more = [a_file(rng) for _ in range(ctx.scale(2500, 30000))]
    for n in [40, 70, 150, 300, 300] + [600] * ctx.scale(1, 10):       # many lines, some of them in long blocks
        short = [b"", b"1", b"k", b"-2", b"a 3", b"#", b"end", b'"']
        w = rng.choice([[1] * 8, [1, 9, 3, 9, 3, 1, .05, .5]])
        more.append(b"\n".join(rng.choices(short, w, k=n)) + b"\n")
    if not ctx.hooks:
        ctx.assumptions.append("entries are private without the hooks: only termination was judged")
    r1, e1 = plain(ctx, datas, ["blocks"])
    r2, e2 = plain(ctx, more, ["blocks", "lines"])
    reqs, evs = r1 + r2, e1 + e2
    if not ctx.hooks:
        bad = [e for e in evs if e["r"] != "ok"]
        evs, reqs = bad, []
    for size in ctx.scale([70000, 2100000], [70000, 140000, 2100000, 17000000]) if ctx.hooks else []:
        fill = rng.choice([b"x", b" ", b'"', b"1 "])
        d = b"CRYSTAL # c\n NAME a # @\n EDGE 1 2\n# @\n 3 4 # @\nEND # @\nFOO\n 1\nEND\n"
        pair = [d.replace(b"@", fill * (size // len(fill) // 4)), d.replace(b"@", b"")]
        for op in ("blocks", "lines"):
            a, b = ctx.drive([{"op": op, "hex": x.hex()} for x in pair], timeout=120)
            evs.append({"op": "twin", "bytes": [], "r": a["r"], "v": bare(a["v"]), "other": bare(b["v"])})
            reqs.append({"op": op, "hex": pair[1].hex()})
    ctx.validate("BlockTrace", [[e] for e in evs], reqs or None, weight=lambda g: len(g[0]["bytes"]) + 5)
