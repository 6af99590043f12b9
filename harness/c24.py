"""C24: hostile text and failing readers."""
from . import c19, c20, c21, c22, core

KINDS = ["other", "invalid", "eof", "wouldblock", "reset"]
SNIPPETS = [b"x,y,z", b"-x+1/2", b"1/0", b"99999999999999999999", b"1e999", b"-1e-999", b"\"", b"\"\"", b"#", b"end\n", b"alias ", b"lookup ", b" ", b"\n", b"\r\n", b"\r", b"\0",
            b"\xff", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xe2\x80\x83", b"\xc2\xa0", b"0/0", b"2147483648", b"-2147483648/1", b"1/2147483648", b"999999999/999999999",
            b"nan", b"inf", b"+", b"-", b",", b"*", b"/", b"x,x,x", b"cubic P ", b"P1 x,y,z\n", b"  x,y,z\n", b"  -x,y\n", b"0,0,0", b"1e", b".", b"1.", b"0x1p3", b"1_0", b"k 1 2\n"]


def hostile(rng):
    x = rng.random()
    if x < .3:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 8, 30])))
    if x < .75:
        return b"".join(rng.choice(SNIPPETS) for _ in range(rng.choice([1, 2, 3, 5, 9, 20])))
    b = bytearray(c22.a_file(rng) if rng.random() < .5 else c20.a_table(rng))
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randint(0, len(b))
        y = rng.random()
        if y < .3:
            del b[i:i + rng.choice([1, 1, 3, 20])]
        elif y < .6:
            b[i:i] = rng.choice(SNIPPETS)
        elif y < .8 and i < len(b):
            b[i] ^= 1 << rng.randrange(8)
        else:
            del b[i:]
    return bytes(b)


def monsters(thorough):
    """Absurdly long inputs."""
    k = 200000 if thorough else 20000
    out = [b"9" * k, b"x+" * k + b"x", b"1/" * k, b"-" * k, b"(" * k, b"\"" * k, b"a " * k, b"1 " * k, b"1.5e3 " * k, b"0." + b"0" * k + b"1", b"1" + b"0" * k + b".",
           b"\"" + b"a" * k, b"#" * k, b" " * k, b"\t" * k + b"x", b"\xff" * k, b"\n" * k, b"\xff\n" * 500, b"end\n" * 500, b"x," * k, b"1e" + b"9" * k, b"1e-" + b"9" * k, b"x*" * k, b"\xc3\xa9" * k,
           b"alias " * k, b"lookup a cubic P " + b"x+" * k + b"y,y,z", b"P1 x,y,z\n" + b"  x,y,z\n" * 2000, b"  x,y,z\n", b"1/2+" * k + b"x", b"999999999/999999998+" * 300 + b"x",
           b"1/999999999+1/999999998+1/999999997x", b"2147483647x", b"2147483648x", b"-2147483648", b"999999999+999999999+999999999+x"]
    return out


def line_texts(data):
    return [x for x in data.decode("utf-8", "replace").split("\n")]


def check(ctx):
    rng = ctx.rng
    reqs, evs = [], []

    def add(rq, ev):
        reqs.append(rq)
        evs.append(ev)

    def faulted(op, data, chunk=None, at=None, kind=None, times=-1):
        rq = {"op": op, "hex": data.hex(), "pick": []} if op == "table" else {"op": op, "hex": data.hex()}
        if chunk:
            rq["chunk"] = chunk
        if at is not None:
            rq.update(fail_at=at, kind=kind, times=times)
        final = at is not None and kind != "interrupted"
        ev = {"op": op, "failed": final}
        if op == "table":
            ev["key"] = data
        else:
            ev["bytes"] = list(data[:at] if final else data)
        add(rq, ev)

    # schedules of the reader machine
    out = ctx.model("Reader", ctx.scale("Reader", "ReaderDeep"), timeout=850)
    plans = core.generated(out)
    rng.shuffle(plans)
    for p in plans[:ctx.scale(4000, 40000)]:
        k = p["kind"] if p["kind"] == "interrupted" else rng.choice(KINDS)
        faulted(rng.choice(["blocks", "lines"]), bytes(p["text"]), p["chunk"], None if p["at"] < 0 else p["at"], k, p["times"])
    # every fault position of some files and tables
    for i in range(ctx.scale(30, 300)):
        op = ["blocks", "lines", "table"][i % 3]
        data = (c20.a_table(rng) if op == "table" else c22.a_file(rng))[:220]
        if op == "table" and i % 2:
            data = b"P1 x,y,z\n  x,y,z\n\nalias Q P1\nP2 y,x,-z\n  -x,y,z+1/2\nlookup P1 triclinic P x,y,z\n"
        for at in range(len(data) + 1):
            if rng.random() < ctx.scale(.35, 1):
                faulted(op, data, rng.choice([1, 2, 3, 5, 64, None]), at, rng.choice(KINDS), rng.choice([1, 2, -1, -1]))
                faulted(op, data, rng.choice([1, 2, 3, 7, None]), at, "interrupted", rng.choice([1, 1, 3, 40]))
        for chunk in (1, 2, 3, 4, 7, 16, 8191):
            faulted(op, data, chunk)
    # lines longer than the buffers readers use
    for k in (8190, 8191, 8192, 8193, 16384, 16385):
        data = b"k " + b"a" * (k - 3) + b"\nq 1\n" + b"b" * 50 + b"\n"
        for at in (k - 1, k, k + 1, k + 2, len(data) - 1, len(data)):
            add({"op": "lines", "hex": data.hex(), "chunk": rng.choice([1000, 8192, 100000]), "fail_at": at, "kind": "other", "times": -1}, {"op": "any"})
    # hostile text everywhere
    for data in [hostile(rng) for _ in range(ctx.scale(4000, 60000))] + monsters(ctx.thorough):
        big = len(data) > 2000
        for op in ("blocks", "lines", "table"):
            rq = {"op": op, "hex": data.hex()}
            if op == "table":
                rq["pick"] = []
            add(rq, {"op": "any"})
            if not big and rng.random() < .3:
                faulted(op, data, rng.choice([1, 2, 5]), rng.randint(0, len(data)), rng.choice(KINDS + ["interrupted"] * 3), rng.choice([1, 3]))
        for t in line_texts(data)[:6]:
            c = [ord(x) for x in t]
            add({"op": "line", "cps": c}, {"op": "any"})
            for what in ("parse", "affine", "coord"):
                add({"op": "operator", "what": what, "cps": c}, {"op": "any"})
    base = sorted({e["key"] for e in evs if "key" in e})
    plain = dict(zip(base, ctx.drive([{"op": "table", "hex": d.hex(), "pick": []} for d in base])))
    quiet = {"any": 0}
    res = ctx.drive(reqs)
    groups, rqs = [], []
    for rq, ev, o in zip(reqs, evs, res):
        ev["r"], ev["v"] = o["r"], o["v"]
        if ev["op"] == "any":
            ev["v"] = []
            ev["input"] = rq.get("hex", "")[:400] or str(rq.get("cps", []))[:400]
            if ev["r"] == "ok":
                quiet["any"] += 1
                if quiet["any"] % 20:      # a plain "it returned" needs no second opinion
                    ctx.count("returned")
                    continue
        elif ev["op"] == "table":
            ev["plain"] = plain[ev["key"]]["v"]
            ev["bytes"] = list(ev.pop("key"))
        elif not ctx.hooks and o["r"] == "ok":
            continue
        groups.append([ev])
        rqs.append(rq)
    ctx.validate("FaultTrace", groups, rqs, weight=lambda g: len(g[0].get("bytes", [])) + 5)
