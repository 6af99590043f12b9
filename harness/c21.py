"""C21: reading CGD lines."""
from . import core

LETTERS = "abcxyzENDkF\u00e9\u00c4\u03b1\u4e2d\U0001f600_"
ODD = ["\u00a0", "\u2003", "\r", "\x0b", "\x0c", "\x85", "\u0660", "\u00bd", "\x00", "'", "\\", "(", ")", ",", ";", "*", "%", "\u0160", "\u0120", "\u4e20", "\ufeff"]


def digits(rng, n=None):
    return "".join(rng.choice("0123456789") for _ in range(n or rng.choice([1, 1, 2, 3, 5, 8, 9, 10, 11])))


def number(rng):
    x = rng.random()
    s = rng.choice(["", "", "", "-", "+"])
    if x < .25:
        return s + digits(rng)
    if x < .4:
        return s + digits(rng) + "/" + digits(rng)
    if x < .5:
        return s + rng.choice(["2147483647", "2147483648", "-2147483648", "4294967296", "999999999/1", "1/999999999", "1000000000/3", "1/1000000000", "0/1", "1/0", "0"]).lstrip("-")
    m = rng.choice([digits(rng) + "." + digits(rng), digits(rng) + ".", "." + digits(rng), digits(rng), digits(rng, 17) + "." + digits(rng, 20), "0." + "0" * rng.randint(0, 12) + digits(rng)])
    if x < .75:
        return s + m
    e = rng.choice("eE") + rng.choice(["", "-", "+"]) + rng.choice([str(rng.randint(0, 30)), str(rng.randint(280, 330)), "0", "", "99999", "123456789012"] if rng.random() < .5 else [str(rng.randint(0, 9))])
    return s + m + e


def hard_double(rng):
    """Decimal texts near the midpoint of two doubles, subnormals, limits."""
    from fractions import Fraction as Fr
    e = rng.choice([rng.randint(-1074, -1020), rng.randint(-60, 60), rng.randint(900, 971)])
    m = rng.choice([2 ** 52, 2 ** 53 - 1, rng.randint(1, 2 ** 53 - 1)])
    v = (Fr(m) + Fr(rng.choice([0, 1, 1, 1]), 2)) * Fr(2) ** e
    if rng.random() < .4:
        v += rng.choice([-1, 1]) * Fr(1, 10 ** rng.randint(0, 30)) * Fr(2) ** (e - 60)
    # exact decimal expansion of a dyadic rational (perhaps cut off)
    k = 0
    d = v.denominator
    while d % 2 == 0:
        d //= 2
        k += 1
    while d % 5 == 0:
        d //= 5
    if d != 1:
        return number(rng)
    n = 1
    while 10 ** n % v.denominator:
        n += 1
    t = str(v.numerator * (10 ** n // v.denominator))
    if rng.random() < .3:
        t, n = t[:20], n - (len(t) - 20) if len(t) > 20 else n
    return t + "e" + str(-n)


def word(rng):
    return "".join(rng.choice(LETTERS if rng.random() < .8 else "0123456789./-+") for _ in range(rng.randint(1, 7) if rng.random() < .99 else rng.randint(12, 70)))


def token(rng):
    x = rng.random()
    if x < .45:
        t = number(rng)
    elif x < .53:
        t = hard_double(rng)
    elif x < .7:
        t = word(rng)
    elif x < .8:
        t = '"' + "".join(rng.choice(LETTERS + "  #\t12/.") for _ in range(rng.randint(0, 8))) + '"'
    elif x < .85:
        t = rng.choice(["nan", "inf", "infinity", "NaN", "INF", "-inf", "1e", "2E+", "-", "+", ".", "-.", "1e400", "-1e999", "1e-400", "0x10", "1_000", "\"", "\"\"", "#", "e5", "/", "1/", "/2", "--1", "1.2.3", "infx", "nano"])
    else:
        t = "".join(rng.choice(ODD + list(LETTERS) + list("01./\"#-e ")) for _ in range(rng.randint(1, 5)))
    if rng.random() < .06:
        t += rng.choice(["x", "\"s\"", "/", "#c", ".", "e", "1", "\"", "-", "\u00e9"])
    return t


def line(rng):
    t = rng.choice(["", "", "", " ", "\t", "   "])
    if rng.random() < .4:
        t += rng.choice(["NODE", "edge", "Group", "k1", "cell", "end", "x-y", "E5", "inf", "nan", "\u00e9t\u00e9", "a\u00e9"]) + rng.choice([" ", "  ", "\t", " ", " ", "", "#"])
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6]) if rng.random() < .99 else rng.randint(12, 40)):
        t += token(rng) + rng.choice([" ", " ", " ", "  ", "\t", " \t", ""])
    if rng.random() < .2:
        t += "#" + token(rng) + " " + token(rng)
    return t


def check(ctx):
    rng = ctx.rng
    ctx.model("RoundLaws", "RoundLaws")
    out = ctx.model("LineGen", ctx.scale("LineGen", "LineGenDeep"))
    texts = core.generated(out)
    for _ in range(ctx.scale(9000, 120000)):
        texts.append([ord(c) for c in line(rng)])
    reqs = [{"op": "line", "cps": t} for t in texts]
    res = ctx.drive(reqs)
    ctx.validate("LineTrace", [[{"op": "line", "cps": t, "r": o["r"], "v": o["v"]}] for t, o in zip(texts, res)], reqs,
                 weight=lambda g: len(g[0]["cps"]) + 3)
