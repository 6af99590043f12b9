"""C15: matrices, vectors, affine maps, coordinate changes."""
from fractions import Fraction as Fr

from . import algebra as al


def rvec(rng, n, s=5):
    return [al.num(rng, "rat", s) if rng.random() < .8 else Fr(0) for _ in range(n)]


def rmat(rng, m, n, s=4):
    return [rvec(rng, n, s) for _ in range(m)]


def regular(rng, n):
    while True:
        x = rng.random()
        M = [[Fr(y) for y in r] for r in al.unimod(rng, n, 4)] if x < .3 else rmat(rng, n, n)
        if x > .9:      # a signed permutation
            p = rng.sample(range(n), n)
            M = [[Fr(rng.choice([-1, 1])) if j == p[i] else Fr(0) for j in range(n)] for i in range(n)]
        if fdet(M):
            return M


def fdet(M):
    M = [list(r) for r in M]
    n, d = len(M), Fr(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c]), None)
        if p is None:
            return Fr(0)
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def posdef(rng, n):
    B = regular(rng, n)
    return [[sum(B[k][i] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def notposdef(rng, n):
    """Often only just not positive definite; some are."""
    x = rng.random()
    if x < .3:          # equal diagonal, equal size off the diagonal, signs at random
        a, b = rng.choice([(2, 1), (3, 1), (3, 2), (10, 9), (1, 1), (4, 1)])
        M = [[Fr(a) if i == j else Fr(0) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i):
                M[i][j] = M[j][i] = Fr(rng.choice([-b, b, b, 0]))
        return M
    B = regular(rng, n)
    s = [rng.choice([1, 1, 1, -1, 0]) for _ in range(n)]
    M = [[sum(s[k] * B[k][i] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    if x > .8 and n > 1:    # not symmetric
        i, j = rng.sample(range(n), 2)
        M[i][j] += rng.choice([1, -1])
    return M


def aff(rng, n, inv=True):
    m = regular(rng, n) if inv else rmat(rng, n, n)
    return {"m": al.treq(m), "s": al.treq([rvec(rng, n) if rng.random() < .8 else [Fr(0)] * n])[0]}


MAT = ["add", "sub", "mul", "mul", "neg", "scale", "sdiv", "sadd", "ssub", "scale_assign",
       "sdiv_assign", "sadd_assign", "ssub_assign", "collect", "at", "set", "addassign", "subassign", "transpose", "hstack",
       "vstack", "submatrix", "get_row", "get_rows", "get_col", "identity", "zero", "unit_vector", "is_identity",
       "reshape", "row", "col", "eq"]


def matrix_call(rng, what):
    m, n, k = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4)
    if rng.random() < .1:
        m, n = rng.randint(1, 7), rng.randint(1, 7)
    A = rmat(rng, m, n)
    rq, ev = {}, {}

    def put(key, M):
        rq[key] = al.mat(al.treq(M))
        ev[key] = al.tmat(M)
    if what in ("add", "sub", "addassign", "subassign"):
        put("a", A)
        put("b", rmat(rng, m, n))
    elif what == "mul":
        put("a", A)
        put("b", rmat(rng, n, k))
    elif what.split("_")[0] in ("scale", "sdiv", "sadd", "ssub"):
        put("a", A)
        x = al.num(rng, "rat", 5) or Fr(1, 3)
        rq["x"] = ev["x"] = str(x)
    elif what in ("hstack", "vstack"):
        ms = [rmat(rng, m, rng.randint(1, 3)) if what == "hstack" else rmat(rng, rng.randint(1, 3), n) for _ in range(k)]
        rq["ms"] = [al.mat(al.treq(M)) for M in ms]
        ev["ms"] = [al.tmat(M) for M in ms]
    elif what == "submatrix":
        put("a", A)
        r0, c0 = rng.randrange(m), rng.randrange(n)
        d = {"r0": r0, "r1": rng.randint(r0 + 1, m), "c0": c0, "c1": rng.randint(c0 + 1, n)}
        rq.update(d)
        ev.update(d)
    elif what in ("at", "set"):
        put("a", A)
        d = {"r0": rng.randrange(m), "c0": rng.randrange(n)}
        rq.update(d, x="7/3")
        ev.update(d, x="7/3")
    elif what in ("get_row", "get_col"):
        put("a", A)
        rq["i"] = ev["i"] = rng.randrange(m if what == "get_row" else n)
    elif what in ("identity", "zero", "unit_vector"):
        j = rng.randrange(m) if what == "unit_vector" else n
        rq.update(i=m, j=j)
        ev.update(i=m, j=j)
    elif what == "is_identity":
        I = [[Fr(int(i == j)) for j in range(m)] for i in range(m)]
        if rng.random() < .6:
            I[rng.randrange(m)][rng.randrange(m)] = rng.choice([Fr(0), Fr(1), Fr(2), Fr(1, 2)])
        elif rng.random() < .3:
            I = I + [[Fr(0)] * m]
        put("a", I)
    elif what == "reshape":
        put("a", A)
        rq["i"] = ev["i"] = rng.choice([c for c in range(1, m * n + 1) if m * n % c == 0])
    elif what in ("row", "col"):
        v = al.treq([rvec(rng, n)])[0]
        rq["v"] = ev["w"] = v
    elif what == "eq":
        put("a", A)
        Bm = [list(r) for r in A]
        if rng.random() < .6:
            Bm[rng.randrange(m)][rng.randrange(n)] += rng.choice([0, 1, Fr(1, 7)])
        elif m > 1 and n > 1 and rng.random() < .5:
            Bm = [sum(A, [])]       # same data, other shape
        put("b", Bm)
    else:
        put("a", A)
    return dict(rq, op="matrix", what=what, form=rng.randrange(4)), dict(ev, op=what)


GEOM = ["vec_add", "vec_sub", "vec_neg", "vec_scale", "vec_div", "vec_modz", "vec_modz", "vec_unit", "vec_add_assign", "vec_sub_assign",
        "vec_scale_assign", "vec_div_assign", "point_add_assign", "point_sub_assign", "origin", "vec_zero", "aff_from",
        "vec_set", "point_set", "vec_at", "point_at", "listed", "dims", "aff_new", "cm_from", "sp_new", "sp_new", "point_add", "point_sub_v",
        "point_sub_p", "sp_default", "sp_new", "sp_apply", "aff_mul", "aff_mul", "aff_inv", "aff_inv", "aff_point",
        "aff_vector", "aff_modz", "aff_isid", "aff_id", "cm_new", "cm_id", "cm_isid", "cm_inv", "cm_mul", "cm_mul",
        "cm_point", "cm_vector", "cm_aff", "cm_aff", "cm_sp", "cm_sp", "cm_det", "cm_from_basis", "cm_to_basis"]


def geom_call(rng, what):
    n = rng.randint(1, 4) if rng.random() < .9 else rng.randint(5, 6)
    v = lambda: al.treq([rvec(rng, n)])[0]
    rq, ev = {}, {}
    if what in ("vec_set", "point_set", "vec_at", "point_at", "listed"):
        rq["v"] = ev["x"] = v()
        rq.update(k=rng.randrange(n), x="7/3")
        ev.update(i=rq["k"], k="7/3")
    elif what == "aff_new":
        g = al.treq(rmat(rng, n, n))
        rq["g"], ev["g"] = al.mat(g), g
        rq["v"] = ev["x"] = v()
    elif what in ("vec_zero", "origin"):
        rq["n"] = ev["n"] = n
    elif what in ("aff_from", "cm_from"):
        g = al.treq(regular(rng, n))
        rq["g"], ev["g"] = al.mat(g), g
    elif what.startswith("vec_"):
        x = v()
        rq["v"] = ev["x"] = x
        if what.startswith(("vec_add", "vec_sub")):
            rq["w"] = ev["w"] = v()
        if what.startswith(("vec_scale", "vec_div")):
            rq["x"] = ev["k"] = str(al.num(rng, "rat", 5) or Fr(2, 3))
        if what == "vec_unit":
            rq.update(n=n, k=rng.randrange(n))
            ev.update(n=n, k=rq["k"])
        if what == "vec_modz":
            x = [str(rng.choice([Fr(0), Fr(-1), Fr(-1, 2), Fr(3, 2), Fr(-7, 3), Fr(rng.randint(-30, 30), rng.randint(1, 9))])) for _ in range(n)]
            rq["v"] = ev["x"] = x
    elif what.startswith("point"):
        rq["p"] = ev["p"] = v()
        rq["v"] = ev["x"] = v()
        rq["q"] = ev["q"] = v()
    elif what == "sp_default":
        rq["n"] = ev["n"] = n
    elif what in ("sp_new", "sp_apply"):
        g = posdef(rng, n)
        if what == "sp_new" and rng.random() < .6:
            g = notposdef(rng, n)
        g = al.treq(g)
        rq["g"], ev["g"] = al.mat(g), g
        rq["v"] = ev["x"] = v()
        rq["w"] = ev["w"] = v()
    elif what in ("aff_id", "cm_id"):
        rq["n"] = ev["n"] = n
    elif what in ("cm_from_basis", "cm_to_basis"):
        rq["vs"] = ev["vs"] = al.treq(regular(rng, n))
    else:
        f = aff(rng, n, inv=what.startswith("cm_") or what == "dims" or rng.random() < .5)
        if what in ("aff_isid", "cm_isid"):
            f = {"m": al.treq([[int(i == j) for j in range(n)] for i in range(n)]), "s": ["0"] * n}
            if rng.random() < .3:
                f["s"][rng.randrange(n)] = "1/2"
            elif rng.random() < .5:
                f["m"][rng.randrange(n)][rng.randrange(n)] = rng.choice(["1", "-1", "1/2"])
            if what == "cm_isid" and not fdet([[Fr(x) for x in r] for r in f["m"]]):
                f["m"] = al.treq(regular(rng, n))
        if what == "aff_modz":
            f["s"] = [str(Fr(rng.randint(-9, 9), rng.choice([1, 2, 3, 4]))) for _ in range(n)]
        if what == "aff_inv" and rng.random() < .3 and n > 1:
            f["m"][0] = list(f["m"][1])
        rq["f"] = ev["f"] = f
        if what in ("aff_mul", "cm_mul", "cm_aff"):
            rq["g"] = ev["g"] = aff(rng, n, inv=what == "cm_mul")
        if what == "cm_sp":
            g = al.treq(posdef(rng, n))
            rq["g"], ev["g"] = al.mat(g), g
        rq["p"] = ev["p"] = v()
        rq["v"] = ev["x"] = v()
    return dict(rq, op="geom", what=what, form=rng.randrange(4)), dict(ev, op=what)


REFUSED = ["add", "sub", "addassign", "subassign", "mul", "hstack", "vstack", "submatrix", "get_row", "get_col", "at", "set", "reshape",
           "vec_add", "vec_sub", "vec_add_assign", "vec_sub_assign", "point_add", "point_sub_v", "point_sub_p", "point_add_assign",
           "point_sub_assign", "sp_apply", "aff_new", "aff_from", "aff_mul", "aff_point", "aff_vector", "cm_mul", "cm_point", "cm_vector", "cm_aff", "cm_sp", "vec_at", "point_at", "vec_set", "point_set"]


def refused_call(rng, what):
    """Operands that do not fit each other: shapes s and t, or shape s and place t."""
    up = lambda k: k + rng.choice([1, 1, 2])
    rq = {"form": rng.randrange(4), "what": what, "op": "matrix"}
    mat = lambda m, n: al.mat(al.treq(rmat(rng, m, n)))
    m, n = rng.randint(1, 4), rng.randint(1, 4)
    a, b = (m, n), (up(m), n)
    if what in ("add", "sub", "addassign", "subassign"):
        b = rng.choice([(up(m), n), (m, up(n)), (n, m) if m != n else (m, up(n)), (m * n, 1) if n > 1 else (up(m), n)])
        if rng.random() < .5:
            a, b = b, a
        rq.update(a=mat(*a), b=mat(*b))
    elif what == "mul":
        b = (up(n), m) if rng.random() < .5 or n == 1 else (n - 1, m)
        rq.update(a=mat(*a), b=mat(*b))
    elif what in ("hstack", "vstack"):
        b = (up(m), n) if what == "hstack" else (m, up(n))
        ms = [a, b] if rng.random() < .5 else [a, a, b]
        if rng.random() < .3:
            ms.reverse()
        rq.update(ms=[mat(*x) for x in ms])
    elif what == "submatrix":
        b = rng.choice([(up(m), n), (m, up(n))])
        rq.update(a=mat(*a), r0=0, r1=b[0], c0=rng.randrange(n), c1=b[1])
    elif what in ("at", "set", "get_row", "get_col"):
        b = rng.choice([(m - 1 + rng.randint(1, 2), rng.randrange(n)), (rng.randrange(m), n - 1 + rng.randint(1, 2))])
        if what == "get_row":
            b = (m - 1 + rng.randint(1, 2), 0)
        elif what == "get_col":
            b = (0, n - 1 + rng.randint(1, 2))
        rq.update(a=mat(*a), r0=b[0], c0=b[1], i=max(b) if what.startswith("get") else 0, x="7/3")
        rq["i"] = b[0] if what == "get_row" else b[1]
    elif what == "reshape":
        b = (1, rng.choice([k for k in range(2, m * n + 3) if m * n % k]))
        rq.update(a=mat(*a), i=b[1])
    else:
        n, k = m, up(m)
        if rng.random() < .5:
            n, k = k, n
        a, b = (n, n), (k, k)
        v = lambda k: al.treq([rvec(rng, k)])[0]
        rq.update(op="geom")
        if what.endswith(("_at", "_set")):
            a, b = (n, 1), (n + rng.randrange(2), 0)
            rq.update(v=v(n), k=b[0], x="7/3")
        elif what.startswith("vec"):
            rq.update(v=v(n), w=v(k))
        elif what.startswith("point"):
            rq.update(p=v(n), v=v(k), q=v(k))
        elif what == "sp_apply":
            rq.update(g=al.mat(al.treq(posdef(rng, n))), v=v(k), w=v(n))
            if rng.random() < .5:
                rq["v"], rq["w"] = rq["w"], rq["v"]
        elif what == "aff_new":
            a, b = rng.choice([((n, n), (k, k)), ((n, k), (n, n)), ((n, k), (k, k))])
            rq.update(g=mat(*a), v=v(b[0]))
        elif what == "aff_from":
            a, b = (n, k), (n, n)
            rq.update(g=mat(n, k))
        else:
            rq.update(f=aff(rng, n), g=aff(rng, k), p=v(k), v=v(k))
            if what == "cm_sp":
                rq.update(g=al.mat(al.treq(posdef(rng, k))))
    return rq, {"op": "refuse", "what": what, "s": list(a), "t": list(b)}


def check(ctx):
    rng = ctx.rng
    ctx.model("AffineLaws", "AffineLaws1")
    ctx.model("AffineLaws", ctx.scale("AffineLaws", "AffineLawsDeep"))
    items = []
    for what in MAT:
        for _ in range(ctx.scale(45, 600)):
            items.append(matrix_call(rng, what))
    for what in GEOM:
        for _ in range(ctx.scale(45, 600)):
            items.append(geom_call(rng, what))
    for what in REFUSED:
        for _ in range(ctx.scale(15, 200)):
            items.append(refused_call(rng, what))
    reqs = [rq for rq, _ in items]
    res = ctx.drive(reqs)
    ctx.validate("GeomTrace", [[dict(ev, r=o["r"], v=o["v"])] for (_, ev), o in zip(items, res)], reqs)
