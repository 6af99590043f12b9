"""Periodic graphs for the checks: generators, certificates, encodings.

Nothing here judges the code: placements and edge trees are certificates that
the specification verifies before using them.
"""
import itertools
from fractions import Fraction as Fr
from math import gcd

from . import core

# ------------------------------------------------------------ basics

def canon(e):
    h, t, s = e
    neg = next((x < 0 for x in s if x), False)
    if t < h or (t == h and neg):
        return (t, h, tuple(-x for x in s))
    return (h, t, tuple(s))


def canon_set(edges):
    return sorted({canon(e) for e in edges})


def verts(edges):
    return sorted({e[0] for e in edges} | {e[1] for e in edges})


def out(e):
    return [e[0], e[1], list(e[2])]


def outs(edges):
    return [out(e) for e in edges]


def incid(edges, v):
    res = []
    for e in canon_set(edges):
        if e[0] == v:
            res.append(e)
        if e[1] == v:
            res.append((e[1], e[0], tuple(-x for x in e[2])))
    return res


def directed(edges):
    return [x for v in verts(edges) for x in incid(edges, v)]


def solve_rat(A, B):
    """Gauss-Jordan on Fractions; None when singular."""
    n = len(A)
    M = [[Fr(x) for x in A[i]] + [Fr(x) for x in B[i]] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c]), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        f = M[c][c]
        M[c] = [x / f for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def placement(edges, d):
    """{v: [Fraction]} with the first vertex at the origin, or None."""
    E = canon_set(edges)
    V = verts(E)
    ix = {v: i for i, v in enumerate(V)}
    n = len(V)
    A = [[0] * n for _ in V]
    B = [[0] * d for _ in V]
    for h, t, s in E:
        if h == t:
            continue
        i, j = ix[h], ix[t]
        A[i][j] -= 1
        A[i][i] += 1
        A[j][i] -= 1
        A[j][j] += 1
        for k in range(d):
            B[i][k] += s[k]
            B[j][k] -= s[k]
    A[0] = [1] + [0] * (n - 1)
    B[0] = [0] * d
    X = solve_rat(A, B)
    return None if X is None else {v: X[ix[v]] for v in V}


def common_den(pos):
    D = 1
    for p in pos.values():
        for x in p:
            D = D * x.denominator // gcd(D, x.denominator)
    return D


def scaled(pos, D):
    return {v: [int(x * D) for x in p] for v, p in pos.items()}


def evec(pos, D, e):
    return [pos[e[1]][i] + D * e[2][i] - pos[e[0]][i] for i in range(len(e[2]))]


def locally_stable(edges, pos, D):
    for v in verts(edges):
        vs = [tuple(evec(pos, D, e)) for e in incid(edges, v)]
        if len(set(vs)) < len(vs):
            return False
    return True


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n) if M[0][j])


def rank(rows):
    M = [[Fr(x) for x in r] for r in rows]
    rk = 0
    if not M:
        return 0
    for c in range(len(M[0])):
        p = next((r for r in range(rk, len(M)) if M[r][c]), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for r in range(rk + 1, len(M)):
            if M[r][c]:
                f = M[r][c] / M[rk][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[rk])]
        rk += 1
    return rk


def edge_tree(edges, pos, D, d):
    """Root and edge tree with d independent edges and few branches."""
    V = verts(edges)
    deg = {v: len(incid(edges, v)) for v in V}
    best = None
    for root in V:
        cand = sum(1 for v in V if deg[v] == deg[root])
        tree, picks, reached, cost = [], [], [root], cand
        # greedy breadth first: take an edge when it raises the rank
        i = 0
        while len(picks) < d and i < len(reached):
            for e in sorted(incid(edges, reached[i]), key=lambda e: deg[e[1]]):
                vec = evec(pos, D, e)
                if len(picks) < d and rank([p for p in picks] + [vec]) > len(picks):
                    picks.append(vec)
                    tree.append([e, 1])
                    cost *= deg[e[0]]
                    if e[1] not in reached:
                        reached.append(e[1])
            if len(picks) < d:
                for e in incid(edges, reached[i]):
                    if e[1] not in reached and i + 1 >= len(reached):
                        tree.append([e, 0])
                        cost *= deg[e[0]]
                        reached.append(e[1])
            i += 1
        if len(picks) == d and (best is None or cost < best[0]):
            best = (cost, root, tree)
    return best


def is_net(edges, d):
    """Connected as an infinite net: used to select inputs only."""
    size, rk, ix = component(edges, d, verts(edges)[0])
    return size == len(verts(edges)) and rk == d and ix == 1


def component(edges, d, v):
    phi = {v: [0] * d}
    E = canon_set(edges)
    grew = True
    while grew:
        grew = False
        for h, t, s in E:
            if h in phi and t not in phi:
                phi[t] = [a + b for a, b in zip(phi[h], s)]
                grew = True
            elif t in phi and h not in phi:
                phi[h] = [a - b for a, b in zip(phi[t], s)]
                grew = True
    cyc = [[a + b - c for a, b, c in zip(phi[h], s, phi[t])] for h, t, s in E if h in phi]
    H = hnf(cyc, d)
    ix = 1
    for i, r in enumerate(H):
        ix *= abs(next(x for x in r if x))
    return len(phi), len(H), ix if len(H) == d else 0


def hnf(rows, d):
    S = [list(r) for r in rows if any(r)]
    res = []
    for k in range(d):
        while True:
            nz = [r for r in S if r[k]]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda r: abs(r[k]))
            for r in nz:
                if r is not p:
                    q = r[k] // p[k]
                    for j in range(d):
                        r[j] -= q * p[j]
        if nz:
            p = nz[0]
            if p[k] < 0:
                p[:] = [-x for x in p]
            res.append(p)
            S = [r for r in S if r is not p]
        S = [r for r in S if any(r)]
    return res


# ------------------------------------------------------------ encodings

BAD = []        # a value that equals no vector


def enc_vec(v, D):
    """Observed rational vector scaled by D; BAD when that is not integral."""
    res = []
    for x in v:
        f = Fr(x) * D
        if f.denominator != 1 or abs(f) >= 1 << 31:
            return BAD
        res.append(int(f))
    return res


DISP = __import__("re").compile(r"^(\d+) --\((-?\d+(?:, -?\d+)*)\)-> (\d+)$")


def parse_display(text):
    if text and not text.endswith("\n"):
        return [["unterminated"]]
    res = []
    for line in text.splitlines():
        m = DISP.match(line)
        if not m:
            return [["unreadable"]]
        res.append([int(m.group(1)), int(m.group(3)), [int(x) for x in m.group(2).split(", ")]])
    return res


def query_arg(q, e):
    """Adds the arguments of a query to its event."""
    name = q[0]
    if name in ("incidences", "canonical", "neg", "position", "position_normalized", "edge_vector", "component"):
        e["a"] = q[1]
    elif name == "label":
        e["a"], e["b"] = q[1], q[2]
    elif name == "coordination":
        e["a"], e["k"] = q[1], q[2]
    elif name == "coordination2":
        e["a"], e["b"], e["k"] = q[1], q[2], q[3]
    return e


def event(q, r, D=None):
    """The trace event of one observed query."""
    e = {"op": q[0], "r": r["r"], "v": r["v"]}
    query_arg(q, e)
    if r["r"] != "ok":
        e["v"] = []
    elif q[0] == "display":
        e["v"] = parse_display(r["v"])
    elif q[0] in ("position", "position_normalized", "edge_vector"):
        e["v"] = enc_vec(r["v"], D)
    if q[0] == "by_delta":
        e["a"] = q[1]
        e["x"] = enc_vec(q[2], D)
        e["exact"] = 0 if e["x"] == BAD else 1
    return e


def answers(out, n):
    """Responses of a graph request, also when the object died on the way."""
    if isinstance(out, dict):
        return [out] * n
    if len(out) == n:
        return out
    return [out[0] if out else {"r": "crash", "v": []}] * n


class Net:
    """A connected graph with its certificates."""

    def __init__(self, edges, d):
        self.edges, self.d = [canon(e) for e in edges], d
        self.pos = placement(edges, d)
        self.ok = self.pos is not None
        if self.ok:
            self.D = common_den(self.pos)
            self.P = scaled(self.pos, self.D)
            self.size = max([self.D] + [abs(x) for p in self.P.values() for x in p])
            self.maxvec = max([1] + [abs(x) for e in directed(edges) for x in evec(self.P, self.D, e)])

    def stable(self):
        return locally_stable(self.edges, self.P, self.D)

    def tree(self):
        return edge_tree(self.edges, self.P, self.D, self.d)

    def place_event(self):
        V = verts(self.edges)
        return {"op": "place", "verts": V, "pos": [self.P[v] for v in V], "D": self.D}

    def tree_event(self, t):
        return {"op": "tree", "root": t[1], "tree": [[out(e), p] for e, p in t[2]]}


def graph_event(edges, d):
    return {"op": "graph", "d": d, "edges": outs(edges)}


EDGY = [0, 1, 2, 9, 10, 99, 100, 255, 256, 65535, 65536, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1]


def disguise(rng, reqs, p=.25):
    """Lets the code see other vertex numbers, in the same order, for some requests."""
    for rq in reqs:
        m = max((max(e[0], e[1]) for e in rq["edges"]), default=0)
        if m < 64 and rng.random() < p:
            pool = set(EDGY) | {rng.randrange(2 ** 32) for _ in range(m + 4)}
            rq["names"] = sorted(rng.sample(sorted(pool), m + 1))
    return reqs


# ------------------------------------------------------------ generators

Z2 = (0, 0)
NETS2 = {
    "sql": [(1, 1, (1, 0)), (1, 1, (0, 1))],
    "hcb": [(1, 2, (0, 0)), (1, 2, (1, 0)), (1, 2, (0, 1))],
    "hxl": [(1, 1, (1, 0)), (1, 1, (0, 1)), (1, 1, (1, 1))],
    "kgm": [(1, 2, (0, 0)), (2, 3, (0, 0)), (3, 1, (0, 0)), (1, 2, (1, 0)), (2, 3, (-1, 1)), (3, 1, (0, -1))],
    "fes": [(1, 2, (0, 0)), (2, 3, (0, 0)), (3, 4, (0, 0)), (4, 1, (0, 0)), (1, 3, (1, 0)), (2, 4, (0, 1))],
    "skew": [(1, 1, (1, 0)), (1, 1, (0, 1)), (1, 2, (0, 0)), (2, 1, (1, 2))],
    "chiral2": [(1, 2, (0, 0)), (1, 2, (1, 0)), (1, 3, (0, 0)), (2, 3, (0, 1)), (3, 3, (1, 1))],
}
NETS3 = {
    "pcu": [(1, 1, (1, 0, 0)), (1, 1, (0, 1, 0)), (1, 1, (0, 0, 1))],
    "dia": [(1, 2, (0, 0, 0)), (1, 2, (1, 0, 0)), (1, 2, (0, 1, 0)), (1, 2, (0, 0, 1))],
    "srs": [(1, 2, (0, 0, 0)), (1, 3, (0, 0, 0)), (1, 4, (0, 0, 0)), (2, 3, (1, 0, 0)), (3, 4, (0, 1, 0)), (4, 2, (0, 0, 1))],
    "ths": [(1, 2, (0, 0, 0)), (1, 3, (0, 0, 0)), (2, 4, (0, 0, 0)), (1, 3, (1, 0, 0)), (2, 4, (0, 1, 0)), (3, 4, (0, 0, 1))],
    "cds": [(1, 2, (0, 0, 0)), (1, 2, (0, 0, 1)), (1, 1, (1, 0, 0)), (2, 2, (0, 1, 0))],
    "bcu": [(1, 1, (1, 0, 0)), (1, 1, (0, 1, 0)), (1, 1, (0, 0, 1)), (1, 1, (1, 1, 1))],
    "fcu": [(1, 1, (1, 0, 0)), (1, 1, (0, 1, 0)), (1, 1, (0, 0, 1)), (1, 1, (1, -1, 0)), (1, 1, (1, 0, -1)), (1, 1, (0, 1, -1))],
    "hex": [(1, 1, (1, 0, 0)), (1, 1, (0, 1, 0)), (1, 1, (1, 1, 0)), (1, 1, (0, 0, 1))],
    "lon": [(1, 2, (0, 0, 0)), (1, 2, (1, 0, 0)), (1, 2, (0, 1, 0)), (2, 3, (0, 0, 0)), (3, 4, (0, 0, 0)), (3, 4, (-1, 0, 0)), (3, 4, (0, -1, 0)), (4, 1, (0, 0, 1))],
    "nbo": [(1, 2, (0, 0, 0)), (1, 3, (0, 0, 0)), (2, 3, (0, 0, 0)), (1, 2, (0, 1, 1)), (1, 3, (1, 0, 1)), (2, 3, (1, -1, 0))],
    "tfa": [(1, 2, (0, 0, 0)), (1, 3, (0, 0, 0)), (1, 2, (1, 0, 0)), (1, 3, (0, 1, 0)), (2, 3, (0, 0, 1))],
    "qtz": [(1, 2, (0, 0, 0)), (2, 3, (0, 0, 0)), (3, 1, (0, 0, 1)), (1, 2, (1, 0, 0)), (2, 3, (0, 1, 0)), (3, 1, (-1, -1, 1))],
    "low": [(1, 2, (0, 0, 0)), (1, 2, (1, 0, 0)), (1, 1, (0, 1, 0)), (2, 2, (1, 1, 1))],
}


def named(d):
    return NETS2 if d == 2 else NETS3


def rnd_shift(rng, d, r):
    return tuple(rng.randint(-r, r) for _ in range(d))


def random_graph(rng, d, n, m, r=1):
    """A connected quotient graph with m >= n - 1 edges."""
    vs = list(range(1, n + 1))
    rng.shuffle(vs)
    E = []
    for i in range(1, n):
        E.append((vs[rng.randrange(i)], vs[i], rnd_shift(rng, d, r) if rng.random() < .5 else (0,) * d))
    while len(E) < m:
        E.append((rng.choice(vs), rng.choice(vs), rnd_shift(rng, d, r)))
    return canon_set(E)


def random_net(rng, d, nmax=5, r=1, extra=4):
    while True:
        n = rng.randint(1, nmax)
        E = random_graph(rng, d, n, n - 1 + d + rng.randrange(extra), r)
        if is_net(E, d):
            return E


def larger(rng, d, lo=14, hi=36):
    """A net with many vertices: long chains, big cells, or just random."""
    n = rng.randint(lo, hi)
    x = rng.random()
    if x < .3:
        E = random_graph(rng, d, n, n + d + rng.randrange(2 * n), 1)
    else:
        E = list(rng.choice(list(named(d).values())))
        if x < .7:
            while len(verts(E)) * 2 <= n and (len(E) < 40 or rng.random() < .5):
                E = supercell(E, rng.choice(hnf_matrices(d, rng.choice([2, 2, 3]))), rng)
        while len(verts(E)) < n:
            e = rng.choice(E)
            w = max(verts(E)) + 1
            E.remove(e)
            s = rnd_shift(rng, d, 1)
            E += [(e[0], w, s), (w, e[1], tuple(a - b for a, b in zip(e[2], s)))]
    V = verts(E)
    names = dict(zip(V, rng.sample(range(1, 3 * len(V)), len(V))))
    return canon_set([(names[a], names[b], s) for a, b, s in E])


def near(rng, d, levels, sep=False):
    """A net with vertices closer and closer to each other that never meet."""
    E = list(rng.choice(list(named(d).values())))
    V = verts(E)
    n = max(V)
    c = rng.choice(V)
    a, b = n + 1, n + 2
    z = (0,) * d
    s = rnd_shift(rng, d, 1)
    E += [(c, a, z), (c, b, z), (c, a, s if any(s) else (1,) * d), (c, b, tuple(x + (i == 0) for i, x in enumerate(s)))]
    n += 2
    for _ in range(levels):
        u, w = n + 1, n + 2
        k = rng.choice([2, 3])
        ss = [rnd_shift(rng, d, 1) for _ in range(k)]
        for x, y in ((u, a), (w, b)):
            E += [(y, x, z)] + [(c, x, t) for t in ss]
        a, b, n = u, w, n + 2
    if rng.random() < .5:       # edge vectors that nearly agree
        E += [(a, n + 1, z), (b, n + 1, z)]
    return canon_set(E)


def treed(rng, d, N):
    """A net whose quotient graph has N spanning trees, built up by series and parallel edges."""
    def path(t, s):
        r = []
        while (t, s) != (1, 1):
            if not (t and s) or len(r) > 60:
                return None
            if t > s:
                r.append("p")
                t -= s
            else:
                r.append("s")
                s -= t
        return r[::-1]
    ops = None
    while ops is None or len(ops) > 44:
        ops = path(N, int(N * .618) + rng.randint(-N // 2000, N // 2000))
    a, b, n = 1, 2, 2
    E = [(1, 2, (0,) * d)]
    for op in ops:
        if op == "p":
            e, r = E[0], 1
            while e in E:
                e = canon((a, b, rnd_shift(rng, d, r)))
                r += 1
            E.append(e)
        else:
            n += 1
            if rng.random() < .5:
                E.append((b, n, rnd_shift(rng, d, 1)))
                b = n
            else:
                E.append((a, n, rnd_shift(rng, d, 1)))
                a = n
    return canon_set(E)


def unimodular(rng, d, steps=3, r=1):
    M = [[int(i == j) for j in range(d)] for i in range(d)]
    for _ in range(steps):
        i, j = rng.sample(range(d), 2)
        x = rng.choice([-r, r]) if rng.random() < .8 else 0
        if x == 0:
            M[i], M[j] = M[j], [-y for y in M[i]]
        else:
            M[i] = [a + x * b for a, b in zip(M[i], M[j])]
    if rng.random() < .3:
        M[0] = [-x for x in M[0]]
    return M


def matvec(M, v):
    return tuple(sum(a * b for a, b in zip(r, v)) for r in M)


def rebased(edges, M):
    return [(h, t, matvec(M, s)) for h, t, s in edges]


def regauged(edges, phi):
    return [(h, t, tuple(a + b - c for a, b, c in zip(phi[h], s, phi[t]))) for h, t, s in edges]


def renamed(edges, f):
    return [(f[h], f[t], s) for h, t, s in edges]


def scrambled(rng, edges, d, gauge=1, basis=2, sparse=False):
    """The same net: other names, representatives, basis, edge order."""
    V = verts(edges)
    names = rng.sample(range(0, 60), len(V)) if sparse else rng.sample(range(1, len(V) + 1), len(V))
    E = renamed(edges, dict(zip(V, names)))
    if gauge:
        gauge = rng.choice([gauge, gauge, gauge, 3 * gauge, 130 * gauge, 40000])
        E = regauged(E, {v: rnd_shift(rng, d, gauge) for v in names})
    if basis:
        E = rebased(E, unimodular(rng, d, basis))
    E = [e if rng.random() < .5 else (e[1], e[0], tuple(-x for x in e[2])) for e in E]
    rng.shuffle(E)
    return E


def hnf_matrices(d, index):
    """All sublattices of the given index, as row bases."""
    def divs(n):
        return [x for x in range(1, n + 1) if n % x == 0]
    res = []
    for diag in itertools.product(*[divs(index)] * d):
        p = 1
        for x in diag:
            p *= x
        if p != index:
            continue
        cells = [(i, j) for i in range(d) for j in range(i + 1, d)]
        for vals in itertools.product(*[range(diag[j]) for i, j in cells]):
            M = [[diag[i] if i == j else 0 for j in range(d)] for i in range(d)]
            for (i, j), x in zip(cells, vals):
                M[i][j] = x
            res.append(M)
    return res


def supercell(edges, B, rng=None, where=False):
    """The same net on the sublattice with row basis B (upper triangular);
    with where, also which vertex in which cell each vertex is."""
    d = len(B)
    V = verts(edges)
    reps = list(itertools.product(*[range(B[i][i]) for i in range(d)]))

    def split(x):
        # x = r + c B  with r among the representatives
        x, c = list(x), []
        for i in range(d):
            q = x[i] // B[i][i]
            c.append(q)
            x = [a - q * b for a, b in zip(x, B[i])]
        return tuple(x), tuple(c)
    names = {}
    for v in V:
        for r in reps:
            names[v, r] = len(names) + 1
    if rng:
        p = list(names.values())
        rng.shuffle(p)
        names = dict(zip(names, p))
    E = []
    for h, t, s in canon_set(edges):
        for r in reps:
            y, c = split([a + b for a, b in zip(r, s)])
            E.append((names[h, r], names[t, y], c))
    if where:
        return canon_set(E), {k: v for v, k in names.items()}
    return canon_set(E)


def ladder(edges, rng=None, twist=0.0):
    """Two coinciding copies joined by rungs; some edges may change sides."""
    V = verts(edges)
    f = {}
    for i, v in enumerate(V):
        f[v, 0], f[v, 1] = 2 * i + 1, 2 * i + 2
    d = len(edges[0][2])
    E = [(f[v, 0], f[v, 1], (0,) * d) for v in V]
    for h, t, s in canon_set(edges):
        x = 1 if rng and rng.random() < twist else 0
        for k in (0, 1):
            E.append((f[h, k], f[t, k ^ x], s))
    return canon_set(E)


def cyc(*ns):
    """Product of cyclic groups, as (elements, multiplication)."""
    els = list(itertools.product(*map(range, ns)))
    return els, lambda a, b: tuple((x + y) % n for x, y, n in zip(a, b, ns))


S3 = (list(itertools.permutations(range(3))), lambda a, b: tuple(a[x] for x in b))
COVER_GROUPS = [cyc(2), cyc(2), cyc(2), cyc(3), cyc(3), cyc(4), cyc(2, 2), cyc(5), S3]


def cover(edges, rng, group=None, rungs=None):
    """A regular cover of a net: copies in the same places, indexed by a group that permutes them.

    Each edge leads from copy a to copy a x for an element x of the group; mostly x depends on the shift only.
    With two copies there may be rungs between them."""
    d = len(edges[0][2])
    els, mul = group or rng.choice(COVER_GROUPS)
    e = next(x for x in els if all(mul(x, y) == y for y in els))
    f = {(v, a): i + 1 for i, (v, a) in enumerate(itertools.product(verts(edges), els))}
    hom = [rng.choice([rng.choice(els), e]) for _ in range(d)]

    def power(x, k):
        r = e
        n = next(i for i in range(1, len(els) + 1) if _pow(mul, x, i, e) == e)
        for _ in range(k % n):
            r = mul(r, x)
        return r
    stray = rng.choice([0, 0, 0, .3, .6])
    E = []
    if len(els) == 2 and (rng.random() < .7 if rungs is None else rungs):
        few = rng.random() < .3
        for v in verts(edges):
            if not few or rng.random() < .5 or v == verts(edges)[0]:
                E.append((f[v, els[0]], f[v, els[1]], (0,) * d))
    for h, t, s in canon_set(edges):
        x = e
        for k, y in zip(s, hom):
            x = mul(x, power(y, k))
        if rng.random() < stray:
            x = rng.choice(els)
        for a in els:
            E.append((f[h, a], f[t, mul(a, x)], s))
    return canon_set(E)


def _pow(mul, x, k, e):
    for _ in range(k):
        e = mul(e, x)
    return e


def symmetrised(rng, d, nmax=3):
    """A net with one symmetry by construction (of any kind), and seldom more."""
    from .groups import holohedries
    while True:
        P = rng.choice(holohedries()[d])
        M = [[int(x) for x in r] for r in rng.choice(P)]
        V = list(range(1, rng.randint(1, nmax) + 1))
        p = dict(zip(V, rng.sample(V, len(V)) if rng.random() < .5 else V))
        E = []
        for _ in range(rng.randint(1, d + len(V))):
            e = (rng.choice(V), rng.choice(V), rnd_shift(rng, d, 2))
            while canon(e) not in E and len(E) < 30:
                E.append(canon(e))
                e = (p[e[0]], p[e[1]], matvec(M, e[2]))
        E = canon_set([e for e in E if e[0] != e[1] or any(e[2])])
        if E and len(E) < 14 and is_net(E, d) and len(verts(E)) == max(verts(E)):
            return E


def mirrored(rng, d, lo=6, hi=12):
    """A net whose vertices all stay in place under some mirrors or rotations of order two, with edges they join."""
    while True:
        n = rng.randint(lo, hi)
        ms = [[-1 if rng.random() < .5 else 1 for _ in range(d)] for _ in range(rng.choice([1, 1, 2]))]
        E = set()
        vs = rng.sample(range(1, n + 1), n)
        def add(h, t, s):
            new = {s}
            while True:
                more = {tuple(a * b for a, b in zip(m, x)) for m in ms for x in new} - new
                if not more:
                    break
                new |= more
            for x in new:
                if h != t or any(x):
                    E.add(canon((h, t, x)))
        for i in range(1, n):
            add(vs[rng.randrange(max(0, i - 2), i)], vs[i], (0,) * d if rng.random() < .8 else rnd_shift(rng, d, 1))
        for _ in range(rng.randint(2, d + 2)):
            add(rng.choice(vs), rng.choice(vs), rnd_shift(rng, d, 1))
        E = sorted(E)
        if len(E) <= 26 and is_net(E, d):
            return E


def tlc_graphs(ctx, cfg):
    outp, _ = core.tlc("GraphGen.tla", cfg, workers=1, extra=["-deadlock"])
    res = core.generated(outp)
    if not res:
        raise core.ToolError("no graphs generated\n" + outp[-1500:])
    return [[(h, t, tuple(s)) for h, t, s in E] for E in res]
