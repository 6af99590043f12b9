"""Crystallographic groups as inputs: an independent reading of the shipped table, and random groups."""
import itertools
import os
import re
from fractions import Fraction as Fr
from functools import lru_cache

from . import algebra as al
from . import core

AX = "xyz"


def read_op(text):
    """Coordinate triplet -> (matrix, shift) of Fractions; the harness's own reading."""
    parts = text.replace(" ", "").replace("*", "").split(",")
    n = len(parts)
    M, S = [], []
    for p in parts:
        row, sh = [Fr(0)] * n, Fr(0)
        for sg, num, ax in re.findall(r"([+-]?)(\d+(?:/\d+)?)?([xyz]?)", p):
            if not num and not ax:
                continue
            v = Fr(num or 1) * (-1 if sg == "-" else 1)
            if ax:
                row[AX.index(ax)] += v
            else:
                sh += v
        M.append(tuple(row))
        S.append(sh)
    return tuple(M), tuple(S)


@lru_cache(None)
def table(path=os.path.join(core.REPO, "src/data/sgtable.data")):
    """[(name, transform, [ops])] of the shipped table, in file order."""
    out = []
    for line in open(path):
        if not line.strip() or line.lstrip().startswith("#"):
            continue
        if line[0].isspace():
            out[-1][2].append(read_op(line.strip()))
        elif line.split()[0].lower() not in ("alias", "lookup"):
            name, rest = line.split(None, 1)
            out.append((name, read_op(rest), []))
    return out


def mmul(a, b):
    (A, s), (B, t) = a, b
    n = len(A)
    return (tuple(tuple(sum(A[i][k] * B[k][j] for k in range(n)) for j in range(n)) for i in range(n)),
            tuple(sum(A[i][k] * t[k] for k in range(n)) + s[i] for i in range(n)))


def modz(a):
    return a[0], tuple(x % 1 for x in a[1])


def ident(n):
    return tuple(tuple(Fr(int(i == j)) for j in range(n)) for i in range(n)), (Fr(0),) * n


def closure(gens, limit=400):
    n = len(gens[0][0])
    e = ident(n)
    seen, todo = {e}, [e]
    while todo:
        a = todo.pop()
        for g in gens:
            c = modz(mmul(a, g))
            if c not in seen:
                seen.add(c)
                todo.append(c)
                if len(seen) > limit:
                    return None
    return seen


def inv(M):
    n = len(M)
    A = [[Fr(x) for x in M[i]] + [Fr(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c])
        A[c], A[p] = A[p], A[c]
        f = A[c][c]
        A[c] = [x / f for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def conj(T, t, op):
    """op seen in coordinates x' = T x + t."""
    n = len(T)
    Ti = inv(T)
    f = tuple(tuple(r) for r in T), tuple(t)
    fi = tuple(tuple(r) for r in Ti), tuple(-sum(Ti[i][k] * t[k] for k in range(n)) for i in range(n))
    return mmul(mmul(f, op), fi)


def lin(gens):
    """Finite linear group generated by integer matrices."""
    return sorted({m for m, _ in closure([(tuple(tuple(Fr(x) for x in r) for r in g), (Fr(0),) * len(g)) for g in gens])})


@lru_cache(None)
def holohedries():
    """Maximal finite groups of integer matrices in dimension 1 to 3 (up to basis); signed permutations in 4."""
    res = {1: [lin([[[-1]]])],
           2: [lin([[[0, -1], [1, 0]], [[1, 0], [0, -1]]]), lin([[[1, -1], [1, 0]], [[0, 1], [1, 0]]])]}
    cubic = lin([[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]])
    hexa = lin([[[1, -1, 0], [1, 0, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]]])

    def inbasis(B):
        T = inv([list(r) for r in zip(*B)])
        return sorted({conj(T, (Fr(0),) * 3, (m, (Fr(0),) * 3))[0] for m in cubic})
    h = Fr(1, 2)
    F = [[0, h, h], [h, 0, h], [h, h, 0]]
    I = [[-h, h, h], [h, -h, h], [h, h, -h]]
    res[3] = [cubic, hexa, inbasis(F), inbasis(I)]
    res[4] = [[tuple(tuple(Fr(sg[i]) if p[i] == j else Fr(0) for j in range(4)) for i in range(4))
               for p in itertools.permutations(range(4)) for sg in itertools.product((1, -1), repeat=4)]]
    return res


def random_gens(rng, n, limit, skew=True, zero=False):
    """Generators of a random crystallographic group, and the size of the group modulo Z."""
    while True:
        P = rng.choice(holohedries()[n])
        k = rng.choice([1, 1, 2, 2, 3])
        d = rng.choice([1, 2, 2, 3, 4, 6])
        gens = []
        for _ in range(k):
            m = rng.choice(P) if rng.random() < .85 else ident(n)[0]
            if rng.random() < .2:       # changing one coordinate only
                i = rng.randrange(n)
                m = tuple(tuple(-x if j == i else x for x in r) for j, r in enumerate(ident(n)[0]))
            gens.append((m, tuple(Fr(rng.randint(-2 * d, 2 * d), d) if not zero and rng.random() < .7 else Fr(0) for _ in range(n))))
        if skew and rng.random() < .5:
            U = [[Fr(x) for x in r] for r in al.unimod(rng, n, rng.randint(1, 4))]
            gens = [conj(U, (Fr(0),) * n, g) for g in gens]
        g = closure(gens, limit)
        if g:
            return gens, g


def enc(op):
    return {"m": al.treq(op[0]), "s": [str(x) for x in op[1]]}


def thin(rng, ops):
    """A random generating list of a complete list of operators modulo Z."""
    full = closure(ops)
    ops = list(ops)
    rng.shuffle(ops)
    out, have = [], 1
    for o in ops:
        c = closure(out + [o])
        if len(c) > have:
            out.append(o)
            have = len(c)
            if have == len(full):
                break
    return out or [ident(len(ops[0][0]))]
