----------------------------- MODULE PGraphIso -----------------------------
(***************************************************************************)
(* Isomorphisms between placed, locally stable periodic graphs, modulo the *)
(* lattices: pairs <<M, vm>> of an integral unimodular matrix and a vertex *)
(* map such that every edge e leaving v has exactly one counterpart        *)
(* leaving vm[v], namely the edge whose vector is M * vector(e), and it    *)
(* leads to vm[tail of e].                                                 *)
(*                                                                         *)
(* They are enumerated completely: an isomorphism is determined by the     *)
(* images of a root vertex and of the edges of a tree that contains d      *)
(* linearly independent edge vectors.                                      *)
(***************************************************************************)
EXTENDS PGraph

(* stars as functions: v |-> (vector |-> edge); needs local stability      *)
StarMap(E, P, D, k) ==
    [v \in Verts(E) |->
        LET st == Star(E, P, D, v)
            vecs == {VScale(k, st[i][1]) : i \in 1..Len(st)}
        IN [x \in vecs |-> (CHOOSE i \in 1..Len(st) : VScale(k, st[i][1]) = x)]]
StarEdges(E, v) == Inc(E, v)
LocallyStable(E, P, D) ==
    \A v \in Verts(E) : LET st == Star(E, P, D, v)
                        IN Cardinality({st[i][1] : i \in 1..Len(st)}) = Len(st)

(* A "figure": [V, deg, star] with star[v] = vector |-> tail vertex,       *)
(* edge[v] = vector |-> edge                                               *)
Figure(E, P, D, k) ==
    LET sm == StarMap(E, P, D, k)
        inc == [v \in Verts(E) |-> Inc(E, v)]
    IN [V    |-> Verts(E),
        E    |-> E,
        tail |-> [v \in Verts(E) |-> [x \in DOMAIN sm[v] |-> inc[v][sm[v][x]][2]]],
        edge |-> [v \in Verts(E) |-> [x \in DOMAIN sm[v] |-> inc[v][sm[v][x]]]],
        deg  |-> [v \in Verts(E) |-> Len(inc[v])]]
VecOf(F, e) == CHOOSE x \in DOMAIN F.edge[e[1]] : F.edge[e[1]][x] = e

RECURSIVE Propagate(_, _, _, _, _)
(* todo: vertices of F whose star is not yet mapped; <<>> when impossible  *)
Propagate(F, H, M, vm, todo) ==
    IF todo = {} THEN vm
    ELSE LET v == CHOOSE x \in todo : TRUE
             w == vm[v]
             img == [x \in DOMAIN F.tail[v] |-> MatVec(M, x)]
         IN IF F.deg[v] # H.deg[w] \/ \E x \in DOMAIN img : img[x] \notin DOMAIN H.tail[w]
            THEN <<>>
            ELSE LET fresh == {x \in DOMAIN img : F.tail[v][x] \notin DOMAIN vm}
                     upd == [u \in {F.tail[v][x] : x \in fresh} |->
                                H.tail[w][img[CHOOSE x \in fresh : F.tail[v][x] = u]]]
                     vm2 == vm @@ upd
                 IN IF \E x \in DOMAIN img : vm2[F.tail[v][x]] # H.tail[w][img[x]]
                    THEN <<>>
                    ELSE Propagate(F, H, M, vm2, (todo \ {v}) \cup DOMAIN upd)

(* tree: sequence of <<edge, isPick>>; first edge leaves the root; every   *)
(* other leaves the root or the tail of an earlier one; the picked edges   *)
(* are d linearly independent ones.                                        *)
TreeOk(F, tree, root, d) ==
    /\ root \in F.V
    /\ \A i \in 1..Len(tree) :
          LET e == tree[i][1] IN
          /\ e[1] \in F.V
          /\ \E x \in DOMAIN F.edge[e[1]] : F.edge[e[1]][x] = e
          /\ (e[1] = root \/ \E j \in 1..(i - 1) : tree[j][1][2] = e[1])
    /\ LET pk == SelectSeq(tree, LAMBDA t : t[2] = 1)
       IN Len(pk) = d /\ Det([i \in 1..d |-> VecOf(F, pk[i][1])]) # 0

Finish(F, H, root, w, B, C, d) ==
    (* M * B = C  with the picked vectors as columns                       *)
    LET dB == Det(B)
        N == MatMul(C, Adj(B))
    IN IF \E i \in 1..d, j \in 1..d : ~Divides(dB, N[i][j]) THEN {}
       ELSE LET M == [i \in 1..d |-> [j \in 1..d |-> Quot(N[i][j], dB)]]
            IN IF Abs(Det(M)) # 1 THEN {}
               ELSE LET vm == Propagate(F, H, M, root :> w, {root})
                    IN IF vm = <<>> THEN {}
                       ELSE IF {vm[v] : v \in F.V} = H.V THEN {<<M, vm>>} ELSE {}

RECURSIVE Assign(_, _, _, _, _, _, _, _, _, _)
Assign(F, H, tree, root, w, B, d, i, img, cols) ==
    IF i > Len(tree) THEN Finish(F, H, root, w, B, Transp(cols), d)
    ELSE LET e == tree[i][1]
             h == img[e[1]]
             t == e[2]
         IN UNION {IF t \in DOMAIN img /\ img[t] # H.tail[h][x] THEN {}
                   ELSE IF F.deg[t] # H.deg[H.tail[h][x]] THEN {}
                   ELSE Assign(F, H, tree, root, w, B, d, i + 1,
                               IF t \in DOMAIN img THEN img ELSE img @@ (t :> H.tail[h][x]),
                               IF tree[i][2] = 1 THEN Append(cols, x) ELSE cols)
                   : x \in DOMAIN H.tail[h]}

Isos(F, H, tree, root, d) ==
    IF Cardinality(F.V) # Cardinality(H.V) \/ Cardinality(F.E) # Cardinality(H.E) THEN {}
    ELSE LET pk == SelectSeq(tree, LAMBDA t : t[2] = 1)
             B == Transp([i \in 1..d |-> VecOf(F, pk[i][1])])
         IN UNION {Assign(F, H, tree, root, w, B, d, 1, root :> w, <<>>)
                   : w \in {x \in H.V : H.deg[x] = F.deg[root]}}

(* ---- consequences ------------------------------------------------------ *)
EdgeImage(F, a, e) == F.edge[a[2][e[1]]][MatVec(a[1], VecOf(F, e))]
IdAut(F, d) == <<Ident(d), [v \in F.V |-> v]>>
Compose(a, b) == <<MatMul(a[1], b[1]), [v \in DOMAIN b[2] |-> a[2][b[2][v]]]>>
VertexOrbits(F, A) == {{a[2][v] : a \in A} : v \in F.V}
EdgeOrbits(F, A) == {{Canon(EdgeImage(F, a, e)) : a \in A} : e \in F.E}
Translations(A, d) == {a \in A : a[1] = Ident(d)}
(* positions modulo the lattice                                            *)
Cell(P, D, v) == [i \in 1..Len(P[v]) |-> P[v][i] % D]
LadderSyms(A, d, P, D) == {a \in Translations(A, d) :
                             /\ \A v \in DOMAIN a[2] : Cell(P, D, v) = Cell(P, D, a[2][v])
                             /\ \E v \in DOMAIN a[2] : a[2][v] # v}

RECURSIVE Closure(_, _)
Closure(H, gens) == LET X == H \cup {Compose(a, g) : a \in H, g \in gens}
                    IN IF X = H THEN H ELSE Closure(X, gens)
(* all subgroups of the pure translations R without ladder symmetries      *)
(* generated by at most d elements (each embeds in R^d)                    *)
LadderFree(R, L, id, d) ==
    LET gens == IF d = 2 THEN {{a, b} : a \in R, b \in R} ELSE {{a, b, c} : a \in R, b \in R, c \in R}
    IN {H \in {Closure({id}, g) : g \in gens} : H \cap L = {}}

(* ---- quotient by a group H of pure translations ------------------------ *)
(* The translations of H are multiples of 1/h for h = |H|, so the lattice   *)
(* spanned by Z^d and these translations is given by a row basis B of its   *)
(* h-fold multiple, which has determinant +- h^(d-1).                       *)
ShiftsOf(P, D, H, v) == {[i \in 1..Len(P[v]) |-> Quot((P[a[2][v]][i] - P[v][i]) * Cardinality(H), D)] : a \in H}
LatGens(P, D, H, d, v) == ShiftsOf(P, D, H, v) \cup {VScale(Cardinality(H), VUnit(d, k)) : k \in 1..d}
InLattice(B, x) == LET dB == Det(B) y == MatVec(Adj(Transp(B)), x)
                   IN \A i \in 1..Len(x) : Divides(dB, y[i])
IsLatticeBasis(B, P, D, H, d, v) ==
    /\ \A a \in H, i \in 1..d : Divides(D, (P[a[2][v]][i] - P[v][i]) * Cardinality(H))
    /\ \A x \in LatGens(P, D, H, d, v) : InLattice(B, x)
    /\ Abs(Det(B)) = Cardinality(H) ^ (d - 1)
(* coordinates of x / D in the basis B / h, over D * h^(d-2)                *)
InBasis(B, x) == LET y == MatVec(Adj(Transp(B)), x)
                 IN IF Det(B) < 0 THEN VNeg(y) ELSE y
QDenom(D, H, d) == IF d < 3 THEN D ELSE D * Cardinality(H)
Quotient(E, P, D, H, B) ==
    LET d == Len(B)
        m == QDenom(D, H, d)
        rep == [v \in Verts(E) |-> Min({a[2][v] : a \in H})]
        shift(e) == LET y == InBasis(B, VSub(VAdd(EVec(P, D, e), P[rep[e[1]]]), P[rep[e[2]]]))
                    IN [i \in 1..d |-> Quot(y[i], m)]
    IN {Canon(<<rep[e[1]], rep[e[2]], shift(e)>>) : e \in E}
Lcm(a, b) == a * (b \div Gcd(a, b))
=============================================================================
