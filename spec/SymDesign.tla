------------------------------ MODULE SymDesign -----------------------------
(* The search behind the symmetries of a net, run on all small locally stable *)
(* nets: lists of independent edges (at a vertex, else along a path, else     *)
(* anywhere) are compared with one fixed list; a list already reached from it *)
(* is skipped; each symmetry found merges the lists it maps to each other;    *)
(* the symmetries found generate the answer.  Whatever list comes first, the  *)
(* answer is exactly the set of automorphisms, here obtained by trying every  *)
(* vertex permutation with every matrix that may map edges to edges.  No test *)
(* of degrees or of surjectivity is needed, and the enumeration by edge trees *)
(* that the trace specification uses gives the same set.  Translations and    *)
(* ladder symmetries found from the first vertex alone are all there are.     *)
EXTENDS PGraphIso
CONSTANTS N, R, K, Dim, AllBases
VARIABLES G, F, PD, lists, i, cls, gens
vars == <<G, F, PD, lists, i, cls, gens>>
Box == {s \in [1..Dim -> (-R)..R] : TRUE}
AllEdges == {e \in {<<h, t, s>> : h \in 1..N, t \in 1..N, s \in Box} :
                Canon(e) = e /\ ~(e[1] = e[2] /\ IsZeroV(e[3]))}
(* ---- the placement, by Cramer's rule -------------------------------------- *)
Lap(E) == [a \in 1..(Cardinality(Verts(E)) - 1) |-> [b \in 1..(Cardinality(Verts(E)) - 1) |->
              LET I == Inc(E, a + 1) IN
              IF a = b THEN Cardinality({k \in DOMAIN I : I[k][2] # a + 1})
              ELSE -Cardinality({k \in DOMAIN I : I[k][2] = b + 1})]]
Pull(E) == [a \in 1..(Cardinality(Verts(E)) - 1) |->
              LET I == Inc(E, a + 1) IN SumVec(Dim, [k \in DOMAIN I |-> I[k][3]])]
Placed(E) == LET n == Cardinality(Verts(E))
                 L == Lap(E)
                 A == IF n = 2 THEN <<<<1>>>> ELSE Adj(L)
                 t == Pull(E)
             IN [D |-> Det(L),
                 P |-> [v \in 1..n |-> IF v = 1 THEN VZero(Dim)
                        ELSE [c \in 1..Dim |-> Dot(A[v - 1], [b \in 1..(n - 1) |-> t[b][c]])]]]
(* ---- lists of edges -------------------------------------------------------- *)
Indep(es) == LET M == [k \in 1..Dim |-> EVec(PD'.P, PD'.D, es[k])] IN Det(M) # 0
Stars(E) == {es \in UNION {[1..Dim -> {Inc(E, v)[k] : k \in DOMAIN Inc(E, v)}] : v \in Verts(E)} : Indep(es)}
Dir(E) == UNION {{Inc(E, v)[k] : k \in DOMAIN Inc(E, v)} : v \in Verts(E)}
Chains(E) == {es \in [1..Dim -> Dir(E)] : (\A k \in 2..Dim : es[k][1] = es[k - 1][2]) /\ Indep(es)}
AnyOf(E) == {es \in [1..Dim -> Dir(E)] : Indep(es)}
Lists(E) == IF Stars(E) # {} THEN Stars(E) ELSE IF Chains(E) # {} THEN Chains(E) ELSE AnyOf(E)
(* ---- extension of a map of one vertex, without any test of degrees ---------- *)
RECURSIVE Extend(_, _, _)
Extend(M, vm, todo) ==
    IF todo = {} THEN vm
    ELSE LET v == CHOOSE x \in todo : TRUE
             w == vm[v]
             img == [x \in DOMAIN F.tail[v] |-> MatVec(M, x)]
         IN IF \E x \in DOMAIN img : img[x] \notin DOMAIN F.tail[w] THEN <<>>
            ELSE LET upd == [u \in {F.tail[v][x] : x \in DOMAIN img} \ DOMAIN vm |->
                                F.tail[w][img[CHOOSE x \in DOMAIN img : F.tail[v][x] = u]]]
                     vm2 == vm @@ upd
                 IN IF \E x \in DOMAIN img : vm2[F.tail[v][x]] # F.tail[w][img[x]] THEN <<>>
                    ELSE Extend(M, vm2, (todo \ {v}) \cup DOMAIN upd)
(* the matrix that maps the vectors of the list a to those of the list b       *)
Matrices(a, b) ==
    LET B == Transp([k \in 1..Dim |-> VecOf(F, a[k])])
        C == Transp([k \in 1..Dim |-> VecOf(F, b[k])])
        dB == Det(B)
        X == MatMul(C, Adj(B))
    IN IF \E r \in 1..Dim, c \in 1..Dim : ~Divides(dB, X[r][c]) THEN {}
       ELSE LET M == [r \in 1..Dim |-> [c \in 1..Dim |-> Quot(X[r][c], dB)]]
            IN IF Abs(Det(M)) = 1 THEN {M} ELSE {}
(* ---- the machine --------------------------------------------------------------- *)
Init == G = {} /\ F = <<>> /\ PD = <<>> /\ lists = <<>> /\ i = 0 /\ cls = <<>> /\ gens = {}
Grow1 == /\ i = 0 /\ Cardinality(G) < K
         /\ \E e \in AllEdges : (\A f \in G : EdgeLt(f, e)) /\ G' = G \cup {e}
         /\ UNCHANGED <<F, PD, lists, i, cls, gens>>
Begin == /\ i = 0 /\ G # {} /\ Verts(G) = 1..Max(Verts(G)) /\ Connected(G, Dim)
         /\ PD' = Placed(G)
         /\ Assert(Harmonic(G, Dim, PD'.P, PD'.D), "placement")
         /\ LocallyStable(G, PD'.P, PD'.D)
         /\ F' = Figure(G, PD'.P, PD'.D, 1)
         /\ LET all == SetToSeq(Lists(G))
                n == Len(all)
            IN \E k \in (IF AllBases THEN 1..n ELSE {1, (n + 1) \div 2, n}) :
                  lists' = [j \in 1..n |-> IF j = 1 THEN all[k] ELSE IF j = k THEN all[1] ELSE all[j]]
         /\ cls' = [j \in 1..Len(lists') |-> j]
         /\ i' = 2 /\ UNCHANGED <<G, gens>>
Index(es) == CHOOSE j \in 1..Len(lists) : lists[j] = es
RECURSIVE Merged(_, _, _)
Merged(p, a, k) ==      \* unite every list with its image under a
    IF k > Len(lists) THEN p
    ELSE LET im == [j \in 1..Dim |-> EdgeImage(F, a, lists[k][j])]
             x == p[k]
             y == p[Index(im)]
         IN Merged([j \in 1..Len(p) |-> IF p[j] = y THEN x ELSE p[j]], a, k + 1)
Try == /\ i > 0 /\ i <= Len(lists)
       /\ LET found == IF cls[i] = cls[1] THEN {}
                       ELSE {<<M, Extend(M, (lists[1][1][1] :> lists[i][1][1]), {lists[1][1][1]})>> : M \in Matrices(lists[1], lists[i])}
              good == {a \in found : a[2] # <<>>}
          IN /\ gens' = gens \cup good
             /\ cls' = IF good = {} THEN cls ELSE Merged(cls, CHOOSE a \in good : TRUE, 1)
       /\ i' = i + 1 /\ UNCHANGED <<G, F, PD, lists>>
Next == Grow1 \/ Begin \/ Try
Spec == Init /\ [][Next]_vars
Done == i > 0 /\ i > Len(lists)
(* ---- first principles ------------------------------------------------------------ *)
Perms == {p \in [F.V -> F.V] : {p[v] : v \in F.V} = F.V}
AllVecs == UNION {DOMAIN F.tail[v] : v \in F.V}
Maps(M, p) == \A v \in F.V : /\ {MatVec(M, x) : x \in DOMAIN F.tail[v]} = DOMAIN F.tail[p[v]]
                             /\ \A x \in DOMAIN F.tail[v] : F.tail[p[v]][MatVec(M, x)] = p[F.tail[v][x]]
Candidates == LET B == Transp([k \in 1..Dim |-> VecOf(F, lists[1][k])])
                  dB == Det(B)
                  ok(X) == \A r \in 1..Dim, c \in 1..Dim : Divides(dB, X[r][c])
              IN {[r \in 1..Dim |-> [c \in 1..Dim |-> Quot(X[r][c], dB)]] :
                     X \in {Y \in {MatMul(Transp(C), Adj(B)) : C \in [1..Dim -> AllVecs]} : ok(Y)}}
Auts == {<<M, p>> \in {C \in Candidates : Abs(Det(C)) = 1} \X Perms : Maps(M, p)}
Answer == Closure({IdAut(F, Dim)}, gens)
OneTree == lists[1][1][1]
TreeOf == [k \in 1..Dim |-> <<lists[1][k], 1>>]
Exact == Done =>
    LET A == TLCEval(Auts) IN
    /\ Answer = A
    /\ (\A k \in 2..Dim : lists[1][k][1] = OneTree \/ \E j \in 1..(k - 1) : lists[1][j][2] = lists[1][k][1])
          => Isos(F, F, TreeOf, OneTree, Dim) = A
(* ---- translations and ladders from the first vertex -------------------------------- *)
RECURSIVE Raw(_, _)
Raw(p, v) == IF v \notin F.V THEN p
             ELSE IF p[v] = p[1] THEN Raw(p, v + 1)
             ELSE LET vm == Extend(Ident(Dim), (1 :> v), {1})
                  IN IF vm = <<>> THEN Raw(p, v + 1)
                     ELSE Raw(FoldSet(LAMBDA w, q : [u \in DOMAIN q |-> IF q[u] = q[vm[w]] THEN q[w] ELSE q[u]], p, F.V), v + 1)
Translated == Done =>
    LET A == TLCEval(Auts)
        T == Translations(A, Dim)
        p == Raw([v \in F.V |-> v], 1)
        orb == {v \in F.V : p[v] = p[1]}
        cells == [v \in F.V |-> Cell(PD.P, PD.D, v)]
        lad == LadderSyms(A, Dim, PD.P, PD.D)
        same == {v \in orb \ {1} : cells[v] = cells[1]}
    IN /\ {{u \in F.V : p[u] = p[v]} : v \in F.V} = {{a[2][v] : a \in T} : v \in F.V}
       /\ lad = {<<Ident(Dim), Extend(Ident(Dim), (1 :> v), {1})>> : v \in same}
       /\ (\A u, v \in F.V : cells[u] = cells[v] => u = v) => lad = {}
(* ---- the quotient by the translations of a net that is no ladder ---------------------- *)
RECURSIVE Hnf(_, _)
Hnf(S, k) ==
    IF k > Dim THEN <<>>
    ELSE LET nz == {x \in S : x[k] # 0}
         IN IF nz = {} THEN Hnf(S, k + 1)
            ELSE LET q == CHOOSE x \in nz : \A y \in nz : Abs(x[k]) <= Abs(y[k])
                     f(y) == IF q[k] < 0 THEN -(y[k] \div Abs(q[k])) ELSE y[k] \div q[k]
                     S2 == {VSub(y, VScale(f(y), q)) : y \in S \ {q}}
                 IN IF \E y \in S2 : y[k] # 0 THEN Hnf(S2 \cup {q}, k) ELSE <<q>> \o Hnf(S2, k + 1)
Minimal == Done =>
    LET A == TLCEval(Auts)
        T == Translations(A, Dim)
        lad == LadderSyms(A, Dim, PD.P, PD.D)
    IN (lad = {} /\ Cardinality(T) > 1) =>
       LET B == Hnf(LatGens(PD.P, PD.D, T, Dim, 1), 1)
           Q == Quotient(G, PD.P, PD.D, T, B)
           rep == {Min({a[2][v] : a \in T}) : v \in F.V}
           pq == [v \in rep |-> InBasis(B, PD.P[v])]
           dq == QDenom(PD.D, T, Dim)
           f2 == Figure(Q, pq, dq, 1)
       IN /\ IsLatticeBasis(B, PD.P, PD.D, T, Dim, 1)
          /\ Verts(Q) = rep /\ Cardinality(Q) * Cardinality(T) = Cardinality(G)
          /\ Connected(Q, Dim) /\ Harmonic(Q, Dim, pq, dq) /\ LocallyStable(Q, pq, dq)
          /\ \A v \in rep : \A w \in rep : v # w => Propagate(f2, f2, Ident(Dim), v :> w, {v}) = <<>>
=============================================================================
