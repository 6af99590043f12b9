------------------------------- MODULE PGraph -------------------------------
(***************************************************************************)
(* Quotient graphs of periodic nets.  An edge is <<h, t, s>>: it joins     *)
(* vertex h in cell x to vertex t in cell x + s, for every cell x \in Z^d. *)
(* A graph is given by the set E of its canonical edges.                   *)
(***************************************************************************)
EXTENDS Vec

Rev(e)   == <<e[2], e[1], VNeg(e[3])>>
Canon(e) == IF e[2] < e[1] \/ (e[2] = e[1] /\ LexSgn(e[3]) < 0) THEN Rev(e) ELSE e
EdgesOf(raw) == {Canon(raw[i]) : i \in 1..Len(raw)}
Verts(E) == UNION {{e[1], e[2]} : e \in E}
(* ascending order: head, tail, shift                                      *)
EdgeLt(e, f) == \/ e[1] < f[1]
                \/ e[1] = f[1] /\ e[2] < f[2]
                \/ e[1] = f[1] /\ e[2] = f[2] /\ LexLt(e[3], f[3])
(* all edges leaving v, one per direction (a loop leaves twice)            *)
Inc(E, v) == LET out == SetToSeq({e \in E : e[1] = v})
                 inn == SetToSeq({e \in E : e[2] = v})
             IN out \o [i \in 1..Len(inn) |-> Rev(inn[i])]
Directed(E) == FlattenSeq([i \in 1..Cardinality(Verts(E)) |->
                              Inc(E, SetToSortSeq(Verts(E), <)[i])])
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

(* ---- the infinite net: points are <<vertex, cell>> ------------------- *)
NetNbrs(E, p) == {<<e[2], VAdd(p[2], e[3])>> : e \in {f \in E : f[1] = p[1]}}
            \cup {<<e[1], VSub(p[2], e[3])>> : e \in {f \in E : f[2] = p[1]}}
RECURSIVE Shells(_, _, _, _)
(* sizes of the spheres of radius 1..k                                     *)
Shells(E, ball, frontier, k) ==
    IF k = 0 THEN <<>>
    ELSE LET nxt == (UNION {NetNbrs(E, p) : p \in frontier}) \ ball
         IN <<Cardinality(nxt)>> \o Shells(E, ball \cup nxt, nxt, k - 1)
CoordSeq(E, d, v, k) == LET p == <<v, VZero(d)>> IN Shells(E, {p}, {p}, k)

(* ---- components of the quotient graph, potentials, cycle lattice ------ *)
RECURSIVE Grow(_, _)
Grow(E, W) == LET X == W \cup UNION {{e[1], e[2]} : e \in {f \in E : f[1] \in W \/ f[2] \in W}}
              IN IF X = W THEN W ELSE Grow(E, X)
Component(E, v) == Grow(E, {v})
RECURSIVE Potentials(_, _)
(* phi: a partial map vertex -> cell offset along some spanning tree       *)
Potentials(E, phi) ==
    LET W == DOMAIN phi
        new == {f \in E : (f[1] \in W) # (f[2] \in W)}
    IN IF new = {} THEN phi
       ELSE LET e == CHOOSE f \in new : TRUE
            IN IF e[1] \in W
               THEN Potentials(E, phi @@ (e[2] :> VAdd(phi[e[1]], e[3])))
               ELSE Potentials(E, phi @@ (e[1] :> VSub(phi[e[2]], e[3])))
PotAt(E, d, v) == Potentials(E, v :> VZero(d))
Cycles(E, d, v) == LET phi == PotAt(E, d, v)
                   IN {VSub(VAdd(phi[e[1]], e[3]), phi[e[2]]) : e \in {f \in E : f[1] \in DOMAIN phi}}
CompSize(E, v)      == Cardinality(Component(E, v))
CompRank(E, d, v)   == LatRank(Cycles(E, d, v), d)
CompIndex(E, d, v)  == LatIndex(Cycles(E, d, v), d)   \* 0 when not of full rank
Connected(E, d) == \/ E = {}
                   \/ LET v == CHOOSE w \in Verts(E) : TRUE
                      IN Component(E, v) = Verts(E) /\ CompIndex(E, d, v) = 1

(* ---- the same net with other vertex representatives ------------------- *)
Regauged(E, phi) == {Canon(<<e[1], e[2], VSub(VAdd(phi[e[1]], e[3]), phi[e[2]])>>) : e \in E}
Between(E, u, w) == {e[3] : e \in {f \in E : f[1] = u /\ f[2] = w}}
               \cup {VNeg(e[3]) : e \in {f \in E : f[1] = w /\ f[2] = u}}
RECURSIVE GaugeFrom(_, _, _)
(* can the partial gauge phi be completed so that E becomes F?  F joins    *)
(* every vertex to the domain of phi by zero-shift edges, so the offset of *)
(* the next vertex is the shift of one of the parallel edges of E.         *)
GaugeFrom(E, F, phi) ==
    LET W == DOMAIN phi
        zs == {f \in F : IsZeroV(f[3]) /\ (f[1] \in W) # (f[2] \in W)}
    IN IF zs = {} THEN Regauged({e \in E : e[1] \in W}, phi) = {f \in F : f[1] \in W}
       ELSE LET z == CHOOSE f \in zs : TRUE
                u == IF z[1] \in W THEN z[1] ELSE z[2]
                w == IF z[1] \in W THEN z[2] ELSE z[1]
            IN \E s \in Between(E, u, w) :
                  LET psi == phi @@ (w :> VAdd(phi[u], s))
                  IN /\ \A x \in W : Between(F, w, x)
                           = {VSub(VAdd(psi[w], t), psi[x]) : t \in Between(E, w, x)}
                     /\ Between(F, w, w) = Between(E, w, w)
                     /\ GaugeFrom(E, F, psi)
ZeroTreeSpans(F, v) == Component(F, v) = Component({f \in F : IsZeroV(f[3])}, v)
IsShiftNormalized(E, F, d) ==
    /\ Verts(E) = Verts(F)
    /\ Cardinality(E) = Cardinality(F)
    /\ \A v \in Verts(F) : Component(F, v) = Component(E, v) /\ ZeroTreeSpans(F, v)
    /\ \A C \in {Component(E, v) : v \in Verts(E)} :
          LET v == CHOOSE w \in C : TRUE
          IN GaugeFrom(E, F, v :> VZero(d))

(* ---- barycentric placement -------------------------------------------- *)
(* A placed graph: positions are P[v] / D with integer vectors P[v].       *)
(* The placement is harmonic when every vertex is the average of its       *)
(* neighbours, i.e. its edge vectors sum to zero; on a connected net it    *)
(* is unique up to translation.                                            *)
EVec(P, D, e) == [i \in 1..Len(e[3]) |-> P[e[2]][i] + D * e[3][i] - P[e[1]][i]]
SumVec(d, seq) == FoldSeq(LAMBDA x, acc : VAdd(x, acc), VZero(d), seq)
Harmonic(E, d, P, D) ==
    \A v \in Verts(E) :
        LET I == Inc(E, v)
        IN IsZeroV(SumVec(d, [i \in 1..Len(I) |-> EVec(P, D, I[i])]))

(* The star of v: its edge vectors with the edges.                         *)
Star(E, P, D, v) == LET I == Inc(E, v) IN [i \in 1..Len(I) |-> <<EVec(P, D, I[i]), I[i]>>]
=============================================================================
