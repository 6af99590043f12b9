------------------------------ MODULE GraphGen ------------------------------
(* All small quotient graphs: vertices 1..n (n <= N), shifts in [-R,R]^Dim,  *)
(* at most K edges.  Reachable states are the edge sets; complete ones are   *)
(* printed for replay into the real code.                                    *)
EXTENDS PGraph, Json
CONSTANTS N, R, K, Dim, Loops0
VARIABLE G
Box == {s \in [1..Dim -> (-R)..R] : TRUE}
AllEdges == {e \in {<<h, t, s>> : h \in 1..N, t \in 1..N, s \in Box} :
                /\ Canon(e) = e
                /\ (e[1] = e[2] /\ IsZeroV(e[3])) => Loops0}
Init == G = {}
Next == Cardinality(G) < K /\ \E e \in AllEdges : (\A f \in G : EdgeLt(f, e)) /\ G' = G \cup {e}
Emit == (G # {} /\ Verts(G) = 1..Max(Verts(G))) => PrintT(<<"GEN", ToJson(SetToSeq(G))>>)
=============================================================================
