--------------------------- MODULE PartitionImpl ---------------------------
(* Implementation-shaped model of src/partitions.rs: a forest of parent    *)
(* pointers with union by rank and path compression, one action per API    *)
(* call.  Checked exhaustively: it refines the abstract Partition, the     *)
(* root walk terminates, and look-ups change no class.                     *)
EXTENDS Partition
CONSTANT N
Elem == 1..N
VARIABLES parent, rank, P        \* P: the abstract partition (history variable)
vars == <<parent, rank, P>>

RECURSIVE Root(_, _, _)
Root(par, x, fuel) == IF par[x] = x THEN x ELSE IF fuel = 0 THEN 0 ELSE Root(par, par[x], fuel - 1)
RECURSIVE PathTo(_, _, _)
PathTo(par, x, r) == IF x = r THEN {} ELSE {x} \cup PathTo(par, par[x], r)
Compress(par, x) == LET r == Root(par, x, N) IN
  [y \in Elem |-> IF y \in PathTo(par, x, r) THEN r ELSE par[y]]

Init == parent = [x \in Elem |-> x] /\ rank = [x \in Elem |-> 0] /\ P = {}

Find(a) == /\ parent' = Compress(parent, a)
           /\ UNCHANGED <<rank, P>>

Unite(a, b) ==
  LET p1 == Compress(parent, a)
      p2 == Compress(p1, b)
      x == Root(p2, a, N)
      y == Root(p2, b, N)
  IN /\ P' = Joined(P, a, b)
     /\ IF x = y THEN parent' = p2 /\ UNCHANGED rank
        ELSE IF rank[x] < rank[y]
        THEN parent' = [p2 EXCEPT ![x] = y] /\ UNCHANGED rank
        ELSE /\ parent' = [p2 EXCEPT ![y] = x]
             /\ rank' = IF rank[x] = rank[y] THEN [rank EXCEPT ![x] = @ + 1] ELSE rank

Next == \/ \E a \in Elem : Find(a)
        \/ \E a, b \in Elem : Unite(a, b)
Spec == Init /\ [][Next]_vars

Acyclic == \A x \in Elem : Root(parent, x, N) # 0
Refines == \A x, y \in Elem : Root(parent, x, N) = Root(parent, y, N) <=> Same(P, x, y)
RankGrows == \A x \in Elem : parent[x] # x => rank[x] < rank[parent[x]]
Pow2[k \in 0..N] == IF k = 0 THEN 1 ELSE 2 * Pow2[k - 1]
TreeSize(r) == Cardinality({x \in Elem : Root(parent, x, N) = r})
LogDepth == \A x \in Elem : parent[x] = x => TreeSize(x) >= Pow2[rank[x]]
FindKeepsClasses == [][(P' = P) => \A x, y \in Elem :
   (Root(parent, x, N) = Root(parent, y, N)) <=> (Root(parent', x, N) = Root(parent', y, N))]_vars
=============================================================================
