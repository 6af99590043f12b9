----------------------------- MODULE CoordImpl -----------------------------
(* The two-shell algorithm of CoordinationSequence::next, run on every       *)
(* graph of GraphGen from every start vertex: keeping only the last two      *)
(* shells is enough, because the net is undirected.                          *)
EXTENDS PGraph
CONSTANTS N, R, K, Dim, Loops0, Terms
VARIABLES G, start, last, this, k
vars == <<G, start, last, this, k>>
Box == {s \in [1..Dim -> (-R)..R] : TRUE}
AllEdges == {e \in {<<h, t, s>> : h \in 1..N, t \in 1..N, s \in Box} :
                /\ Canon(e) = e
                /\ (e[1] = e[2] /\ IsZeroV(e[3])) => Loops0}
Init == G = {} /\ start = 0 /\ last = {} /\ this = {} /\ k = 0
Grow1 == /\ start = 0 /\ Cardinality(G) < K
         /\ \E e \in AllEdges : (\A f \in G : EdgeLt(f, e)) /\ G' = G \cup {e}
         /\ UNCHANGED <<start, last, this, k>>
Begin == /\ start = 0 /\ \E v \in Verts(G) : start' = v /\ this' = {<<v, VZero(Dim)>>}
         /\ last' = {} /\ k' = 0 /\ UNCHANGED G
Step == /\ start # 0 /\ k < Terms
        /\ this' = (UNION {NetNbrs(G, p) : p \in this}) \ (this \cup last)
        /\ last' = this /\ k' = k + 1
        /\ UNCHANGED <<G, start>>
Next == Grow1 \/ Begin \/ Step
(* first principles: the points joined to the start by a walk of n steps     *)
RECURSIVE Walk(_, _)
Walk(S, n) == IF n = 0 THEN S ELSE Walk(UNION {NetNbrs(G, p) : p \in S}, n - 1)
At(n) == Walk({<<start, VZero(Dim)>>}, n)
ShellIs == (start # 0 /\ k > 0) => this = At(k) \ UNION {At(j) : j \in 0..(k - 1)}
SeqIs == (start # 0 /\ k > 0) => CoordSeq(G, Dim, start, k)[k] = Cardinality(this)
=============================================================================
