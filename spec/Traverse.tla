------------------------------ MODULE Traverse ------------------------------
(* The traversal behind shift normalisation and the component measures, run  *)
(* on every small graph from every start vertex, with the edges of a vertex  *)
(* taken in any order: a queue of vertices, a cell offset for each vertex    *)
(* met, and every undirected edge given out once, re-expressed by these      *)
(* offsets.  Whatever the order, the edges given out are those of the        *)
(* component, an offset is known whenever it is needed, the result is the    *)
(* same net with other representatives and a spanning tree of zero shifts,   *)
(* and its shifts generate the lattice of the closed paths of the net.  The  *)
(* latter is decided from first principles by walking the net modulo m.      *)
EXTENDS PGraph
CONSTANTS N, R, K, Dim, Moduli
VARIABLES G, start, shifts, queue, todo, seen, out
vars == <<G, start, shifts, queue, todo, seen, out>>
Box == {s \in [1..Dim -> (-R)..R] : TRUE}
AllEdges == {e \in {<<h, t, s>> : h \in 1..N, t \in 1..N, s \in Box} : Canon(e) = e}
Here(v) == {Inc(G, v)[i] : i \in DOMAIN Inc(G, v)}
Init == G = {} /\ start = 0 /\ shifts = <<>> /\ queue = <<>> /\ todo = {} /\ seen = {} /\ out = {}
Grow1 == /\ start = 0 /\ Cardinality(G) < K
         /\ \E e \in AllEdges : (\A f \in G : EdgeLt(f, e)) /\ G' = G \cup {e}
         /\ UNCHANGED <<start, shifts, queue, todo, seen, out>>
Begin == /\ start = 0
         /\ \E v \in Verts(G) : /\ start' = v
                                /\ shifts' = (v :> VZero(Dim))
                                /\ queue' = <<v>> /\ todo' = Here(v)
         /\ UNCHANGED <<G, seen, out>>
(* the first vertex of the queue is the one whose edges are being taken      *)
Take == /\ start # 0 /\ queue # <<>> /\ todo # {}
        /\ \E e \in todo :
              LET met == e[2] \in DOMAIN shifts
                  sh == IF met THEN shifts ELSE shifts @@ (e[2] :> VAdd(shifts[e[1]], e[3]))
                  c == Canon(e)
              IN /\ shifts' = sh
                 /\ queue' = IF met THEN queue ELSE Append(queue, e[2])
                 /\ todo' = todo \ {e}
                 /\ IF c \in seen THEN UNCHANGED <<seen, out>>
                    ELSE /\ Assert(c[1] \in DOMAIN sh /\ c[2] \in DOMAIN sh, "no offset")
                         /\ seen' = seen \cup {c}
                         /\ out' = out \cup {<<c, Canon(<<c[1], c[2], VSub(VAdd(sh[c[1]], c[3]), sh[c[2]])>>)>>}
        /\ UNCHANGED <<G, start>>
Pop == /\ start # 0 /\ queue # <<>> /\ todo = {}
       /\ queue' = Tail(queue)
       /\ todo' = IF Len(queue) = 1 THEN {} ELSE Here(queue[2])
       /\ UNCHANGED <<G, start, shifts, seen, out>>
Next == Grow1 \/ Begin \/ Take \/ Pop
Spec == Init /\ [][Next]_vars
Done == start # 0 /\ queue = <<>>
(* offsets are never revised                                                 *)
Kept == [][start # 0 => \A v \in DOMAIN shifts : shifts'[v] = shifts[v]]_vars
Mine == {e \in G : e[1] \in Component(G, start)}
New == {x[2] : x \in out}
Complete == Done => seen = Mine /\ Cardinality(out) = Cardinality(seen) /\ DOMAIN shifts = Component(G, start)
SameNet == Done => Cardinality(New) = Cardinality(Mine) /\ IsShiftNormalized(Mine, New, Dim)
(* ---- first principles: the net modulo m ---------------------------------- *)
Mod(s, m) == [i \in 1..Dim |-> s[i] % m]
RECURSIVE Walked(_, _)
Walked(S, m) == LET T == S \cup UNION {{<<q[1], Mod(q[2], m)>> : q \in NetNbrs(G, p)} : p \in S}
                IN IF T = S THEN S ELSE Walked(T, m)
Back(m) == {p[2] : p \in {q \in Walked({<<start, VZero(Dim)>>}, m) : q[1] = start}}
RECURSIVE Span(_, _, _)
Span(S, gens, m) == LET T == S \cup {Mod(VAdd(x, g), m) : x \in S, g \in gens}
                    IN IF T = S THEN S ELSE Span(T, gens, m)
Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b
Lattice == Done => \A m \in Moduli : Back(m) = Span({VZero(Dim)}, {e[3] : e \in New}, m)
(* and what the trace specification demands of the measures follows from it  *)
Measures == Done =>
    LET rk == CompRank(G, Dim, start)
        ix == CompIndex(G, Dim, start)
    IN /\ CompSize(G, start) = Cardinality(DOMAIN shifts)
       /\ ix # 0 <=> rk = Dim
       /\ \A m \in {5, 7} : Cardinality(Back(m)) <= Pow(m, rk)
       /\ \E m \in {5, 7} : Cardinality(Back(m)) = Pow(m, rk)
       /\ (ix > 1 /\ ix < 9) => Cardinality(Back(ix)) * ix = Pow(ix, Dim)
       /\ Connected(G, Dim) <=> (DOMAIN shifts = Verts(G) /\ ix = 1)
(* the infinite net is connected exactly when it is so modulo every m        *)
Primes == {2, 3, 5, 7}
Full(m) == Cardinality(Walked({<<start, VZero(Dim)>>}, m)) = Cardinality(Verts(G)) * Pow(m, Dim)
Whole == Done =>
    IF Connected(G, Dim) THEN \A m \in Primes : Full(m)
    ELSE \/ \E m \in Primes : ~Full(m)
         \/ LET ix == CompIndex(G, Dim, start) IN ix > 1 /\ \A m \in Primes : ix % m # 0
=============================================================================
