---------------------------- MODULE GraphCache -----------------------------
(* The lazily filled caches of a Graph object.  Every query consults some    *)
(* caches, filling those it finds empty.  A cache is filled as a whole or    *)
(* not at all, and whatever the history, an answer read through the caches   *)
(* is the one computed from scratch.  The histories are printed and replayed *)
(* against real graphs (harness/c03.py).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Len0, Vtx
Caches == {"vertices", "incidences", "positions", "lookup", "symmetries"}
(* the caches that filling c needs                                           *)
Needs == [vertices |-> {}, incidences |-> {}, positions |-> {"vertices", "incidences"},
          lookup |-> {"vertices", "incidences", "positions"},
          symmetries |-> {"vertices", "incidences", "positions", "lookup"}]
(* query kinds, with the cache that finally answers                          *)
Kinds == [vertices |-> "vertices", directed_edges |-> "incidences", incidences |-> "incidences",
          position |-> "positions", position_normalized |-> "positions", edge_vector |-> "positions",
          by_delta |-> "lookup", is_stable |-> "positions", is_locally_stable |-> "positions",
          second_order |-> "positions", is_connected |-> "incidences", coordination |-> "incidences",
          shift_normalized |-> "incidences", component |-> "incidences", display |-> "",
          symmetries |-> "symmetries", closed |-> "symmetries", vertex_orbits |-> "symmetries",
          edge_orbits |-> "symmetries", translational_orbits |-> "lookup", is_minimal |-> "lookup",
          is_ladder |-> "lookup", ladder_symmetries |-> "lookup", minimal_image |-> "lookup"]
PerVertex == {"incidences", "position", "position_normalized", "by_delta", "coordination", "component"}
VARIABLES hist, cache, ans
vars == <<hist, cache, ans>>
(* the abstract graph: what each cache holds once computed, per vertex       *)
Truth(c, v) == IF v \in Vtx THEN <<c, v>> ELSE <<"unknown">>
Init == hist = <<>> /\ cache = [c \in Caches |-> {}] /\ ans = <<>>
Fill(S) == [c \in Caches |-> IF c \in S /\ cache[c] = {} THEN {<<v, Truth(c, v)>> : v \in Vtx} ELSE cache[c]]
Ask(k, v) ==
    LET c == Kinds[k]
        S == IF c = "" THEN {} ELSE {c} \cup Needs[c]
        full == Fill(S)
    IN /\ hist' = Append(hist, <<k, v>>)
       /\ cache' = full
       /\ ans' = IF c = "" THEN <<k>>
                 ELSE IF \E p \in full[c] : p[1] = v THEN (CHOOSE p \in full[c] : p[1] = v)[2]
                 ELSE <<"unknown">>
Next == Len(hist) < Len0 /\ \E k \in DOMAIN Kinds :
            \E v \in (IF k \in PerVertex THEN Vtx ELSE {CHOOSE x \in Vtx : TRUE}) : Ask(k, v)
(* what the last query should answer                                         *)
Independent == hist = <<>> \/
    LET q == hist[Len(hist)] c == Kinds[q[1]]
    IN ans = IF c = "" THEN <<q[1]>> ELSE Truth(c, q[2])
AllOrNothing == \A c \in Caches : cache[c] = {} \/ {p[1] : p \in cache[c]} = Vtx
Ordered == \A c \in Caches : cache[c] # {} => \A x \in Needs[c] : cache[x] # {}
Emit == Len(hist) = Len0 => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
