---------------------------- MODULE PartitionGen ----------------------------
(* Generates client histories for replay into the real Partition.          *)
EXTENDS Partition, TLC, Json
CONSTANTS N, K
VARIABLES hist, P
Elem == 1..N
Ops == {<<"u", a, b>> : a, b \in Elem} \cup {<<"f", a>> : a \in Elem}
Init == hist = <<>> /\ P = {}
Do(o) == /\ hist' = Append(hist, o)
         /\ P' = IF o[1] = "u" THEN Joined(P, o[2], o[3]) ELSE P
Next == Len(hist) < K /\ \E o \in Ops : Do(o)
Emit == Len(hist) = K => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
