--------------------------- MODULE PartitionTrace ---------------------------
(* Trace specification: is the recorded call history a behaviour of the    *)
(* abstract Partition?  Events: new, u (unite), f (find), c (classes).     *)
EXTENDS Partition, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, seen      \* seen: representatives reported since the last unite
vars == <<l, P, seen>>

Init == l = 1 /\ P = {} /\ seen = {}
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Returned == Ret(e.r = "ok", "call did not return: " \o e.r)

New == IsEvent("new") /\ P' = {} /\ seen' = {}
Unite == /\ IsEvent("u")
         /\ Returned
         /\ P' = Joined(P, e.a, e.b)
         /\ seen' = {}
Find == /\ IsEvent("f")
        /\ IF e.r # "ok" THEN Returned /\ UNCHANGED <<P, seen>>
           ELSE /\ Ret(e.v \in Block(P, e.a), "representative is not a member of the class")
                /\ Ret(\A s \in seen : Same(P, s[1], e.a) <=> s[2] = e.v,
                       "representatives do not identify classes")
                /\ seen' = seen \cup {<<e.a, e.v>>}
                /\ UNCHANGED P
GetClasses == /\ IsEvent("c")
              /\ IF e.r # "ok" THEN Returned
                 ELSE Ret(e.v = Classes(P, e.a), "classes are not the grouped list")
              /\ UNCHANGED <<P, seen>>
Next == New \/ Unite \/ Find \/ GetClasses
Spec == Init /\ [][Next]_vars
=============================================================================
