------------------------------ MODULE LineTrace -----------------------------
(* Trace specification of io/parse_cgd_line.rs.                              *)
EXTENDS Line, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
LineEv == IsEvent("line") /\
    Got(IF e.v = <<>> THEN Ret(FALSE, "the line is refused")
        ELSE LET r == Read(e.cps) IN
             IF Len(e.v[1].fields) # Len(r.fields) THEN Ret(FALSE, "wrong number of fields")
             ELSE /\ Ret(\A i \in 1..Len(r.fields) : Matches(e.cps, r.fields[i], e.v[1].fields[i]), "a field is not the one in the text")
                  /\ Ret(TrimLeft(e.v[1].rest) = TrimLeft(SubSeq(e.cps, r.rest, Len(e.cps))), "the unread rest is wrong"), "")
Next == LineEv
Spec == Init /\ [][Next]_l
=============================================================================
