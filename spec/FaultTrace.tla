------------------------------ MODULE FaultTrace ----------------------------
(* Readers under faults and hostile text.  net: net-description files; the    *)
(* bytes are those before a final failure.  table: the result must be that    *)
(* of the same bytes without faults, or a refusal after a final failure.      *)
(* any: some result or rejection.                                             *)
EXTENDS Blocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Say(clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(clause = "ok", clause)
BlocksEv == IsEvent("blocks") /\ Say(BlocksClause(TLCEval(Grouped(Entries(e.bytes, e.failed))), e.v))
LinesEv  == IsEvent("lines") /\ Say(LinesClause(TLCEval(Entries(e.bytes, e.failed)), e.v))
TableEv  == IsEvent("table") /\ Say(IF e.failed THEN IF e.v = <<>> THEN "ok" ELSE "a read error is not reported"
                                    ELSE IF e.v = e.plain THEN "ok" ELSE "chunks or interrupted reads change the table")
AnyEv    == IsEvent("any") /\ Say("ok")
Next == BlocksEv \/ LinesEv \/ TableEv \/ AnyEv
Spec == Init /\ [][Next]_l
=============================================================================
