----------------------------- MODULE BlockTrace -----------------------------
(* Trace specification of io/parse_cgd_blocks.rs: parse_lines, parse_blocks. *)
(* bytes are those delivered before the reader failed for good (e.failed) or *)
(* ended.                                                                    *)
EXTENDS Blocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Say(clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(clause = "ok", clause)
BlocksEv == IsEvent("blocks") /\ Say(BlocksClause(TLCEval(Grouped(Entries(e.bytes, e.failed))), e.v))
LinesEv  == IsEvent("lines") /\ Say(LinesClause(TLCEval(Entries(e.bytes, e.failed)), e.v))
(* a file and the same file with one line made much longer by its comment     *)
TwinEv == IsEvent("twin") /\ Say(IF e.v = e.other THEN "ok" ELSE "a comment changes the blocks")
Next == TwinEv \/ BlocksEv \/ LinesEv
Spec == Init /\ [][Next]_l
=============================================================================
