---------------------------- MODULE OperatorTrace ---------------------------
(* Trace specification of parse_operator.rs and of operators in              *)
(* parse_table.rs.  Results are sequences of length 0 (refused) or 1.        *)
EXTENDS Operator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
(* the reader of operators: all of the text or nothing                        *)
Whole(d, v, good, clause) ==
    IF v = <<>> THEN Ret(~d.ok \/ ~d.strict, clause \o ": text denoting an operator is refused")
    ELSE IF ~d.ok THEN Ret(FALSE, clause \o ": text denoting no operator is accepted")
    ELSE Ret(good, clause \o ": misread")
AffineEv == IsEvent("affine") /\
    Got(LET d == Denote(e.cps) IN Whole(d, e.v, e.v # <<>> => Same(d, e.v[1]), "affine map"), "")
(* invertible ones only                                                       *)
Coord == IsEvent("coord") /\
    Got(LET d == Denote(e.cps)
            regular == d.ok /\ QDet(d.m) # "0"
            f == [m |-> d.m, s |-> d.s]
        IN Whole([ok |-> regular, strict |-> d.ok /\ d.strict], e.v,
                 e.v # <<>> => Same(d, e.v[1].fwd) /\ e.v[1].bwd = AInv(f), "coordinate map"), "")
(* parse_operator may stop early, but what it has read is what it returns     *)
Parse == IsEvent("parse") /\
    Got(LET whole == Denote(e.cps) IN
        IF e.v = <<>> THEN Ret(~whole.ok \/ ~whole.strict, "parse: text denoting an operator is refused")
        ELSE LET k == Len(e.cps) - Len(e.v[1].rest) IN
             IF k < 0 \/ SubSeq(e.cps, k + 1, Len(e.cps)) # e.v[1].rest THEN Ret(FALSE, "parse: the rest is no rest of the text")
             ELSE LET d == Denote(SubSeq(e.cps, 1, k)) IN
                  /\ Ret(Same(d, e.v[1]), "parse: misread")
                  /\ Ret((whole.ok /\ whole.strict) => e.v[1].rest = <<>>, "parse: text is left over"), "")
(* an operator of a table entry as printed, and as read back by the code      *)
Printed == IsEvent("print") /\
    Got(LET d == Denote(e.cps)
            p == Denote(e.printed)
        IN IF ~p.ok \/ p.m # d.m \/ p.s # d.s THEN Ret(FALSE, "the printed operator is not the one read")
           ELSE Ret(IF e.back = <<>> THEN ~p.strict ELSE Same(d, e.back[1]), "the printed operator is not read back"), "")
Next == AffineEv \/ Coord \/ Parse \/ Printed
Spec == Init /\ [][Next]_l
=============================================================================
