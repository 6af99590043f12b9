----------------------------- MODULE OperatorGen ----------------------------
(* Walks the reader machine of Operator over all token sequences that it     *)
(* does not refuse, up to a length, each also with one refused token at the  *)
(* end; every text is printed for replay.  Checked on the way: the machine   *)
(* tokenises what it is fed one by one exactly as the whole text, refusal is *)
(* final, and what is accepted has at most three coordinates.                *)
EXTENDS Operator, Json
CONSTANTS MaxLen, Alphabet
VARIABLES txt, st
vars == <<txt, st>>
Piece(a) == CASE a = "x" -> <<120>> [] a = "y" -> <<121>> [] a = "z" -> <<122>> [] a = "+" -> <<43>> [] a = "-" -> <<45>>
              [] a = "2" -> <<50>> [] a = "3" -> <<51>> [] a = "0" -> <<48>> [] a = "/" -> <<47>> [] a = "*" -> <<42>>
              [] a = "," -> <<44>> [] a = "_" -> <<32>> [] a = "?" -> <<63>>
Init == txt = <<>> /\ st = "start"
Append1 == /\ st # "dead" /\ Len(txt) < MaxLen
           /\ \E a \in Alphabet : txt' = txt \o Piece(a)
           /\ st' = LET ts == Lex(txt') IN RunFrom(Reader0, SubSeq(ts, 1, Len(ts) - 1), 1).at
Next == Append1
Spec == Init /\ [][Next]_vars
d == Denote(txt)
Small == d.ok => Len(d.s) \in 1..3 /\ Len(d.m) = Len(d.s) /\ d.m # <<>>
NotDead == d.ok => st \in {"num", "frac", "done"}
Emit == PrintT(<<"GEN", ToJson(txt)>>)
=============================================================================
