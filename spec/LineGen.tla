------------------------------- MODULE LineGen ------------------------------
(* All lines up to a length over an alphabet of character classes, printed   *)
(* for replay.  Checked of the reading itself: spans are in order, separated *)
(* by blanks alone, and together with comment and rest they are the whole    *)
(* line; a key comes first only; a comment holds no field.                   *)
EXTENDS Line, Json
CONSTANTS MaxLen, Alphabet
VARIABLE txt
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c)
Spec == Init /\ [][Next]_txt
r == Read(txt)
n == Len(r.fields)
Start(i) == IF i > n THEN (IF r.hash > 0 THEN r.hash ELSE r.rest) ELSE r.fields[i].a
Stop(i) == IF i = 0 THEN 1 ELSE r.fields[i].b
AllBlank(a, b) == \A k \in a..(b - 1) : IsBlank(txt[k])
Covered == \A i \in 1..(n + 1) : Stop(i - 1) <= Start(i) /\ AllBlank(Stop(i - 1), Start(i))
Separate == \A i \in 2..n : Start(i) > Stop(i - 1)
KeyFirst == \A i \in 1..n : r.fields[i].k = "key" => i = 1
NoHash == \A i \in 1..n : r.fields[i].k # "name" \/ txt[r.fields[i].a] = Quote \/ ~\E k \in r.fields[i].a..(r.fields[i].b - 1) : txt[k] = Hash
Comment == r.hash > 0 => r.rest = Len(txt) + 1
Emit == PrintT(<<"GEN", ToJson(txt)>>)
=============================================================================
