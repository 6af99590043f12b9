------------------------------ MODULE BlockGen ------------------------------
(* All files up to a number of lines over a set of line kinds, printed for   *)
(* replay.  The machine of Blocks is stepped line by line; checked of it:    *)
(* every telling line is in exactly one place, in order; the blocks begin    *)
(* and end where they should; keywords come from the same block; notes are   *)
(* exactly where something was ignored, stray, unreadable or missing.        *)
EXTENDS Blocks, Json
CONSTANTS MaxLines, Kinds
VARIABLES file, st
vars == <<file, st>>
Bytes(k) ==
    CASE k = "begin"   -> <<78, 79, 100>>                       \* NOd
      [] k = "other"   -> <<107, 32, 49>>                       \* k 1
      [] k = "data"    -> <<32, 50, 32, 120>>                   \*  2 x
      [] k = "end"     -> <<32, 69, 110, 100>>                  \*  End
      [] k = "endx"    -> <<101, 110, 100, 32, 55>>             \* end 7
      [] k = "blank"   -> <<32>>
      [] k = "comment" -> <<35, 32, 113>>                       \* # q
      [] k = "unread"  -> <<34>>                                \* "
      [] k = "cut"     -> <<53, 32, 34, 113>>                   \* 5 "q
      [] k = "bad"     -> <<97, 255>>
      [] k = "quoted"  -> <<34, 101, 110, 100, 34>>             \* "end"
      [] k = "endcut"  -> <<101, 110, 100, 34>>                 \* end"
Init == file = <<>> /\ st = Blocks0
Line1 == Len(file) < MaxLines /\ \E k \in Kinds :
            file' = Append(file, k) /\ st' = StepEntry(st, LineEntry(Bytes(k), Len(file)))
Next == Line1
Spec == Init /\ [][Next]_vars

bs == Close(st)
RECURSIVE Flat(_)
Flat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs).entries \o Flat(Tail(xs))
RECURSIVE Wanted(_)
Wanted(i) == IF i > Len(file) THEN <<>>
             ELSE (IF file[i] \in {"blank", "comment"} THEN <<>> ELSE <<i - 1>>) \o Wanted(i + 1)
EachLineOnce == [i \in DOMAIN Flat(bs) |-> Flat(bs)[i].line] = Wanted(1)
Same == LET RECURSIVE Text(_)
            Text(i) == IF i > Len(file) THEN <<>> ELSE Bytes(file[i]) \o <<10>> \o Text(i + 1)
        IN Grouped(Entries(Text(1), FALSE)) = bs
Begins(b) == {i \in DOMAIN b.entries : b.entries[i].type = "Begin"}
Ends(b) == {i \in DOMAIN b.entries : b.entries[i].type = "End"}
Shape == \A k \in DOMAIN bs : LET b == bs[k] n == Len(b.entries) IN
    /\ n > 0 /\ Ends(b) \subseteq {n}
    /\ (k < Len(bs) => Ends(b) # {})
    /\ IF b.type = Void THEN Begins(b) = {}
       ELSE \E i \in 1..n : Begins(b) = {i} /\ b.entries[i].key = <<b.type>> /\ b.entries[i].line = b.start
    /\ b.entries[n].line = b.end
(* a data line without keyword has the one of the nearest keyed line after    *)
(* the beginning of its block                                                 *)
Keyed(b, i) == \E j \in 1..i : b.entries[j].type = "Data" /\ file[b.entries[j].line + 1] \in {"begin", "other"}
Keywords == \A k \in DOMAIN bs : LET b == bs[k] IN
    \A i \in DOMAIN b.entries : b.entries[i].type = "Data" =>
        IF Keyed(b, i)
        THEN LET j == CHOOSE j \in 1..i : b.entries[j].type = "Data" /\ file[b.entries[j].line + 1] \in {"begin", "other"} /\
                            \A m \in (j + 1)..i : ~(b.entries[m].type = "Data" /\ file[b.entries[m].line + 1] \in {"begin", "other"})
             IN b.entries[i].key = LineEntry(Bytes(file[b.entries[j].line + 1]), 0).key
        ELSE b.entries[i].key = <<>>
Inside(b, i) == \E j \in 1..(i - 1) : b.entries[j].type = "Begin"
Due(b, i) ==
    LET en == b.entries[i] k == file[en.line + 1] IN
    (IF k \in {"bad", "unread", "cut", "endcut"} THEN 1 ELSE 0)
    + (IF en.type = "Data" /\ ~Inside(b, i) THEN 1 ELSE 0)
    + (IF en.type = "Begin" /\ k = "other" THEN 1 ELSE 0)
    + (IF en.type = "End" /\ k = "endx" THEN 1 ELSE 0)
    + (IF en.type = "End" /\ Begins(b) = {} THEN 1 ELSE 0)
    + (IF i = Len(b.entries) /\ Begins(b) # {} /\ Ends(b) = {} THEN 1 ELSE 0)
Notes == \A k \in DOMAIN bs : \A i \in DOMAIN bs[k].entries : Len(bs[k].entries[i].notes) = Due(bs[k], i)
Emit == PrintT(<<"GEN", ToJson(file)>>)
=============================================================================
