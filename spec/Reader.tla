-------------------------------- MODULE Reader ------------------------------
(* A buffered line reader over a faulty source, as a machine.  The source     *)
(* delivers at most `chunk` bytes at a time; before byte `at` (0-based) it     *)
(* fails: "interrupted" reads are repeated, any other failure ends the        *)
(* reading.  times < 0: it fails for ever.  What must come out: the lines of   *)
(* the delivered bytes, each once and in order, and, after a failure, an       *)
(* error instead of the unfinished line, whatever the chunks were.            *)
(* The machine prints its schedules for replay.                               *)
EXTENDS Utf8, Json, TLC
CONSTANTS MaxLen, Alphabet, Chunks, MaxTimes
VARIABLES text, chunk, at, kind, times, pos, fired, buf, out, status
vars == <<text, chunk, at, kind, times, pos, fired, buf, out, status>>
SeqsUpTo(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == /\ text \in SeqsUpTo(MaxLen) /\ chunk \in Chunks
        /\ at \in {-1} \cup 0..Len(text)
        /\ kind \in {"interrupted", "other"}
        /\ times \in {-1} \cup 1..MaxTimes
        /\ (at = -1 => kind = "other" /\ times = -1)
        /\ (kind = "interrupted" => times > 0)          \* or no reader could ever end
        /\ pos = 0 /\ fired = 0 /\ buf = <<>> /\ out = <<>> /\ status = "reading"
Failing == at >= 0 /\ pos >= at /\ (times < 0 \/ fired < times)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* bytes the source gives next: never past the place where it will fail       *)
Given == LET limit == IF at >= 0 /\ (times < 0 \/ fired < times) THEN at ELSE Len(text)
         IN Min({chunk, limit - pos})
Whole(b) == WholeLines(b)
Fail == /\ status = "reading" /\ Failing
        /\ IF kind = "interrupted" THEN fired' = fired + 1 /\ UNCHANGED <<buf, out, status>>
           ELSE fired' = fired + 1 /\ status' = "failed" /\ buf' = <<>> /\ UNCHANGED out
        /\ UNCHANGED <<text, chunk, at, kind, times, pos>>
Read == /\ status = "reading" /\ ~Failing /\ pos < Len(text)
        /\ LET b == buf \o SubSeq(text, pos + 1, pos + Given)
               k == Whole(b)
           IN buf' = SubSeq(b, k + 1, Len(b)) /\ out' = out \o Lines(SubSeq(b, 1, k))
        /\ pos' = pos + Given
        /\ UNCHANGED <<text, chunk, at, kind, times, fired, status>>
Eof == /\ status = "reading" /\ ~Failing /\ pos = Len(text)
       /\ status' = "done" /\ out' = out \o Lines(buf) /\ buf' = <<>>
       /\ UNCHANGED <<text, chunk, at, kind, times, pos, fired>>
Next == Fail \/ Read \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Delivered == SubSeq(text, 1, IF at >= 0 /\ kind # "interrupted" THEN at ELSE Len(text))
Failed == at >= 0 /\ kind # "interrupted"
Result == IF Failed THEN Lines(SubSeq(Delivered, 1, WholeLines(Delivered))) ELSE Lines(text)
Right == /\ (status = "done" => ~Failed /\ out = Result)
         /\ (status = "failed" => Failed /\ out = Result)
         /\ (status = "reading" => out = SubSeq(Result, 1, Len(out)))
NoneLost == LET whole == Lines(SubSeq(text, 1, WholeLines(SubSeq(text, 1, pos)))) IN status # "done" => out = whole
Ends == <>(status \in {"done", "failed"})
Emit == (pos = 0 /\ fired = 0 /\ status = "reading") =>
        PrintT(<<"GEN", ToJson([text |-> text, chunk |-> chunk, at |-> at, kind |-> kind, times |-> times])>>)
=============================================================================
