------------------------------- MODULE Blocks -------------------------------
(* Net-description files: entries, one per line, and the machine that groups *)
(* them into blocks.                                                         *)
EXTENDS Line, Utf8, Sequences

(* lower case of keywords; a keyword with other characters, among them those   *)
(* whose lower case depends on their neighbours or is longer, is not judged    *)
Judged(c) == \/ c < 384 /\ c # 304
            \/ c \in (913..929) \cup (932..939) \cup (945..974)            \* Greek
            \/ c \in 1024..1119                                          \* Cyrillic
            \/ c \in (8192..8399) \cup (12288..40959) \cup (44032..55203) \cup (126976..129791)
LowerChar(c) ==
    CASE c \in 65..90 \/ (c \in 192..222 /\ c # 215) -> c + 32
      [] c \in (256..303) \cup (306..311) \cup (330..375) -> IF c % 2 = 0 THEN c + 1 ELSE c
      [] c \in (313..328) \cup (377..382) -> IF c % 2 = 1 THEN c + 1 ELSE c
      [] c = 376 -> 255
      [] c \in (913..939) \cup (1040..1071) -> c + 32
      [] c \in 1024..1039 -> c + 80
      [] OTHER -> c
Unjudged == <<-1>>
Lower(t) == IF \A i \in 1..Len(t) : Judged(t[i]) THEN [i \in 1..Len(t) |-> LowerChar(t[i])] ELSE Unjudged
SameKey(x, g) == x = g \/ (x = <<Unjudged>> /\ g # <<>>)
EndWord == <<101, 110, 100>>

(* ---- entries ------------------------------------------------------------- *)
(* notes are <<kind, what>>; "unread" refers to the rest of the line          *)
LineEntry(b, n) ==
    LET d == Decode(b) IN
    IF ~d.ok THEN [type |-> "Error", key |-> <<>>, fields |-> <<>>, text |-> <<>>, rest |-> <<>>,
                   notes |-> <<<<"E", "error">>>>, line |-> n]
    ELSE LET r == Read(d.t)
             rest == SubSeq(d.t, r.rest, Len(d.t))
             notes == IF rest = <<>> THEN <<>> ELSE <<<<"E", "unread">>>>
             keyed == r.fields # <<>> /\ r.fields[1].k = "key"
         IN [type |-> IF r.fields = <<>> THEN "Empty" ELSE "Data",
             key |-> IF keyed THEN <<Lower(r.fields[1].v)>> ELSE <<>>,
             fields |-> IF keyed THEN Tail(r.fields) ELSE r.fields,
             text |-> d.t, rest |-> rest, notes |-> notes, line |-> n]
ReadError(n) == [type |-> "Error", key |-> <<>>, fields |-> <<>>, text |-> <<>>, rest |-> <<>>,
                 notes |-> <<<<"E", "error">>>>, line |-> n]
(* failed: the reader failed for good behind these bytes, which cut off the   *)
(* unfinished line                                                            *)
Entries(b, failed) ==
    LET ls == Lines(IF failed THEN SubSeq(b, 1, WholeLines(b)) ELSE b) IN
    [i \in 1..Len(ls) |-> LineEntry(ls[i], i - 1)] \o (IF failed THEN <<ReadError(Len(ls))>> ELSE <<>>)
Noted(en, kind, what) == [en EXCEPT !.notes = Append(@, <<kind, what>>)]

(* ---- the machine --------------------------------------------------------- *)
NoBlock == [type |-> <<>>, start |-> 0, end |-> 0, entries |-> <<>>]
Void == <<45, 45, 118, 111, 105, 100, 45, 45>>          \* --void--
Blocks0 == [done |-> <<>>, cur |-> NoBlock, in |-> FALSE, key |-> <<>>]
Push(st, en) == [st EXCEPT !.cur.entries = Append(@, en)]
Begin(st, en) ==
    LET x == [en EXCEPT !.type = "Begin"]
        y == IF en.fields = <<>> THEN x ELSE Noted(x, "W", "begin")
    IN [Push(st, y) EXCEPT !.in = TRUE, !.key = <<>>, !.cur.type = en.key[1], !.cur.start = en.line]
Finish(st, en) ==
    LET x == [en EXCEPT !.type = "End"]
        y == IF st.in THEN x ELSE Noted(x, "E", "void")
        z == IF en.fields = <<>> THEN y ELSE Noted(y, "W", "end")
        c == Push(st, z).cur
    IN [Blocks0 EXCEPT !.done = Append(st.done,
            [c EXCEPT !.end = en.line, !.type = IF st.in THEN @ ELSE Void, !.start = IF st.in THEN @ ELSE en.line])]
StepEntry(st, en) ==
    CASE en.type = "Empty" -> IF en.notes = <<>> THEN st ELSE Push(st, en)
      [] en.type = "Error" -> Push(st, en)
      [] en.key = <<EndWord>> -> Finish(st, en)
      [] en.key # <<>> -> IF st.in THEN [Push(st, en) EXCEPT !.key = en.key] ELSE Begin(st, en)
      [] OTHER -> LET x == [en EXCEPT !.key = st.key] IN
                  Push(st, IF st.in THEN x ELSE Noted(x, "E", "outside"))
Close(st) ==
    LET c == st.cur
        n == Len(c.entries)
    IN IF st.in THEN Append(st.done, [c EXCEPT !.end = c.entries[n].line, !.entries[n] = Noted(@, "E", "unfinished")])
       ELSE IF n > 0 THEN Append(st.done, [c EXCEPT !.type = Void, !.start = c.entries[1].line, !.end = c.entries[n].line])
       ELSE st.done
RECURSIVE RunFrom(_, _, _)
RunFrom(st, es, i) == IF i > Len(es) THEN st ELSE RunFrom(StepEntry(st, es[i]), es, i + 1)
Grouped(es) == Close(RunFrom(Blocks0, es, 1))

(* ---- reported entries ---------------------------------------------------- *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(c) == IF c \in 32..126 THEN SubSeq(Ascii, c - 31, c - 31) ELSE "?"
RECURSIVE StrFrom(_, _)
StrFrom(t, i) == IF i > Len(t) THEN "" ELSE Ch(t[i]) \o StrFrom(t, i + 1)
Str(t) == StrFrom(t, 1)
Unread == "unparsed line ending '"
Says(what, rest, t) ==
    CASE what = "error"      -> TRUE
      [] what = "unread"     -> LET n == Len(Unread) IN
                                /\ Len(t) > n /\ t[Len(t)] = 39 /\ Str(SubSeq(t, 1, n)) = Unread
                                /\ TrimLeft(SubSeq(t, n + 1, Len(t) - 1)) = TrimLeft(rest)
      [] what = "begin"      -> Str(t) = "text after block type ignored"
      [] what = "end"        -> Str(t) = "text after 'end' ignored"
      [] what = "void"       -> Str(t) = "block has no type or content"
      [] what = "outside"    -> Str(t) = "data found before block start"
      [] what = "unfinished" -> Str(t) = "final block is missing an 'end' statement"
(* the notes due, in any order                                                *)
NotesOk(x, notes) ==
    /\ Len(notes) = Len(x.notes)
    /\ \E f \in [1..Len(notes) -> 1..Len(notes)] :
          /\ \A i, j \in DOMAIN f : i # j => f[i] # f[j]
          /\ \A i \in DOMAIN f : x.notes[i][1] = notes[f[i]][1] /\ Says(x.notes[i][2], x.rest, notes[f[i]][2])
EntryClause(x, g) ==
    CASE x.type # g.type -> "wrong kind of entry"
      [] x.line # g.line -> "wrong line number"
      [] x.type # "Error" /\ g.content # <<x.text>> -> "wrong content"
      [] x.type \in {"Begin", "End", "Data"} /\ ~SameKey(x.key, g.key) -> "wrong keyword"
      [] Len(x.fields) # Len(g.fields) \/ \E i \in 1..Len(g.fields) : ~Matches(x.text, x.fields[i], g.fields[i]) -> "wrong fields"
      [] ~NotesOk(x, g.notes) -> "wrong notes"
      [] OTHER -> "ok"
FirstBad(xs, gs) == IF Len(xs) # Len(gs) THEN "wrong number of entries"
                    ELSE IF \A i \in 1..Len(xs) : EntryClause(xs[i], gs[i]) = "ok" THEN "ok"
                    ELSE LET i == CHOOSE i \in 1..Len(xs) : EntryClause(xs[i], gs[i]) # "ok" IN EntryClause(xs[i], gs[i])
(* line numbers of a trailing run of entries in no block are not fixed        *)
BlockClause(x, g) ==
    CASE x.type # g.type /\ x.type # Unjudged -> "wrong block type"
      [] x.type # Void /\ (x.start # g.start \/ x.end # g.end) -> "wrong block lines"
      [] x.type = Void /\ x.entries[Len(x.entries)].type = "End" /\ x.end # g.end -> "wrong block lines"
      [] OTHER -> FirstBad(x.entries, g.entries)
BlocksClause(xs, gs) == IF Len(xs) # Len(gs) THEN "wrong number of blocks"
                        ELSE IF \A i \in 1..Len(xs) : BlockClause(xs[i], gs[i]) = "ok" THEN "ok"
                        ELSE LET i == CHOOSE i \in 1..Len(xs) : BlockClause(xs[i], gs[i]) # "ok" IN BlockClause(xs[i], gs[i])
Telling(en) == en.type # "Empty" \/ en.notes # <<>>
LinesClause(xs, gs) == FirstBad(SelectSeq(xs, Telling), SelectSeq(gs, Telling))
=============================================================================
