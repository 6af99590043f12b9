------------------------------ MODULE Operator ------------------------------
(* Coordinate-triplet notation, read by an explicit state machine.           *)
(* A text is a sequence of code points.  Denote(text) is                     *)
(*   [ok |-> FALSE]                       no operator is denoted, or          *)
(*   [ok |-> TRUE, m, s, strict]          the affine map denoted; where not   *)
(* strict a reader may also refuse the text (numbers beyond the machine's,    *)
(* blanks around '*', exotic blanks, upper-case axes, axes beyond the         *)
(* dimension whose terms cancel), but not read it as anything else.           *)
EXTENDS Affine

(* ---- tokens --------------------------------------------------------------*)
IsDigit(c)  == c \in 48..57
IsBlank(c)  == c \in {32, 9}
Exotic(c)   == c \in {10, 11, 12, 13, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
AxisOf(c)   == CASE c \in {120, 88} -> 1 [] c \in {121, 89} -> 2 [] c \in {122, 90} -> 3 [] OTHER -> 0
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsEnd(t, i + 1) ELSE i
RECURSIVE ValueFrom(_, _, _, _)
ValueFrom(t, i, j, acc) == IF i >= j THEN acc ELSE ValueFrom(t, i + 1, j, QAdd(QMul(acc, "10"), QInt(t[i] - 48)))
Tok(k, v, sp, odd) == [k |-> k, v |-> v, sp |-> sp, odd |-> odd]
RECURSIVE LexFrom(_, _, _, _)
(* sp: blanks seen since the last token, odd: exotic ones among them         *)
LexFrom(t, i, sp, odd) ==
    IF i > Len(t) THEN <<Tok("end", "0", sp, odd)>>
    ELSE LET c == t[i] IN
         IF IsBlank(c) THEN LexFrom(t, i + 1, TRUE, odd)
         ELSE IF Exotic(c) THEN LexFrom(t, i + 1, TRUE, TRUE)
         ELSE IF IsDigit(c) THEN LET j == DigitsEnd(t, i) IN
              <<Tok("num", ValueFrom(t, i, j, "0"), sp, odd \/ j - i > 9)>> \o LexFrom(t, j, FALSE, FALSE)
         ELSE LET k == CASE AxisOf(c) > 0 -> "axis" [] c = 43 -> "plus" [] c = 45 -> "minus" [] c = 47 -> "slash"
                         [] c = 42 -> "star" [] c = 44 -> "comma" [] OTHER -> "bad"
              IN <<Tok(k, QInt(AxisOf(c)), sp, odd \/ c \in {88, 89, 90})>> \o LexFrom(t, i + 1, FALSE, FALSE)
Lex(t) == LexFrom(t, 1, FALSE, FALSE)

(* ---- the machine ---------------------------------------------------------*)
(* at: "start" of a coordinate, after a "sign", a "num", a "slash", a whole   *)
(* "frac", a "star", or a term is "done"; "dead" where nothing can follow     *)
NoRow == <<"0", "0", "0", "0">>                 \* x, y, z and the constant
Reader0 == [at |-> "start", sg |-> "1", num |-> "1", den |-> "1", row |-> NoRow, rows |-> <<>>,
            size |-> "1", odd |-> FALSE]
Dead(st) == [st EXCEPT !.at = "dead"]
(* size bounds every numerator and denominator met while the row is summed    *)
AddTerm(st, k, at) ==
    [st EXCEPT !.row = [st.row EXCEPT ![k] = QAdd(@, QMul(st.sg, QDiv(st.num, st.den)))],
               !.size = QMul(QMul(@, QAdd(st.num, "1")), QMul("2", st.den)),
               !.sg = "1", !.num = "1", !.den = "1", !.at = at]
EndRow(st) == [st EXCEPT !.rows = Append(@, st.row), !.row = NoRow, !.at = "start"]
Flush(st) == IF st.at \in {"num", "frac"} THEN AddTerm(st, 4, "done") ELSE st
StepTok(st0, t) ==
    LET st == [st0 EXCEPT !.odd = @ \/ t.odd \/ (t.sp /\ (t.k = "star" \/ st0.at = "star"))] IN
    CASE t.k \in {"plus", "minus"} /\ st.at \in {"start", "num", "frac", "done"} ->
            [Flush(st) EXCEPT !.sg = IF t.k = "minus" THEN "-1" ELSE "1", !.at = "sign"]
      [] t.k = "num" /\ st.at \in {"start", "sign"} -> [st EXCEPT !.num = t.v, !.at = "num"]
      [] t.k = "num" /\ st.at = "slash" -> IF t.v = "0" THEN Dead(st) ELSE [st EXCEPT !.den = t.v, !.at = "frac"]
      [] t.k = "slash" /\ st.at = "num" -> [st EXCEPT !.at = "slash"]
      [] t.k = "star" /\ st.at \in {"num", "frac"} -> [st EXCEPT !.at = "star"]
      [] t.k = "axis" /\ st.at \in {"start", "sign", "num", "frac", "star"} -> AddTerm(st, QToInt(t.v), "done")
      [] t.k = "comma" /\ st.at \in {"num", "frac", "done"} -> EndRow(Flush(st))
      [] t.k = "end" /\ st.at \in {"num", "frac", "done"} -> [EndRow(Flush(st)) EXCEPT !.at = "end"]
      [] OTHER -> Dead(st)
RECURSIVE RunFrom(_, _, _)
RunFrom(st, ts, i) == IF i > Len(ts) \/ st.at = "dead" THEN st ELSE RunFrom(StepTok(st, ts[i]), ts, i + 1)
Run(t) == RunFrom(Reader0, Lex(t), 1)
Limit == "2000000000"
Denote(t) ==
    LET st == Run(t)
        n == Len(st.rows)
    IN IF st.at # "end" \/ n > 3 \/ \E i \in 1..n, j \in (n + 1)..3 : st.rows[i][j] # "0" THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE,
             m |-> [i \in 1..n |-> SubSeq(st.rows[i], 1, n)],
             s |-> [i \in 1..n |-> st.rows[i][4]],
             strict |-> ~st.odd /\ QLt(st.size, Limit) /\ ~\E i \in 1..Len(t), j \in (n + 1)..3 : AxisOf(t[i]) = j]
Same(d, a) == d.ok /\ a.m = d.m /\ a.s = d.s
=============================================================================
