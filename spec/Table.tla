-------------------------------- MODULE Table -------------------------------
(* Space group tables: a reader machine stepped line by line.  Denoted(b) is  *)
(*   ok       FALSE where the bytes are no table and must be refused          *)
(*   strict   FALSE where a reader may refuse them, but not misread them      *)
(*   settings, alias, lookup   what the lines declare                         *)
(*   clear    FALSE where a name is declared twice or settings precede any    *)
(*            canonical one, so that the declarations do not say what holds   *)
EXTENDS Operator, Utf8, FiniteSets

White(c) == IsBlank(c) \/ Exotic(c)
RECURSIVE WordsFrom(_, _)
NextAt(t, i, w) == IF \E k \in i..Len(t) : White(t[k]) = w
                   THEN CHOOSE k \in i..Len(t) : White(t[k]) = w /\ \A m \in i..(k - 1) : White(t[m]) # w
                   ELSE Len(t) + 1
WordsFrom(t, i) == LET a == NextAt(t, i, FALSE) b == NextAt(t, a, TRUE) IN
                   IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, b - 1)>> \o WordsFrom(t, b)
Words(t) == WordsFrom(t, 1)
RECURSIVE JoinFrom(_, _)
JoinFrom(ws, i) == IF i > Len(ws) THEN <<>> ELSE IF i = Len(ws) THEN ws[i] ELSE ws[i] \o <<32>> \o JoinFrom(ws, i + 1)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(c) == IF c \in 32..126 THEN SubSeq(Ascii, c - 31, c - 31) ELSE "?"
RECURSIVE StrFrom(_, _)
StrFrom(t, i) == IF i > Len(t) THEN "" ELSE Ch(t[i]) \o StrFrom(t, i + 1)
Str(t) == StrFrom(t, 1)
LowerAscii(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Systems == {"oblique", "rectangular", "square", "hexagonal", "cubic", "orthorhombic", "tetragonal", "trigonal", "monoclinic", "triclinic"}
Centrings == {"p", "c", "P", "F", "I", "R", "A", "B", "C"}
AliasWord == "alias"
LookupWord == "lookup"

Table0 == [ok |-> TRUE, strict |-> TRUE, clear |-> TRUE, settings |-> <<>>, alias |-> <<>>, lookup |-> <<>>, canon |-> <<>>]
Refuse(st) == [st EXCEPT !.ok = FALSE]
Invertible(d) == d.ok /\ QDet(d.m) # "0"
Operators(st, t) ==
    LET d == Denote(t)
        n == Len(st.settings)
    IN IF ~d.ok \/ n = 0 THEN Refuse(st)
       ELSE [st EXCEPT !.settings[n].ops = Append(@, [m |-> d.m, s |-> d.s]),
                       !.strict = @ /\ d.strict /\ Len(d.s) = Len(st.settings[n].t.s)]
Alias(st, ws) ==
    IF Len(ws) < 3 THEN Refuse(st)
    ELSE [st EXCEPT !.alias = Append(@, <<ws[2], ws[3]>>), !.strict = @ /\ Len(ws) = 3,
                    !.clear = @ /\ ~\E i \in DOMAIN st.alias : st.alias[i][1] = ws[2]]
Lookup(st, ws) ==
    IF Len(ws) < 5 THEN Refuse(st)
    ELSE LET sys == Str(LowerAscii(ws[3]))
             cen == Str(ws[4])
             d == Denote(JoinFrom(ws, 5))
         IN IF sys \notin Systems \/ cen \notin Centrings \/ ~Invertible(d) THEN Refuse(st)
            ELSE [st EXCEPT !.lookup = Append(@, [name |-> ws[2], sys |-> sys, cen |-> cen, t |-> [m |-> d.m, s |-> d.s]]),
                            !.strict = @ /\ d.strict]
Setting(st, ws) ==
    LET d == Denote(JoinFrom(ws, 2)) IN
    IF ~Invertible(d) THEN Refuse(st)
    ELSE LET f == [m |-> d.m, s |-> d.s]
             canon == IF f = AId(Len(d.s)) THEN ws[1] ELSE st.canon
         IN [st EXCEPT !.settings = Append(@, [name |-> ws[1], canon |-> canon, t |-> f, ops |-> <<>>]),
                       !.canon = canon, !.strict = @ /\ d.strict,
                       !.clear = @ /\ canon # <<>> /\ ~\E i \in DOMAIN st.settings : st.settings[i].name = ws[1]]
StepLine(st, b) ==
    LET d == Decode(b) IN
    IF ~st.ok THEN st
    ELSE IF ~d.ok THEN Refuse(st)
    ELSE LET ws == Words(d.t) IN
         IF ws = <<>> \/ ws[1][1] = 35 THEN st
         ELSE IF d.t[1] = 32 THEN Operators(st, d.t)
         ELSE IF Str(LowerAscii(ws[1])) = AliasWord THEN Alias(st, ws)
         ELSE IF Str(LowerAscii(ws[1])) = LookupWord THEN Lookup(st, ws)
         ELSE IF White(d.t[1]) THEN [Setting(st, ws) EXCEPT !.strict = FALSE, !.clear = FALSE, !.ok = TRUE]
         ELSE Setting(st, ws)
RECURSIVE RunLines(_, _, _)
RunLines(st, ls, i) == IF i > Len(ls) THEN st ELSE RunLines(StepLine(st, ls[i]), ls, i + 1)
Denoted(b) == RunLines(Table0, Lines(b), 1)

(* ---- a reported table: settings as <<name, printed lines>> ---------------- *)
Prefixed(t, p) == Len(t) >= Len(p) /\ Str(SubSeq(t, 1, Len(p))) = p
After(t, p) == SubSeq(t, Len(p) + 1, Len(t))
IsOp(t, f) == LET d == Denote(t) IN d.ok /\ d.m = f.m /\ d.s = f.s
(* rows of a printed setting are recognised by what they begin with           *)
Row(p, lines) == IF \E k \in DOMAIN lines : Prefixed(lines[k], p)
                 THEN LET k == CHOOSE k \in DOMAIN lines : Prefixed(lines[k], p) IN After(lines[k], p)
                 ELSE <<>>
OpsFrom(lines) == IF \E k \in DOMAIN lines : Prefixed(lines[k], "Operators:")
                  THEN SubSeq(lines, (CHOOSE k \in DOMAIN lines : Prefixed(lines[k], "Operators:")) + 1, Len(lines))
                  ELSE <<>>
SettingOk(x, lines) ==
    /\ Row("Setting Name: ", lines) = x.name
    /\ Row("Group name: ", lines) = x.canon
    /\ IsOp(Row("Transform: ", lines), x.t)
    /\ LET ops == OpsFrom(lines) IN Len(ops) = Len(x.ops) /\ \A i \in DOMAIN ops : IsOp(ops[i], x.ops[i])
SettingsOk(xs, gs) ==
    /\ Len(xs) = Len(gs)
    /\ \A i \in DOMAIN xs : \E j \in DOMAIN gs : gs[j][1] = xs[i].name /\ SettingOk(xs[i], gs[j][2])
AliasOk(xs, gs) == Len(xs) = Len(gs) /\ {xs[i] : i \in DOMAIN xs} = {gs[i] : i \in DOMAIN gs}
LookupOk(xs, gs) ==
    /\ Len(xs) = Len(gs)
    /\ \A i \in DOMAIN xs : /\ Row("Lookup name: ", gs[i]) = xs[i].name
                            /\ Str(Row("Crystal system: ", gs[i])) = xs[i].sys
                            /\ Str(Row("Centering: ", gs[i])) = xs[i].cen
                            /\ IsOp(Row("Transform: ", gs[i]), xs[i].t)
(* picks: <<system, centring>> as texts, asked of the table                    *)
PickOk(xs, pick, got) ==
    LET due == SelectSeq(xs, LAMBDA x : x.sys = pick[1] /\ x.cen = pick[2]) IN
    /\ Len(got) = Len(due)
    /\ \A i \in DOMAIN due : /\ got[i].name = due[i].name
                             /\ got[i].fwd = due[i].t
                             /\ got[i].bwd = AInv(due[i].t)
=============================================================================
