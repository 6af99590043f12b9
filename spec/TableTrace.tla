----------------------------- MODULE TableTrace -----------------------------
(* Trace specification of parse_table.rs, and what holds of the shipped      *)
(* table.                                                                    *)
EXTENDS Table, Group, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
Judge(d) ==
    IF e.v = <<>> THEN Ret(~d.ok \/ ~d.strict, "a table is refused")
    ELSE IF ~d.ok THEN Ret(FALSE, "text that is no table is accepted")
    ELSE IF ~d.clear THEN TRUE
    ELSE LET v == e.v[1] IN
         /\ Ret(SettingsOk(d.settings, v.settings), "wrong settings")
         /\ Ret(AliasOk(d.alias, v.alias), "wrong aliases")
         /\ Ret(LookupOk(d.lookup, v.lookup), "wrong lookup entries")
         /\ Ret(\A i \in DOMAIN e.pick : PickOk(d.lookup, e.pick[i], v.picked[i]), "lookup_settings: wrong entries")
TableEv == IsEvent("table") /\ Got(Judge(TLCEval(Denoted(e.bytes))), "")
(* names of crystal systems and centrings                                     *)
NamesEv == IsEvent("names") /\
    Got(LET t == Str(e.cps)
            x == IF e.what = "system" THEN Str(LowerAscii(e.cps)) ELSE t
            known == (\A i \in DOMAIN e.cps : e.cps[i] \in 33..126) /\ x \in (IF e.what = "system" THEN Systems ELSE Centrings)
        IN IF known THEN e.v = <<x>> ELSE e.v = <<>>, "wrong name of a crystal system or centring")

(* ---- the shipped table, as reported --------------------------------------- *)
Op(t) == LET d == Denote(t) IN [m |-> d.m, s |-> d.s]
Reported(lines) == LET o == OpsFrom(lines) IN {AModZ(Op(o[i])) : i \in DOMAIN o}
Sub(S, idx, lines) == LET o == OpsFrom(lines) IN {AModZ(Op(o[idx[i]])) : i \in DOMAIN idx}
(* gens: places of operators generating all                                    *)
GroupEv == IsEvent("group") /\
    Got(LET S == TLCEval(Reported(e.lines))
            n == Len(Op(Row("Transform: ", e.lines)).s)
        IN Ret(Cardinality(S) = Len(OpsFrom(e.lines)) /\ S = GGenerated(Sub(S, e.gens, e.lines), n),
                  "the operators of a setting form no group"), "")
(* the transform takes coordinates of the setting to those of the canonical   *)
(* one: its operators go to operators of that group, its lattice to that      *)
(* lattice, and the point groups have the same order                           *)
Lins(S) == {f.m : f \in S}
TransformEv == IsEvent("transform") /\
    Got(LET S == TLCEval(Reported(e.lines))
            C == TLCEval(Reported(e.canon))
            T == Op(Row("Transform: ", e.lines))
            n == Len(T.s)
            Ti == AInv(T)
            LC == TLCEval(GLattice(C, n))
            LS == TLCEval(GLattice(S, n))
            inv == TLCEval(QTransp(QInverse(LC), n))
            In(v) == \A x \in {QMV(inv, v)[i] : i \in 1..n} : QIsInt(x)
            taken(f) == AMul(AMul(T, f), Ti)
        IN /\ Ret(QLattice([i \in 1..Len(LS) |-> QMV(T.m, LS[i])], n) = LC, "a transform does not take the lattice to the canonical one")
           /\ Ret(Cardinality(Lins(S)) = Cardinality(Lins(C)), "the point group differs from the canonical one")
           /\ Ret(\A f \in Sub(S, e.gens, e.lines) : LET g == taken(f) IN
                     \E h \in C : h.m = g.m /\ In(QVSub(g.s, h.s)), "a transform does not take a setting to its canonical one"), "")
(* an alias may leave the choice of origin or cell open: Fd3m is Fd-3m:1 or :2 *)
NamedEv == IsEvent("named") /\
    Got(\E i \in DOMAIN e.settings : LET x == e.settings[i] n == Len(e.name) IN
           x = e.name \/ (e.open /\ Len(x) > n + 1 /\ SubSeq(x, 1, n) = e.name /\ x[n + 1] = 58),
        "an alias or lookup names no setting")
(* ---- lookups of the shipped table: the transform carries the setting to the *)
(* crystal system and centring it is listed under, in a basis fit for it       *)
Turn(m) == IF QDet(m) = "-1" THEN [i \in 1..Len(m) |-> QVNeg(m[i])] ELSE m
Trace3(m) == QAdd(m[1][1], QAdd(m[2][2], m[3][3]))
Turns(ms, t) == Cardinality({m \in {Turn(x) : x \in ms} : Trace3(m) = t})
System2(ms) == LET t == {QAdd(m[1][1], m[2][2]) : m \in {x \in ms : QDet(x) = "1"}} IN
               CASE "1" \in t \/ "-1" \in t -> "hexagonal" [] "0" \in t -> "square"
                 [] OTHER -> IF \E m \in ms : QDet(m) = "-1" THEN "rectangular" ELSE "oblique"
System3(ms) == CASE Turns(ms, "0") >= 8 -> "cubic" [] Turns(ms, "2") > 0 -> "hexagonal" [] Turns(ms, "1") > 0 -> "tetragonal"
                 [] Turns(ms, "0") > 0 -> "trigonal" [] Turns(ms, "-1") = 3 -> "orthorhombic"
                 [] Turns(ms, "-1") = 1 -> "monoclinic" [] OTHER -> "triclinic"
Half == "1/2"
CentredBy(c) == CASE c \in {"p", "P"} -> <<>>
    [] c = "c" -> <<<<Half, Half>>>>
    [] c = "A" -> <<<<"0", Half, Half>>>> [] c = "B" -> <<<<Half, "0", Half>>>> [] c = "C" -> <<<<Half, Half, "0">>>>
    [] c = "I" -> <<<<Half, Half, Half>>>>
    [] c = "F" -> <<<<"0", Half, Half>>, <<Half, "0", Half>>>>
    [] OTHER -> <<<<"2/3", "1/3", "1/3">>, <<"1/3", "2/3", "2/3">>>>
(* the other (reverse) rhombohedral centring                                   *)
ReverseR == <<<<"1/3", "2/3", "1/3">>, <<"2/3", "1/3", "2/3">>>>
(* a form of the cell with no more symmetry than the system asks for           *)
Cell(s, n) == LET a == IF s \in {"cubic", "tetragonal", "square", "hexagonal", "trigonal"} THEN "2" ELSE "3"
                  b == IF s \in {"hexagonal", "trigonal"} THEN "-1" ELSE IF s \in {"oblique", "monoclinic", "triclinic"} THEN Half ELSE "0"
              IN IF n = 2 THEN <<<<"2", b>>, <<b, a>>>>
                 ELSE LET x == IF s = "triclinic" THEN "1/3" ELSE "0" IN <<<<"2", b, x>>, <<b, a, x>>, <<x, x, IF s = "cubic" THEN "2" ELSE "5">>>>
LookedEv == IsEvent("looked") /\
    Got(LET S == TLCEval(Reported(e.lines))
            ms == Lins(S)
            T == Op(Row("Transform: ", e.entry))
            n == Len(T.s)
            sys == Str(Row("Crystal system: ", e.entry))
            cen == Str(Row("Centering: ", e.entry))
            L == GLattice(S, n)
            img == QLattice([i \in 1..Len(L) |-> QMV(T.m, L[i])], n)
            Ti == QInverse(T.m)
        IN /\ Ret(sys = (IF n = 2 THEN System2(ms) ELSE System3(ms)), "a lookup is listed under the wrong crystal system")
           /\ Ret(img = QLattice(QIdent(n) \o CentredBy(cen), n) \/ (cen = "R" /\ img = QLattice(QIdent(n) \o ReverseR, n)),
                  "a lookup's transform does not give the centring it is listed under")
           /\ Ret(QSgn(QDet(T.m)) > 0, "a lookup's transform changes the handedness")
           /\ Ret(\A m \in ms : LET k == QMM(T.m, QMM(m, Ti, n), n) IN Pulled(Cell(sys, n), k, n) = Cell(sys, n),
                  "a lookup's transform does not give the axes of its crystal system"), "")
(* every plane and space group is listed once                                  *)
CoverEv == IsEvent("cover") /\
    Got(\A i \in DOMAIN e.groups : Cardinality({k \in DOMAIN e.looked : e.looked[k] = e.groups[i]}) = 1, "a group has no lookup, or several")
CountEv == IsEvent("count") /\ Got(e.have = e.due, "settings of the shipped table are missing or too many")
(* a table and the same table with much to be ignored in between              *)
TwinEv == IsEvent("twin") /\ Got(e.v = e.other /\ e.v # <<>>, "what is to be ignored changes the table")
Next == LookedEv \/ CoverEv \/ TwinEv \/ TableEv \/ NamesEv \/ GroupEv \/ TransformEv \/ NamedEv \/ CountEv
Spec == Init /\ [][Next]_l
=============================================================================
