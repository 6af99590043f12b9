------------------------------- MODULE TableGen ------------------------------
(* All tables up to a number of lines over a set of line kinds, printed for   *)
(* replay.  The reader machine is stepped line by line; checked of it: it     *)
(* reads the whole text alike; a table once refused stays refused; every      *)
(* declared setting, operator, alias and lookup line is counted once; an      *)
(* operator belongs to the nearest setting line before it, a setting to the   *)
(* nearest canonical one.                                                     *)
EXTENDS Table, Json, TLC
CONSTANTS MaxLines, Kinds
VARIABLES file, st
vars == <<file, st>>
Name(k) == <<112, 48 + k>>                                   \* p0, p1, ..
Bytes(k, n) ==
    CASE k = "canon"   -> Name(n) \o <<32, 120, 44, 121>>                                   \* pn x,y
      [] k = "other"   -> Name(n) \o <<32, 121, 44, 45, 120>>                               \* pn y,-x
      [] k = "shifted" -> Name(n) \o <<9, 120, 43, 49, 47, 50, 44, 32, 121>>                \* pn x+1/2, y
      [] k = "op"      -> <<32, 45, 120, 44, 121, 43, 49, 47, 48 + 2 + n>>                  \*  -x,y+1/(n+2)
      [] k = "alias"   -> <<97, 76, 105, 97, 115, 32, 113, 48 + n, 32, 112, 48>>            \* aLias qn p0
      [] k = "lookup"  -> <<76, 111, 111, 107, 117, 112, 32, 112, 48 + n, 32, 83, 113, 117, 97, 114, 101, 32, 112, 32>>
                          \o IF n % 2 = 0 THEN <<120, 44, 121>> ELSE <<120, 45, 121, 44, 120>>  \* Lookup pn Square p ..
      [] k = "hexa"    -> <<108, 111, 111, 107, 117, 112, 32, 112, 48 + n, 32, 104, 101, 120, 97, 103, 111, 110, 97, 108, 32, 80, 32, 120, 44, 121, 44, 122>>
      [] k = "blank"   -> <<32, 32>>
      [] k = "comment" -> <<32, 35, 32, 120>>
      [] k = "badop"   -> <<32, 120, 44, 63>>
      [] k = "flat"    -> Name(n) \o <<32, 120, 44, 120>>                                   \* singular transform
      [] k = "short"   -> <<97, 108, 105, 97, 115, 32, 113>>                                \* alias q
      [] k = "badsys"  -> <<108, 111, 111, 107, 117, 112, 32, 112, 32, 115, 113, 117, 32, 112, 32, 120, 44, 121>>
      [] k = "badcen"  -> <<108, 111, 111, 107, 117, 112, 32, 112, 32, 99, 117, 98, 105, 99, 32, 81, 32, 120, 44, 121>>
Init == file = <<>> /\ st = Table0
Line1 == Len(file) < MaxLines /\ st.ok /\ \E k \in Kinds :
            file' = Append(file, k) /\ st' = StepLine(st, Bytes(k, Len(file)))
Next == Line1
Spec == Init /\ [][Next]_vars
RECURSIVE Text(_)
Text(i) == IF i > Len(file) THEN <<>> ELSE Bytes(file[i], i - 1) \o <<10>> \o Text(i + 1)
WholeText == Denoted(Text(1)) = st
Places(ks) == {i \in DOMAIN file : file[i] \in ks}
SettingKinds == {"canon", "other", "shifted"}
Counted == st.ok => /\ Len(st.settings) = Cardinality(Places(SettingKinds))
                    /\ Len(st.alias) = Cardinality(Places({"alias"}))
                    /\ Len(st.lookup) = Cardinality(Places({"lookup", "hexa"}))
Refused == ~st.ok <=> \/ \E i \in DOMAIN file : file[i] \in {"badop", "flat", "short", "badsys", "badcen"}
                      \/ \E i \in DOMAIN file : file[i] = "op" /\ ~\E j \in 1..i : file[j] \in SettingKinds
Nearest(i, ks) == IF \E j \in 1..i : file[j] \in ks
                  THEN CHOOSE j \in 1..i : file[j] \in ks /\ \A m \in (j + 1)..i : file[m] \notin ks ELSE 0
Owned == st.ok => \A k \in DOMAIN st.settings :
    LET x == st.settings[k]
        i == x.name[2] - 47
        mine == {j \in Places({"op"}) : Nearest(j, SettingKinds) = i}
        c == Nearest(i, {"canon"})
    IN /\ Len(x.ops) = Cardinality(mine)
       /\ \A j \in mine : \E q \in DOMAIN x.ops : x.ops[q].s = <<"0", QDiv("1", QInt(j + 1))>>
       /\ x.canon = IF c = 0 THEN <<>> ELSE Name(c - 1)
Emit == PrintT(<<"GEN", ToJson(Text(1))>>)
=============================================================================
