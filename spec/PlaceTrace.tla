----------------------------- MODULE PlaceTrace -----------------------------
(* Placements without bounds: one event holds what a graph object said about *)
(* positions, vectors, stability and lookups of a connected graph, with all  *)
(* rationals as text, so that denominators of any size (and vertices that    *)
(* nearly collide) are decided exactly.  The positions reported need no      *)
(* certificate: a connected graph has one harmonic placement with the first   *)
(* vertex at the origin, and harmonic is what they are checked to be.         *)
EXTENDS PGraph, QMat, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
(* e.verts ascending, e.pos and e.norm in that order                          *)
QVec(p, f) == [i \in 1..e.d |-> QAdd(QSub(p[f[2]][i], p[f[1]][i]), QInt(f[3][i]))]
RECURSIVE QSumFrom(_, _)
QSumFrom(s, i) == IF i > Len(s) THEN QZeroV(e.d) ELSE QVAdd(s[i], QSumFrom(s, i + 1))
Whole == IsEvent("whole") /\ Got(
    LET E == TLCEval(EdgesOf(e.edges))
        n == Len(e.verts)
        at == TLCEval([v \in Verts(E) |-> CHOOSE i \in 1..n : e.verts[i] = v])
        p == TLCEval([v \in Verts(E) |-> e.pos[at[v]]])
        incs == TLCEval([v \in Verts(E) |-> Inc(E, v)])
        star == TLCEval([v \in Verts(E) |-> [i \in 1..Len(incs[v]) |-> QVec(p, incs[v][i])]])
        cell == TLCEval([v \in Verts(E) |-> [i \in 1..e.d |-> QMod1(p[v][i])]])
        stable == Cardinality({cell[v] : v \in Verts(E)}) = n
        loc == \A v \in Verts(E) : Cardinality({star[v][i] : i \in DOMAIN star[v]}) = Len(star[v])
        second == ~stable /\ \E v, w \in Verts(E) : v # w /\ cell[v] = cell[w] /\ SameBag(star[v], star[w])
    IN /\ Ret(p[e.verts[1]] = QZeroV(e.d) /\ \A v \in Verts(E) : QSumFrom(star[v], 1) = QZeroV(e.d), "position is not barycentric")
       /\ Ret(\A i \in 1..n : e.norm[i] = cell[e.verts[i]], "normalised position")
       /\ Ret(\A i \in DOMAIN e.vecs : e.vecs[i][2] = QVec(p, e.vecs[i][1]), "edge vector")
       /\ Ret(e.stable = stable, "stability")
       /\ Ret(e.local = loc, "local stability")
       /\ Ret(e.second = second, "second order collisions")
       /\ Ret(\A i \in DOMAIN e.looks :
                 LET v == e.looks[i][1]
                     hits == {k \in DOMAIN star[v] : star[v][k] = e.looks[i][2]}
                 IN e.looks[i][3] = (IF Cardinality(hits) = 1 THEN <<incs[v][CHOOSE k \in hits : TRUE]>> ELSE <<>>),
              "lookup by unique edge vector"), "")
(* Component measures and connectivity for shifts of any size: the rank and   *)
(* index of the cycle lattice are read off its Hermite form.  An index that   *)
(* the returned 32-bit integer cannot hold is not judged.                     *)
RECURSIVE QTimes(_)
QTimes(s) == IF s = <<>> THEN "1" ELSE QMul(Head(s), QTimes(Tail(s)))
Spans == IsEvent("spans") /\
    LET E == TLCEval(EdgesOf(e.edges))
        C == TLCEval(Cycles(E, e.d, e.v0))
        CS == TLCEval(SetToSeq(C))
        H == TLCEval(QHnf([i \in 1..Cardinality(C) |-> [k \in 1..e.d |-> QInt(CS[i][k])]], e.d))
        index == IF Len(H) < e.d THEN "0" ELSE QTimes([i \in 1..e.d |-> H[i][i]])
        fits == QLe(index, "2147483647")
        W == Component(E, e.v0)
    IN fits => Got(Ret(e.comp[1] = Cardinality(W) /\ e.comp[2] = Len(H)
                       /\ e.comp[3] = (IF index = "0" THEN <<>> ELSE <<index>>), "component measures")
                   /\ Ret(e.conn = (W = Verts(E) /\ index = "1"), "connectivity"), "")
Next == Whole \/ Spans
Spec == Init /\ [][Next]_l
=============================================================================
