----------------------------- MODULE GroupTrace -----------------------------
(* Trace specification of spacegroups/basics.rs.                             *)
EXTENDS Group, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
N == e.n
Ops == {e.ops[i] : i \in 1..Len(e.ops)}
Linear == {f.m : f \in Ops}
OpsSeq == SetToSeq(Linear)
AllValid(s) == \A i \in 1..Len(s) : AValid(s[i], N)
NoDup(s) == Cardinality(ToSet(s)) = Len(s)

Generate == IsEvent("generate") /\
    Got(LET want == GGenerated(Ops, N) IN
        IF ~AllValid(e.v) THEN Ret(FALSE, "malformed operators")
        ELSE /\ Ret(e.v[1] = AId(N), "the first operator is not the identity")
             /\ Ret(\A i \in 1..Len(e.v) : AModZ(e.v[i]) = e.v[i], "a shift is not reduced modulo Z")
             /\ Ret(NoDup(e.v), "an operator is listed twice")
             /\ Ret(want \subseteq ToSet(e.v), "an operator of the group is missing")
             /\ Ret(ToSet(e.v) \subseteq want, "an operator outside the group"), "")

Primitive == IsEvent("primitive") /\
    Got(LET cell == e.v.cell
            f == e.v.to.fwd
            moved == {AModZ(AMul(AMul(f, g), AInv(f))) : g \in Ops}
        IN /\ Ret(Len(cell) = N /\ QLattice(cell, N) = GLattice(Ops, N), "the cell does not generate the translations")
           /\ Ret(\A i \in 1..N : APoint(f, cell[i]) = QUnitV(N, i), "the cell is not mapped to the unit cell")
           /\ Ret(AMul(f, e.v.to.bwd) = AId(N), "the way back is not the inverse")
           /\ Ret(AllValid(e.v.ops) /\ {AModZ(g) : g \in ToSet(e.v.ops)} = moved, "wrong operators in the primitive setting")
           /\ Ret(NoDup([i \in 1..Len(e.v.ops) |-> AModZ(e.v.ops[i])]), "an operator is listed twice"), "")

(* A space given as an option of a matrix with one column per basis element  *)
Space(nr, dim, good(_), clause) ==
    IF dim = 0 THEN Ret(e.v = <<>>, clause \o ": only zero qualifies")
    ELSE IF Len(e.v) = 0 THEN Ret(FALSE, clause \o ": space is absent")
    ELSE LET m == e.v[1] IN
         IF m.nr # nr \/ m.nc # dim \/ Len(m.rows) # nr THEN Ret(FALSE, clause \o ": wrong dimension")
         ELSE LET c == QTransp(m.rows, dim) IN
              IF ~(\A k \in 1..dim : good(c[k])) THEN Ret(FALSE, clause \o ": an element is not invariant")
              ELSE Ret(QRank(c, nr) = dim, clause \o ": dependent elements")
Gram == IsEvent("gram") /\
    Got(Space(Len(Positions(N)), FormSpaceDim(OpsSeq, N),
              LAMBDA c : Invariant(FormOf(c, N), Linear, N), "gram"), "")
Shift == IsEvent("shift_space") /\
    Got(Space(N, FixedDim(OpsSeq, N), LAMBDA c : \A m \in Linear : QMV(m, c) = c, "shift space"), "")
Next == Generate \/ Primitive \/ Gram \/ Shift
Spec == Init /\ [][Next]_l
=============================================================================
