----------------------------- MODULE AffineLaws ----------------------------
(* The operators of Affine against first principles: for all maps f, g of the *)
(* plane (or line) with small entries and a few third maps and points,        *)
(* products act as compositions, inverses undo, maps act on differences by    *)
(* their linear part, reduction modulo the integers respects products of      *)
(* integral maps, and carrying a map over to other coordinates and back       *)
(* commutes with products and inverses.                                       *)
EXTENDS Affine
CONSTANTS Dim, R, Det1, Shifts
VARIABLES f, g
Mats(S) == [1..Dim -> [1..Dim -> S]]
Texts(m) == [i \in 1..Dim |-> [j \in 1..Dim |-> QInt(m[i][j])]]
Vecs == [1..Dim -> Shifts]
Init == \E m \in Mats((-R)..R), s \in Vecs : f = [m |-> Texts(m), s |-> s] /\ g = <<>>
(* the second map: any, or of determinant +-1 with one fixed shift            *)
Next == /\ g = <<>> /\ f' = f
        /\ \E n \in Mats((-R)..R), t \in Vecs :
              /\ Det1 => QDet(Texts(n)) \in {"1", "-1"} /\ \A i \in 1..Dim : t[i] = "-1/2"
              /\ g' = [m |-> Texts(n), s |-> t]
Both == g # <<>>
Half(n) == [i \in 1..n |-> IF i = 1 THEN "1/2" ELSE "-2/3"]
P == Half(Dim)
O == QUnitV(Dim, Dim)
H == [m |-> [i \in 1..Dim |-> [j \in 1..Dim |-> IF i = j THEN "2" ELSE IF j = i + 1 THEN "1/3" ELSE "0"]], s |-> QVNeg(P)]
Integral(x) == \A i, j \in 1..Dim : QIsInt(x.m[i][j])
Composed == Both => /\ APoint(AMul(f, g), P) = APoint(f, APoint(g, P))
            /\ AVector(AMul(f, g), P) = AVector(f, AVector(g, P))
            /\ APoint(AMul(f, g), QZeroV(Dim)) = AMul(f, g).s
Associative == Both => AMul(AMul(f, g), H) = AMul(f, AMul(g, H))
Units == AMul(f, AId(Dim)) = f /\ AMul(AId(Dim), f) = f
Differences == QVSub(APoint(f, P), APoint(f, O)) = AVector(f, QVSub(P, O))
Inverses == AInvertible(f) =>
    /\ AMul(f, AInv(f)) = AId(Dim) /\ AMul(AInv(f), f) = AId(Dim) /\ AInv(AInv(f)) = f
    /\ Both /\ AInvertible(g) => AInv(AMul(f, g)) = AMul(AInv(g), AInv(f))
Determinants == Both => QDet(AMul(f, g).m) = QMul(QDet(f.m), QDet(g.m))
(* no inverse where two points fall together                                  *)
Singular == ~AInvertible(f) <=> \E v \in [1..Dim -> {"-2", "-1", "0", "1", "2"}] : v # QZeroV(Dim) /\ QMV(f.m, v) = QZeroV(Dim)
Modulo == /\ AModZ(AModZ(f)) = AModZ(f)
          /\ \A i \in 1..Dim : QLe("0", AModZ(f).s[i]) /\ QLt(AModZ(f).s[i], "1") /\ QIsInt(QSub(f.s[i], AModZ(f).s[i]))
          /\ Both /\ Integral(f) => AModZ(AMul(AModZ(f), AModZ(g))) = AModZ(AMul(f, g))
Carry(x) == AMul(AMul(H, x), AInv(H))
Coordinates == /\ Both => Carry(AMul(f, g)) = AMul(Carry(f), Carry(g))
               /\ APoint(Carry(f), APoint(H, P)) = APoint(H, APoint(f, P))
               /\ AMul(AMul(AInv(H), Carry(f)), H) = f
               /\ AInvertible(f) => AInv(Carry(f)) = Carry(AInv(f))
Canonical == (Both => AValid(AMul(f, g), Dim)) /\ AValid(Carry(f), Dim) /\ AValid(AModZ(f), Dim)
=============================================================================
