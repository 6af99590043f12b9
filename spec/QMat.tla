-------------------------------- MODULE QMat -------------------------------
(* Matrices and vectors of exact rationals (Rat), sequences of rows.        *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC

QZeroV(n)     == [i \in 1..n |-> "0"]
QUnitV(n, k)  == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
QIdent(n)     == [i \in 1..n |-> QUnitV(n, i)]
QZeroM(m, n)  == [i \in 1..m |-> QZeroV(n)]
QVAdd(u, v)   == [i \in 1..Len(u) |-> QAdd(u[i], v[i])]
QVSub(u, v)   == [i \in 1..Len(u) |-> QSub(u[i], v[i])]
QVNeg(u)      == [i \in 1..Len(u) |-> QNeg(u[i])]
QVScale(x, u) == [i \in 1..Len(u) |-> QMul(x, u[i])]
QIsZeroV(u)   == \A i \in 1..Len(u) : u[i] = "0"
QIsZeroM(M)   == \A i \in 1..Len(M) : QIsZeroV(M[i])
QTransp(M, nc) == [j \in 1..nc |-> [i \in 1..Len(M) |-> M[i][j]]]
(* the number of columns cannot be seen in a matrix without rows             *)
QMV(M, v)     == [i \in 1..Len(M) |-> QDot(M[i], v)]
QMM(A, B, nc) == LET C == QTransp(B, nc) IN
                 [i \in 1..Len(A) |-> [j \in 1..nc |-> QDot(A[i], C[j])]]
QMAdd(A, B)   == [i \in 1..Len(A) |-> QVAdd(A[i], B[i])]
QMSub(A, B)   == [i \in 1..Len(A) |-> QVSub(A[i], B[i])]
QMNeg(A)      == [i \in 1..Len(A) |-> QVNeg(A[i])]
QHCat(A, B)   == [i \in 1..Len(A) |-> A[i] \o B[i]]
QIntegral(M)  == \A i \in 1..Len(M), j \in 1..Len(M[1]) : QIsInt(M[i][j])
QPivot(v)     == CHOOSE j \in 1..Len(v) : v[j] # "0" /\ \A k \in 1..(j - 1) : v[k] = "0"

(* ---- row reduction over the rationals ---------------------------------- *)
(* Rref(S, k, nc): the reduced echelon rows of the span of the sequence S    *)
(* whose columns before k vanish                                             *)
RECURSIVE QEchelon(_, _, _)
QEchelon(S, k, nc) ==
    IF k > nc \/ S = <<>> THEN <<>>
    ELSE LET nz == {i \in 1..Len(S) : S[i][k] # "0"}
         IN IF nz = {} THEN QEchelon(S, k + 1, nc)
            ELSE LET p == CHOOSE i \in nz : TRUE
                     piv == QVScale(QDiv("1", S[p][k]), S[p])
                     rest == [i \in 1..(Len(S) - 1) |->
                                LET r == S[IF i < p THEN i ELSE i + 1]
                                IN IF r[k] = "0" THEN r ELSE QVSub(r, QVScale(r[k], piv))]
                 IN <<piv>> \o QEchelon(rest, k + 1, nc)
RECURSIVE QBackSub(_, _)
(* clears the entries above the pivots of rows i..                           *)
QBackSub(S, i) ==
    IF i > Len(S) THEN S
    ELSE LET k == QPivot(S[i])
         IN QBackSub([j \in 1..Len(S) |-> IF j < i /\ S[j][k] # "0"
                                          THEN QVSub(S[j], QVScale(S[j][k], S[i])) ELSE S[j]], i + 1)
QRref(S, nc)  == QBackSub(QEchelon(S, 1, nc), 1)
QRank(S, nc)  == Len(QEchelon(S, 1, nc))
RECURSIVE QDet(_)
QDet(M) ==
    IF Len(M) = 0 THEN "1"
    ELSE LET nz == {i \in 1..Len(M) : M[i][1] # "0"}
         IN IF nz = {} THEN "0"
            ELSE LET p == CHOOSE i \in nz : TRUE
                     f == QDiv("1", M[p][1])
                     rest == [i \in 1..(Len(M) - 1) |->
                                LET r == M[IF i < p THEN i ELSE i + 1]
                                    s == QVSub(r, QVScale(QMul(r[1], f), M[p]))
                                IN SubSeq(s, 2, Len(s))]
                     d == QMul(M[p][1], QDet(rest))
                 IN IF p % 2 = 1 THEN d ELSE QNeg(d)
QInverse(M) == LET n == Len(M)
                   R == QRref(QHCat(M, QIdent(n)), 2 * n)
               IN [i \in 1..n |-> SubSeq(R[i], n + 1, 2 * n)]

(* ---- integer lattices: Hermite normal form ------------------------------ *)
(* rows: positive pivots, entries above a pivot reduced into [0, pivot)      *)
RECURSIVE QHermite(_, _, _)
QHermite(S, k, nc) ==
    IF k > nc \/ S = <<>> THEN <<>>
    ELSE LET nz == {i \in 1..Len(S) : S[i][k] # "0"}
         IN IF nz = {} THEN QHermite(S, k + 1, nc)
            ELSE LET p == CHOOSE i \in nz : \A j \in nz : QLe(QAbs(S[i][k]), QAbs(S[j][k]))
                     piv == IF QSgn(S[p][k]) < 0 THEN QVNeg(S[p]) ELSE S[p]
                     rest == [i \in 1..(Len(S) - 1) |->
                                LET r == S[IF i < p THEN i ELSE i + 1]
                                IN IF r[k] = "0" THEN r
                                   ELSE QVSub(r, QVScale(QFloor(QDiv(r[k], piv[k])), piv))]
                     live == SelectSeq(rest, LAMBDA r : ~QIsZeroV(r))
                 IN IF \E i \in 1..Len(live) : live[i][k] # "0"
                    THEN QHermite(<<piv>> \o live, k, nc)
                    ELSE <<piv>> \o QHermite(live, k + 1, nc)
RECURSIVE QHermiteUp(_, _)
QHermiteUp(S, i) ==
    IF i > Len(S) THEN S
    ELSE LET k == QPivot(S[i])
         IN QHermiteUp([j \in 1..Len(S) |->
                IF j < i THEN QVSub(S[j], QVScale(QFloor(QDiv(S[j][k], S[i][k])), S[i])) ELSE S[j]], i + 1)
QHnf(S, nc) == QHermiteUp(QHermite(SelectSeq(S, LAMBDA r : ~QIsZeroV(r)), 1, nc), 1)

(* rational lattices, by clearing denominators                               *)
RECURSIVE QLcmSeq(_)
QLcm(a, b) == QDiv(QMul(a, b), QGcd(a, b))
QLcmSeq(s) == IF s = <<>> THEN "1" ELSE QLcm(QDen(Head(s)), QLcmSeq(Tail(s)))
QDenM(S) == QLcmSeq(FlattenSeq(S))
QScaleM(x, S) == [i \in 1..Len(S) |-> QVScale(x, S[i])]
(* canonical basis of the lattice generated by the rational rows S           *)
QLattice(S, nc) == IF S = <<>> THEN <<>>
                   ELSE LET D == QDenM(S) IN QScaleM(QDiv("1", D), QHnf(QScaleM(D, S), nc))

(* ---- residues ------------------------------------------------------------ *)
QMod(a, p) == QSub(a, QMul(p, QFloor(QDiv(a, p))))
QModM(A, p) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> QMod(A[i][j], p)]]
RECURSIVE QModPow(_, _, _)
(* a ^ n mod p, n an integer of any size                                     *)
QModPow(a, n, p) ==
    IF n = "0" THEN QMod("1", p)
    ELSE LET h == QFloor(QDiv(n, "2"))
             r == QModPow(QMod(QMul(a, a), p), h, p)
         IN IF QAdd(h, h) = n THEN r ELSE QMod(QMul(a, r), p)
(* p prime: Fermat                                                           *)
QModInv(a, p) == IF p = "2" THEN QMod(a, p) ELSE QModPow(QMod(a, p), QSub(p, "2"), p)
RECURSIVE QModEchelon(_, _, _, _)
QModEchelon(S, k, nc, p) ==
    IF k > nc \/ S = <<>> THEN <<>>
    ELSE LET nz == {i \in 1..Len(S) : S[i][k] # "0"}
         IN IF nz = {} THEN QModEchelon(S, k + 1, nc, p)
            ELSE LET q == CHOOSE i \in nz : TRUE
                     f == QModInv(S[q][k], p)
                     piv == [j \in 1..nc |-> QMod(QMul(f, S[q][j]), p)]
                     rest == [i \in 1..(Len(S) - 1) |->
                                LET r == S[IF i < q THEN i ELSE i + 1]
                                IN IF r[k] = "0" THEN r
                                   ELSE [j \in 1..nc |-> QMod(QSub(r[j], QMul(r[k], piv[j])), p)]]
                 IN <<piv>> \o QModEchelon(rest, k + 1, nc, p)
RECURSIVE QModBack(_, _, _, _)
QModBack(S, i, nc, p) ==
    IF i > Len(S) THEN S
    ELSE LET k == QPivot(S[i])
         IN QModBack([j \in 1..Len(S) |-> IF j < i /\ S[j][k] # "0"
                        THEN [c \in 1..nc |-> QMod(QSub(S[j][c], QMul(S[j][k], S[i][c])), p)] ELSE S[j]], i + 1, nc, p)
(* with the zero rows at the end, as many rows as given                      *)
QModRref(S, nc, p) == LET R == QModBack(QModEchelon(QModM(S, p), 1, nc, p), 1, nc, p)
                      IN R \o [i \in 1..(Len(S) - Len(R)) |-> QZeroV(nc)]
=============================================================================
