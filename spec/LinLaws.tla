------------------------------ MODULE LinLaws -------------------------------
(* Validates the oracles of QMat against first principles, and the design of *)
(* extend_basis over the integers, on all small matrices.  Rows are added    *)
(* one at a time; B is the basis kept by the algorithm.                      *)
EXTENDS QMat, Integers
CONSTANTS NC, MaxRows, R
VARIABLES S, B
vars == <<S, B>>
I(x) == QInt(x)
QRow(v) == [j \in 1..NC |-> I(v[j])]
QS == [i \in 1..Len(S) |-> QRow(S[i])]
QB == [i \in 1..Len(B) |-> QRow(B[i])]
IsZ(v) == \A j \in 1..NC : v[j] = 0
Piv(v) == CHOOSE j \in 1..NC : v[j] # 0 /\ \A k \in 1..(j - 1) : v[k] = 0
TDiv(a, b) == LET x == IF a < 0 THEN -a ELSE a
                  y == IF b < 0 THEN -b ELSE b
                  q == x \div y
              IN IF (a < 0) = (b < 0) THEN q ELSE -q
RECURSIVE Gx(_, _, _, _, _, _)
Gx(a, a1, r, r1, s, s1) ==
    IF a1 = 0 THEN <<a, r, s, r1, s1>>
    ELSE LET q == TDiv(a, a1) IN Gx(a1, a - q * a1, r1, r - q * r1, s1, s - q * s1)
Gcdx(a, b) == Gx(a, b, 1, 0, 0, 1)
Neg(v) == [j \in 1..NC |-> -v[j]]
Ins(seq, i, x) == SubSeq(seq, 1, i - 1) \o <<x>> \o SubSeq(seq, i, Len(seq))
(* one call of extend_basis, as in the code                                  *)
RECURSIVE Ext(_, _, _)
Ext(v, b, i) ==
    IF IsZ(v) THEN b
    ELSE IF i > Len(b) THEN Append(b, v)
    ELSE LET c == Piv(v) cb == Piv(b[i]) IN
         IF c < cb THEN Ins(b, i, IF (Len(b) - i + 1) % 2 > 0 THEN Neg(v) ELSE v)
         ELSE IF c > cb THEN Ext(v, b, i + 1)
         ELSE LET g == Gcdx(b[i][c], v[c])
                  det == g[2] * g[5] - g[3] * g[4]
                  nb == [j \in 1..NC |-> det * (b[i][j] * g[2] + v[j] * g[3])]
                  nv == [j \in 1..NC |-> b[i][j] * g[4] + v[j] * g[5]]
              IN Ext(nv, [b EXCEPT ![i] = nb], i + 1)
Init == S = <<>> /\ B = <<>>
Next == /\ Len(S) < MaxRows
        /\ \E v \in [1..NC -> (-R)..R] : S' = Append(S, v) /\ B' = Ext(v, B, 1)
(* the algorithm keeps an echelon basis of the same lattice                  *)
EchelonB == /\ \A i \in 1..Len(B) : ~IsZ(B[i])
            /\ \A i \in 1..(Len(B) - 1) : Piv(B[i]) < Piv(B[i + 1])
SameLattice == QHnf(QB, NC) = QHnf(QS, NC)
SameDet == (Len(S) = NC /\ Len(B) = NC) => QDet(QB) = QDet(QS)
(* first principles: membership in the lattice by bounded combinations       *)
RECURSIVE Combos(_)
Combos(n) == IF n = 0 THEN {[j \in 1..NC |-> 0]}
             ELSE {[j \in 1..NC |-> c[j] + k * S[n][j]] : c \in Combos(n - 1), k \in -2..2}
InHnf(v) == QHnf(QS \o <<QRow(v)>>, NC) = QHnf(QS, NC)
HnfSound == \A v \in Combos(Len(S)) : InHnf(v)
HnfShape == LET H == QHnf(QS, NC) IN
    \A i \in 1..Len(H) : /\ QSgn(H[i][QPivot(H[i])]) > 0
                         /\ \A k \in 1..(i - 1) : LET x == H[k][QPivot(H[i])]
                                                  IN QLe("0", x) /\ QLt(x, H[i][QPivot(H[i])])
RrefRank == QRank(QS, NC) = Len(QHnf(QS, NC))
(* determinant of 2x2 and 3x3 by Leibniz                                     *)
Leibniz == Len(S) = NC =>
    QDet(QS) = I(IF NC = 1 THEN S[1][1]
                 ELSE IF NC = 2 THEN S[1][1] * S[2][2] - S[1][2] * S[2][1]
                 ELSE S[1][1] * S[2][2] * S[3][3] + S[1][2] * S[2][3] * S[3][1] + S[1][3] * S[2][1] * S[3][2]
                      - S[1][3] * S[2][2] * S[3][1] - S[1][1] * S[2][3] * S[3][2] - S[1][2] * S[2][1] * S[3][3])
InverseOk == (Len(S) = NC /\ QDet(QS) # "0") => QMM(QS, QInverse(QS), NC) = QIdent(NC)
=============================================================================
