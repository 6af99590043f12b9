------------------------------- MODULE Finder -------------------------------
(* Crystallographic operators and plane point groups, linear parts only.     *)
EXTENDS Group
RECURSIVE MPow(_, _)
MPow(M, k) == IF k = 0 THEN QIdent(Len(M)) ELSE QMM(M, MPow(M, k - 1), Len(M))
(* 0 where no power up to the sixth is the identity                          *)
Order(M) == LET P[k \in 0..6] == IF k = 0 THEN QIdent(Len(M)) ELSE QMM(M, P[k - 1], Len(M))
                S == {k \in 1..6 : P[k] = QIdent(Len(M))}
            IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
Proper(M) == QSgn(QDet(M)) > 0
(* directions kept (by the rotation part, for a rotoinversion)               *)
AxisKernel(M) == IF Len(M) % 2 = 1 /\ ~Proper(M) THEN QMAdd(M, QIdent(Len(M))) ELSE QMSub(M, QIdent(Len(M)))
HasAxis(M) == QRank(AxisKernel(M), Len(M)) = Len(M) - 1
OnAxis(M, v) == ~QIsZeroV(v) /\ QIsZeroV(QMV(AxisKernel(M), v))
(* directed so that the first coordinate other than zero is positive          *)
Directed(v) == LET i == CHOOSE i \in 1..Len(v) : v[i] # "0" /\ \A j \in 1..(i - 1) : v[j] = "0" IN QSgn(v[i]) > 0
(* clockwise in a right-handed basis, in space as seen along the axis: the    *)
(* same for every vector off the axis                                         *)
Det2(x, y) == QSub(QMul(x[1], y[2]), QMul(x[2], y[1]))
Clockwise(M, axis) ==
    IF Len(M) = 2 THEN QSgn(Det2(<<"1", "0">>, QMV(M, <<"1", "0">>))) < 0
    ELSE \E v \in {QIdent(3)[i] : i \in 1..3} : QSgn(QDet(<<axis, v, QMV(M, v)>>)) > 0
(* ---- plane groups, G a set of matrices ----------------------------------- *)
Orders(G) == {Order(M) : M \in G}
MirrorsOf(G) == {M \in G : ~Proper(M)}
System(G) == IF 3 \in Orders(G) \/ 6 \in Orders(G) THEN "hexagonal"
             ELSE IF 4 \in Orders(G) THEN "square"
             ELSE IF MirrorsOf(G) # {} THEN "rectangular" ELSE "oblique"
(* the number of free parameters of the cell, another mark of the system     *)
FreedomOf(s) == CASE s = "oblique" -> 3 [] s = "rectangular" -> 2 [] OTHER -> 1
Adapted(G, x, y) ==
    LET s == System(G) IN
    /\ QSgn(QSub(QMul(x[1], y[2]), QMul(x[2], y[1]))) > 0
    /\ MirrorsOf(G) # {} => \E m \in MirrorsOf(G) : QMV(m, x) = x
    /\ s = "rectangular" => \E m \in MirrorsOf(G) : QMV(m, x) = x /\ QMV(m, y) = QVNeg(y)
    /\ s \in {"square", "hexagonal"} =>
         \E r \in G : Proper(r) /\ Order(r) = (IF s = "square" THEN 4 ELSE 3) /\ QMV(r, x) = y
=============================================================================
