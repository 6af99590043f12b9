------------------------------ MODULE ModTrace ------------------------------
(* Trace specification of modular_solver.rs.  All numbers are Rat integers.  *)
EXTENDS QMat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
NC(M) == Len(M[1])
Reduced(x) == QIsInt(x) /\ QLe("0", x) /\ QLt(x, e.p)
(* the modulus need not be prime here                                        *)
InverseEv == IsEvent("inverse") /\
    Got(IF QGcd(e.x, e.p) = "1"
        THEN Len(e.v) = 1 /\ Reduced(e.v[1]) /\ QMod(QMul(e.x, e.v[1]), e.p) = QMod("1", e.p)
        ELSE e.v = <<>>, "modular inverse")
Echelon == IsEvent("echelon") /\
    Got(e.v = (IF e.a = <<>> THEN <<>> ELSE QModRref(e.a, NC(e.a), e.p)), "reduced row echelon form")
ModProd == IsEvent("mprod") /\ Got(e.v = QModM(QMM(e.a, e.b, NC(e.b)), e.p), "modular product")
IntProd == IsEvent("iprod") /\ Got(e.v = QMM(e.a, e.b, NC(e.b)), "integer product")
MInv == IsEvent("minv") /\
    Got(LET n == Len(e.a) IN
        IF QMod(QDet(e.a), e.p) = "0" THEN e.v = <<>>
        ELSE /\ Len(e.v) = 1 /\ Len(e.v[1]) = n
             /\ \A i \in 1..n : Len(e.v[1][i]) = n /\ \A j \in 1..n : Reduced(e.v[1][i][j])
             /\ QModM(QMM(e.a, e.v[1], n), e.p) = QIdent(n), "modular matrix inverse")
Prime == "9999991"
SolveEv == IsEvent("solve") /\
    Got(LET n == Len(e.a) k == NC(e.b) IN
        IF e.v = <<>> THEN QMod(QDet(e.a), Prime) = "0"
        ELSE /\ QDet(e.a) # "0"
             /\ Len(e.v) = 1 /\ Len(e.v[1]) = n
             /\ \A i \in 1..n : Len(e.v[1][i]) = k /\ \A j \in 1..k : QValid(e.v[1][i][j])
             /\ QMM(e.a, e.v[1], k) = e.b, "solution of the integer system")
Next == InverseEv \/ Echelon \/ ModProd \/ IntProd \/ MInv \/ SolveEv
Spec == Init /\ [][Next]_l
=============================================================================
