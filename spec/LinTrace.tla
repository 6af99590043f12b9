------------------------------ MODULE LinTrace ------------------------------
(* Trace specification of linear_algebra.rs: every recorded result must be   *)
(* the one the mathematical definition demands.  ty: "rat" (over Q) or       *)
(* "i32" / "i64" / "big" (over Z); "f64" where no rounding happens, else near_.  Matrices are records [nr, nc, rows].             *)
EXTENDS QMat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, given
vars == <<l, given>>
Init == l = 1 /\ given = <<>>
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
Obs(op) == IsEvent(op) /\ UNCHANGED given
Rat == e.ty \in {"rat", "f64"}

(* Well-formed results only: canonical numbers in rows of equal length       *)
ValidV(v, n) == Len(v) = n /\ \A i \in 1..n : QValid(v[i]) /\ (Rat \/ QIsInt(v[i]))
ValidM(m) == Len(m.rows) = m.nr /\ \A i \in 1..m.nr : ValidV(m.rows[i], m.nc)
Canon(S, nc) == IF Rat THEN QRref(S, nc) ELSE QHnf(S, nc)
Echelon(S) == /\ \A i \in 1..Len(S) : ~QIsZeroV(S[i])
              /\ \A i \in 1..(Len(S) - 1) : QPivot(S[i]) < QPivot(S[i + 1])

(* ---- extending a basis vector by vector --------------------------------- *)
NewBasis == IsEvent("basis") /\ given' = <<>>
Extend == /\ IsEvent("extend")
          /\ given' = Append(given, e.vec)
          /\ LET nc == Len(e.vec) IN
             Got(/\ \A i \in 1..Len(e.v) : ValidV(e.v[i], nc)
                 /\ Echelon(e.v)
                 /\ Canon(e.v, nc) = Canon(given', nc)
                 /\ (Len(given') = nc /\ Len(e.v) = nc) => QDet(e.v) = QDet(given'),
                 "not an echelon basis of the span, or determinant changed")

(* ---- matrices ------------------------------------------------------------ *)
A == e.a
(* operands that do not fit are refused                                       *)
Fit(ok, want, clause) == IF ok THEN Got(want, clause) ELSE Ret(e.r = "panic", "a result for operands that do not fit: " \o clause)
Rank == Obs("rank") /\ Got(e.v = QRank(A.rows, A.nc), "rank")
DetEv == Obs("det") /\ Fit(A.nr = A.nc, e.v = QDet(A.rows), "determinant")
Reduced == Obs("reduced") /\
    Got(ValidM(e.v) /\ e.v.rows = Canon(A.rows, A.nc), "reduced basis is not the canonical form")
Null == Obs("null") /\
    Got(LET k == A.nc - QRank(A.rows, A.nc) IN
        IF k = 0 THEN e.v = <<>>
        ELSE Len(e.v) = 1 /\ LET N == e.v[1] IN
             /\ ValidM(N) /\ N.nr = A.nc /\ N.nc = k
             /\ QIsZeroM(QMM(A.rows, N.rows, k))
             (* independent, and over Z primitive: its rows generate Z^k   *)
             /\ Canon(N.rows, k) = QIdent(k), "null space")
(* is every column of B a combination of the columns of A?                   *)
Solvable(B) == LET a == QTransp(A.rows, A.nc) b == QTransp(B.rows, B.nc) n == Len(A.rows)
               IN Canon(a \o b, n) = Canon(a, n)
Solve == Obs("solve") /\
    Fit(A.nr = e.b.nr, IF e.v = <<>> THEN ~Solvable(e.b)
        ELSE LET X == e.v[1] IN
             /\ ValidM(X) /\ X.nr = A.nc /\ X.nc = e.b.nc
             /\ QMM(A.rows, X.rows, X.nc) = e.b.rows, "solution of A X = B")
Invertible == IF Rat THEN QDet(A.rows) # "0" ELSE QAbs(QDet(A.rows)) = "1"
InverseEv == Obs("inverse") /\
    Fit(A.nr = A.nc, IF ~Invertible THEN e.v = <<>>
        ELSE Len(e.v) = 1 /\ LET X == e.v[1] n == A.nc IN
             /\ ValidM(X) /\ X.nr = n /\ X.nc = n
             /\ QMM(A.rows, X.rows, n) = QIdent(n)
             /\ QMM(X.rows, A.rows, n) = QIdent(n), "inverse")
(* v = <g, r, s, t, u>: r x + s y = g, t x + u y = 0, r u - s t = +-1        *)
Gcdx == Obs("gcdx") /\
    Got(/\ \A i \in 1..5 : QIsInt(e.v[i])
        /\ QAbs(e.v[1]) = QGcd(e.x, e.y)
        /\ QDot(<<e.v[2], e.v[3]>>, <<e.x, e.y>>) = e.v[1]
        /\ QDot(<<e.v[4], e.v[5]>>, <<e.x, e.y>>) = "0"
        /\ QAbs(QSub(QMul(e.v[2], e.v[5]), QMul(e.v[3], e.v[4]))) = "1", "extended gcd")
(* ---- floating point, where elimination rounds ---------------------------- *)
Tol == "1/1000000"
MaxAbs(rows) == FoldLeft(LAMBDA a, r : FoldLeft(LAMBDA b, x : IF QLt(b, QAbs(x)) THEN QAbs(x) ELSE b, a, r), "0", rows)
Near(x, y, scale) == QLe(QAbs(QSub(x, y)), QMul(Tol, scale))
NearM(X, Y, scale) == /\ Len(X) = Len(Y)
                      /\ \A i \in 1..Len(X) : /\ Len(X[i]) = Len(Y[i])
                                              /\ \A j \in 1..Len(X[i]) : Near(X[i][j], Y[i][j], scale)
NearRank == Obs("near_rank") /\ Got(e.v = A.nr, "rank of a regular matrix")
NearDet == Obs("near_det") /\ Got(QValid(e.v) /\ LET d == QDet(A.rows) IN Near(e.v, d, QAbs(d)), "determinant, nearly")
NearReduced == Obs("near_reduced") /\ Got(ValidM(e.v) /\ NearM(e.v.rows, QIdent(A.nr), "1"), "reduced basis, nearly")
NearInverse == Obs("near_inverse") /\
    Got(Len(e.v) = 1 /\ ValidM(e.v[1]) /\ LET Y == QInverse(A.rows) IN NearM(e.v[1].rows, Y, MaxAbs(Y)), "inverse, nearly")
NearSolve == Obs("near_solve") /\
    Got(Len(e.v) = 1 /\ ValidM(e.v[1]) /\ LET Y == QMM(QInverse(A.rows), e.b.rows, e.b.nc)
                                          IN NearM(e.v[1].rows, Y, MaxAbs(Y)), "solution, nearly")
Next == NearRank \/ NearDet \/ NearReduced \/ NearInverse \/ NearSolve \/ NewBasis \/ Extend \/ Rank \/ DetEv \/ Reduced \/ Null \/ Solve \/ InverseEv \/ Gcdx
Spec == Init /\ [][Next]_vars
=============================================================================
