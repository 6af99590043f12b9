---------------------------- MODULE LatticeTrace ----------------------------
(* Trace specification of spacegroups/lattices.rs.  e.w is an obtuse         *)
(* superbase proposed by the harness; it is verified here before use.        *)
EXTENDS Lattice, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
N == e.n
ValidV(v) == Len(v) = N /\ \A i \in 1..N : QValid(v[i])
ValidVs(vs) == \A i \in 1..Len(vs) : ValidV(vs[i])
Witness == SameLattice(e.w, e.vs, N) /\ Len(e.w) = N /\ IsObtuse(e.g, Superbase(e.w))
Certified(rest) == IF ~Witness THEN Ret(FALSE, "witness: no obtuse superbase") ELSE rest

Rational == IsEvent("rational") /\
    Got(ValidVs(e.v) /\ Len(e.v) = N /\ QLattice(e.v, N) = QLattice(QIdent(N) \o e.vs, N),
        "not a basis of the lattice of the integers and the given vectors")
Dirichlet == IsEvent("dirichlet") /\ Certified(
    Got(IF ~ValidVs(e.v) THEN Ret(FALSE, "malformed vectors")
        ELSE LET T == NormTable(e.g, e.w)
                 M == Minimal(T)
             IN IF ~(\A i \in 1..Len(e.v) : InLattice(e.w, e.v[i]) /\ ~QIsZeroV(e.v[i]))
                THEN Ret(FALSE, "not a non-zero lattice vector")
                ELSE Ret(\A a \in Relevant(M) : LET v == Combine(e.w, a) IN
                            \E i \in 1..Len(e.v) : e.v[i] = v \/ e.v[i] = QVNeg(v),
                         "a facet of the Dirichlet cell has no vector"), ""))
Reduced == IsEvent("reduced") /\ Certified(
    Got(IF Len(e.v) # 1 THEN Ret(FALSE, "no reduced basis")
        ELSE LET b == e.v[1]
                 T == NormTable(e.g, e.w)
                 M == Minimal(T)
             IN IF ~ValidVs(b) \/ Len(b) # N \/ ~SameLattice(b, e.vs, N) THEN Ret(FALSE, "not a basis of the lattice")
                ELSE /\ Ret(\A i \in 1..N : IsMinimum(T, M, i, Norm(e.g, b[i])), "a vector is not as short as possible")
                     /\ Ret(\A i \in 2..N : QSgn(Form(e.g, b[1], b[i])) <= 0, "positive product with the first vector"), ""))
(* q is in the cell: no lattice vector is nearer to it than zero             *)
ShiftEv == IsEvent("shift") /\ Certified(
    Got(IF ~ValidV(e.v) \/ ~InLattice(e.w, e.v) THEN Ret(FALSE, "the shift is no lattice vector")
        ELSE LET q == QVAdd(e.p, e.v)
                 T == NormTable(e.g, e.w)
             IN Ret(\A a \in Minimal(T) : QLe(QMul("2", QAbs(Form(e.g, q, Combine(e.w, a)))), T[a]),
                    "the shifted point is outside the Dirichlet cell"), ""))
Next == Rational \/ Dirichlet \/ Reduced \/ ShiftEv
Spec == Init /\ [][Next]_l
=============================================================================
