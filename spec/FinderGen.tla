------------------------------ MODULE FinderGen -----------------------------
(* All subgroups of the two maximal finite groups of integer 2x2 matrices in *)
(* all bases with entries up to B, and all 3x3 matrices of finite order with *)
(* entries -1, 0, 1 (B3 > 0).  Checked: they are groups, and the crystal     *)
(* system by rotation orders and mirrors has as many free cell parameters as *)
(* the invariant forms have.  Each is printed for replay into the code.      *)
EXTENDS Finder, Json
CONSTANTS B, Three
VARIABLES kind, grp
vars == <<kind, grp>>
I2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
IMul(x, y) == [r \in 1..Len(x) |-> [c \in 1..Len(x) |->
    LET S[k \in 0..Len(x)] == IF k = 0 THEN 0 ELSE S[k - 1] + x[r][k] * y[k][c] IN S[Len(x)]]]
IOne(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
RECURSIVE Clos(_, _, _)
Clos(done, front, gens) == IF front = {} THEN done
    ELSE LET new == {IMul(a, g) : a \in front, g \in gens} \ done IN Clos(done \cup new, new, gens)
Gen(gens) == Clos({IOne(2)}, {IOne(2)}, gens)
Square == Gen({I2(0, -1, 1, 0), I2(1, 0, 0, -1)})
Hexa == Gen({I2(1, -1, 1, 0), I2(0, 1, 1, 0)})
Subs == {Gen({a, b}) : a, b \in Square} \cup {Gen({a, b}) : a, b \in Hexa}
Bases == {U \in {I2(a, b, c, d) : a, b, c, d \in (-B)..B} : U[1][1] * U[2][2] - U[1][2] * U[2][1] \in {1, -1}}
InvU(U) == LET d == U[1][1] * U[2][2] - U[1][2] * U[2][1] IN I2(d * U[2][2], -d * U[1][2], -d * U[2][1], d * U[1][1])
Conj(U, G) == {IMul(IMul(U, g), InvU(U)) : g \in G}
FiniteOrder(M) == LET P[k \in 0..6] == IF k = 0 THEN IOne(3) ELSE IMul(M, P[k - 1])
                  IN P[4] = IOne(3) \/ P[6] = IOne(3)
Rows == [1..3 -> (-1)..1]
Init == \/ kind = "group" /\ \E U \in Bases, G \in Subs : grp = Conj(U, G)
        \/ Three /\ kind = "op" /\ \E a, b, c \in Rows : FiniteOrder(<<a, b, c>>) /\ grp = {<<a, b, c>>}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
QM(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> QInt(M[i][j])]]
G == {QM(M) : M \in grp}
Closed == kind = "group" => \A a, b \in grp : IMul(a, b) \in grp
Freedom == kind = "group" => FormSpaceDim(SetToSeq(G), 2) = FreedomOf(System(G))
Crystallographic == kind = "group" => Orders(G) \subseteq {1, 2, 3, 4, 6}
Emit == PrintT(<<"GEN", ToJson([kind |-> kind, ms |-> SetToSeq(grp)])>>)
=============================================================================
