------------------------------ MODULE GroupGen ------------------------------
(* Design of basics::generate: a work list of operators, each multiplied     *)
(* from the right by every generator, modulo integer translations.  Checked  *)
(* for all lists of at most MaxGens generators drawn from the symmetries of  *)
(* the square and of the hexagonal lattice with shifts in (1/D)Z: at the end *)
(* the list is the whole group (closed under products and inverses), without *)
(* repetitions, identity first - although only products by generators were   *)
(* formed and no inverse ever.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS D, MaxGens
VARIABLES gens, list, i, g
vars == <<gens, list, i, g>>
M2(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
MM(x, y) == [r \in 1..2 |-> [c \in 1..2 |-> x[r][1] * y[1][c] + x[r][2] * y[2][c]]]
MV(x, v) == [r \in 1..2 |-> x[r][1] * v[1] + x[r][2] * v[2]]
Id == M2(1, 0, 0, 1)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN Id ELSE MM(x, Pow(x, n - 1))
Dihedral(r, n, m) == {Pow(r, k) : k \in 0..(n - 1)} \cup {MM(m, Pow(r, k)) : k \in 0..(n - 1)}
Square == Dihedral(M2(0, -1, 1, 0), 4, M2(1, 0, 0, -1))
Hexa   == Dihedral(M2(1, -1, 1, 0), 6, M2(0, 1, 1, 0))
Shifts == {<<a, b>> : a, b \in 0..(D - 1)}
(* shifts are counted in units of 1/D                                        *)
Mul(f, h) == [m |-> MM(f.m, h.m),
              s |-> LET v == MV(f.m, h.s) IN [k \in 1..2 |-> (v[k] + f.s[k]) % D]]
OpsOf(P) == {[m |-> m, s |-> s] : m \in P, s \in Shifts}
Lists(S) == UNION {[1..n -> S] : n \in 1..MaxGens}
E0 == [m |-> Id, s |-> <<0, 0>>]
Init == /\ gens \in Lists(OpsOf(Square)) \cup Lists(OpsOf(Hexa))
        /\ list = <<E0>> /\ i = 1 /\ g = 1
Step == /\ i <= Len(list)
        /\ LET x == Mul(list[i], gens[g]) IN
           list' = IF x \in ToSet(list) THEN list ELSE Append(list, x)
        /\ IF g < Len(gens) THEN g' = g + 1 /\ i' = i ELSE g' = 1 /\ i' = i + 1
        /\ UNCHANGED gens
Next == Step
Spec == Init /\ [][Next]_vars
Done == i > Len(list)
S == ToSet(list)
NoDup == Cardinality(S) = Len(list)
First == list[1] = E0
RECURSIVE Words(_, _, _)
Words(done, front, G) == IF front = {} THEN done
    ELSE LET new == ({Mul(a, b) : a \in front, b \in G} \cup {Mul(b, a) : a \in front, b \in G}) \ done
         IN Words(done \cup new, new, G)
Inside == Done => S = Words({E0}, {E0}, ToSet(gens))
Closed == Done => /\ \A a, b \in S : Mul(a, b) \in S
                  /\ \A a \in S : \E b \in S : Mul(a, b) = E0
Bounded == Len(list) <= 12 * D * D
=============================================================================
