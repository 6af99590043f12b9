------------------------------ MODULE Selling -------------------------------
(* Design of lattices::selling_reduced and lagrange_reduced: state machines   *)
(* on integer coefficient vectors, over all positive definite integral forms  *)
(* with small entries.  Every step keeps a superbase of the lattice; the sum  *)
(* of norms falls with every change, hence reduction ends; at the end the     *)
(* superbase is obtuse and its seven sums contain the successive minima.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, N
VARIABLES g, vs, i, j, changed, done, rounds
vars == <<g, vs, i, j, changed, done, rounds>>
R == 1..N
Dot(G, v, w) == LET S[a \in 0..(N * N)] == IF a = 0 THEN 0
                    ELSE S[a - 1] + G[((a - 1) \div N) + 1][((a - 1) % N) + 1] * v[((a - 1) \div N) + 1] * w[((a - 1) % N) + 1]
                IN S[N * N]
Nrm(G, v) == Dot(G, v, v)
Det2(G) == G[1][1] * G[2][2] - G[1][2] * G[2][1]
Det3(G) == G[1][1] * (G[2][2] * G[3][3] - G[2][3] * G[3][2]) - G[1][2] * (G[2][1] * G[3][3] - G[2][3] * G[3][1])
           + G[1][3] * (G[2][1] * G[3][2] - G[2][2] * G[3][1])
Definite(G) == G[1][1] > 0 /\ (N >= 2 => Det2(G) > 0) /\ (N >= 3 => Det3(G) > 0)
Forms == {G \in [R -> [R -> (-Max)..Max]] : (\A x, y \in R : G[x][y] = G[y][x]) /\ Definite(G)}
Unit(k) == [x \in R |-> IF x = k THEN 1 ELSE 0]
Plus(v, w) == [x \in R |-> v[x] + w[x]]
Neg(v) == [x \in R |-> -v[x]]
K == N + 1
(* forms are generated entry by entry from the upper triangle                *)
Diag == [R -> 1..Max]
Off == [{q \in R \X R : q[1] < q[2]} -> (-Max)..Max]
FormOf(d, o) == [x \in R |-> [y \in R |-> IF x = y THEN d[x] ELSE IF x < y THEN o[<<x, y>>] ELSE o[<<y, x>>]]]
Init == /\ \E d \in Diag, o \in Off : g = FormOf(d, o)
        /\ Definite(g)
        /\ vs = [k \in 1..K |-> IF k < K THEN Unit(k) ELSE [x \in R |-> -1]]
        /\ i = 1 /\ j = 2 /\ changed = FALSE /\ done = FALSE /\ rounds = 0
Advance(ch) == IF j < K THEN i' = i /\ j' = j + 1 /\ changed' = ch /\ UNCHANGED <<done, rounds>>
               ELSE IF i < N THEN i' = i + 1 /\ j' = i + 2 /\ changed' = ch /\ UNCHANGED <<done, rounds>>
               ELSE /\ i' = 1 /\ j' = 2 /\ changed' = FALSE /\ rounds' = rounds + 1
                    /\ done' = ~ch
Step == /\ ~done
        /\ IF Dot(g, vs[i], vs[j]) > 0
           THEN /\ vs' = [k \in 1..K |-> IF k = i THEN Neg(vs[i]) ELSE IF k = j THEN vs[j] ELSE Plus(vs[k], vs[i])]
                /\ Advance(TRUE)
           ELSE UNCHANGED vs /\ Advance(changed)
        /\ UNCHANGED g
Spec == Init /\ [][Step]_vars
Sum(f) == LET S[a \in 0..K] == IF a = 0 THEN 0 ELSE S[a - 1] + f[a] IN S[K]
Weight(v) == Sum([k \in 1..K |-> Nrm(g, v[k])])
IsSuper == \A x \in R : Sum([k \in 1..K |-> vs[k][x]]) = 0
Det(m) == IF N = 2 THEN Det2(m) ELSE Det3(m)
Basis == Det([k \in R |-> vs[k]]) \in {1, -1}
Obtuse == done => \A a, b \in 1..K : a # b => Dot(g, vs[a], vs[b]) <= 0
Falls == [][vs' # vs => Weight(vs') < Weight(vs)]_vars
(* the sums over proper subsets of the superbase are minimal modulo 2L, and  *)
(* so contain a vector of each successive minimum                            *)
Sub(S) == LET T[k \in 0..K] == IF k = 0 THEN [x \in R |-> 0] ELSE IF k \in S THEN Plus(T[k - 1], vs[k]) ELSE T[k - 1] IN T[K]
Box == [R -> (-2)..2]
Minima == done => \A v \in Box : (\E x \in R : v[x] % 2 = 1) =>
    \E S \in SUBSET (1..K) : LET w == Sub(S) IN Nrm(g, w) <= Nrm(g, v) /\ \A x \in R : (w[x] - v[x]) % 2 = 0
=============================================================================
