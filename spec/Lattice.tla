------------------------------- MODULE Lattice ------------------------------
(* Lattices in dimension 1 to 3 with a positive definite form g.             *)
(* The oracle for shortness is an obtuse superbase: lattice vectors          *)
(* w_1..w_n and w_0 = -(w_1+..+w_n), w_1..w_n a basis, all products of       *)
(* different ones non-positive.  With p_ij = -w_i.w_j >= 0 the norm of       *)
(* sum a_i w_i is the sum over i < j of p_ij (a_i - a_j)^2 (Selling), so     *)
(* with a_0 = 0 every vector that is minimal in its coset modulo twice the   *)
(* lattice has |a_i| <= n: it changes by at most one along each pair with    *)
(* p_ij > 0, and these pairs connect all of 0..n as g is definite.           *)
EXTENDS QMat
Form(g, v, w) == QDot(v, QMV(g, w))
Norm(g, v) == Form(g, v, v)
RECURSIVE QVSum(_, _)
QVSum(vs, n) == IF vs = <<>> THEN QZeroV(n) ELSE QVAdd(Head(vs), QVSum(Tail(vs), n))
Superbase(w) == Append(w, QVNeg(QVSum(w, Len(w))))
IsObtuse(g, s) == \A i, j \in 1..Len(s) : i < j => QSgn(Form(g, s[i], s[j])) <= 0
SameLattice(a, b, n) == QLattice(a, n) = QLattice(b, n)
(* coordinates of v in the basis w (rows)                                    *)
CoordsIn(w, v) == QMV(QInverse(QTransp(w, Len(w))), v)
InLattice(w, v) == LET c == CoordsIn(w, v) IN \A i \in 1..Len(c) : QIsInt(c[i])
(* coefficient vectors, one of each pair +-a, non-zero                       *)
Positive(a) == \E i \in 1..Len(a) : a[i] > 0 /\ \A j \in 1..(i - 1) : a[j] = 0
Coeffs(n) == {a \in [1..n -> (-n)..n] : Positive(a)}
(* norm table over Coeffs by Selling's formula; P[i][j] = p_ij, n+1 is w_0   *)
Products(g, s) == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> QNeg(Form(g, s[i], s[j]))]]
SellingNorm(P, a) ==
    LET n == Len(a)
        x(i) == IF i > n THEN 0 ELSE a[i]
        prs == SetToSeq({q \in (1..(n + 1)) \X (1..(n + 1)) : q[1] < q[2]})
    IN QDot([k \in 1..Len(prs) |-> P[prs[k][1]][prs[k][2]]],
            [k \in 1..Len(prs) |-> LET d == x(prs[k][1]) - x(prs[k][2]) IN QInt(d * d)])
NormTable(g, w) == LET P == TLCEval(Products(g, Superbase(w))) IN TLCEval([a \in Coeffs(Len(w)) |-> SellingNorm(P, a)])
Parity(a) == [i \in 1..Len(a) |-> a[i] % 2]
Even(a) == \A i \in 1..Len(a) : a[i] % 2 = 0
(* vectors minimal in their coset modulo 2L, the zero coset left out         *)
RECURSIVE Least(_, _)
Least(T, S) == IF S = {} THEN {}
               ELSE LET a == CHOOSE x \in S : TRUE
                        L == {x \in S : QLt(T[x], T[a])}
                    IN IF L = {} THEN {x \in S : T[x] = T[a]} ELSE Least(T, L)
Coset(T, p) == {a \in DOMAIN T : Parity(a) = p}
Cosets(T) == {Parity(a) : a \in {x \in DOMAIN T : ~Even(x)}}
Minimal(T) == TLCEval(UNION {Least(T, Coset(T, p)) : p \in Cosets(T)})
(* the facets of the Dirichlet cell belong to the unique ones (Voronoi)      *)
Relevant(M) == {a \in M : \A b \in M : Parity(b) = Parity(a) => b = a}
Combine(w, a) == [k \in 1..Len(w) |-> QDot([i \in 1..Len(w) |-> QInt(a[i])], [i \in 1..Len(w) |-> w[i][k]])]
(* rank of a set of integer coefficient vectors                              *)
CRank(S, n) == IF S = {} THEN 0 ELSE QRank([k \in 1..Cardinality(S) |->
                 LET a == SetToSeq(S)[k] IN [i \in 1..n |-> QInt(a[i])]], n)
(* i-th successive minimum: least norm bounding i independent vectors        *)
IsMinimum(T, M, i, x) == LET n == CHOOSE k \in 1..3 : \A a \in M : Len(a) = k IN
    /\ CRank({a \in M : QLt(T[a], x)}, n) < i
    /\ CRank({a \in M : QLe(T[a], x)}, n) >= i
=============================================================================
