-------------------------------- MODULE Vec --------------------------------
(* Small integer vectors and matrices (sequences of rows).                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

VZero(d)      == [i \in 1..d |-> 0]
VUnit(d, k)   == [i \in 1..d |-> IF i = k THEN 1 ELSE 0]
VAdd(u, v)    == [i \in 1..Len(u) |-> u[i] + v[i]]
VSub(u, v)    == [i \in 1..Len(u) |-> u[i] - v[i]]
VNeg(u)       == [i \in 1..Len(u) |-> -u[i]]
VScale(k, u)  == [i \in 1..Len(u) |-> k * u[i]]
IsZeroV(u)    == \A i \in 1..Len(u) : u[i] = 0
RECURSIVE DotFrom(_, _, _)
DotFrom(u, v, i) == IF i > Len(u) THEN 0 ELSE u[i] * v[i] + DotFrom(u, v, i + 1)
Dot(u, v)     == DotFrom(u, v, 1)
(* lexicographic order: the sign of the first non-zero entry               *)
RECURSIVE LexSgnFrom(_, _)
LexSgnFrom(u, i) == IF i > Len(u) THEN 0
                    ELSE IF u[i] > 0 THEN 1 ELSE IF u[i] < 0 THEN -1
                    ELSE LexSgnFrom(u, i + 1)
LexSgn(u)     == LexSgnFrom(u, 1)
LexLt(u, v)   == LexSgn(VSub(u, v)) < 0

Abs(x)        == IF x < 0 THEN -x ELSE x
RECURSIVE GcdN(_, _)
GcdN(a, b)    == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b)     == GcdN(Abs(a), Abs(b))

Ident(d)      == [i \in 1..d |-> VUnit(d, i)]
MatVec(M, v)  == [i \in 1..Len(M) |-> Dot(M[i], v)]
Transp(M)     == IF M = <<>> THEN <<>> ELSE [j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]]
MatMul(A, B)  == LET C == Transp(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(C) |-> Dot(A[i], C[j])]]
MatNeg(M)     == [i \in 1..Len(M) |-> VNeg(M[i])]
Minor(M, i, j) == LET n == Len(M)
                      up(k, c) == IF k < c THEN k ELSE k + 1
                  IN [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> M[up(a, i)][up(b, j)]]]
RECURSIVE Det(_)
RECURSIVE DetFrom(_, _)
DetFrom(M, j) == IF j > Len(M) THEN 0
                 ELSE (IF M[1][j] = 0 THEN 0
                       ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j)))
                      + DetFrom(M, j + 1)
Det(M)        == IF Len(M) = 0 THEN 1
                 ELSE IF Len(M) = 1 THEN M[1][1]
                 ELSE IF Len(M) = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
                 ELSE DetFrom(M, 1)
(* adjugate: M * Adj(M) = Det(M) * I                                       *)
Adj(M)        == LET n == Len(M) IN
                 [i \in 1..n |-> [j \in 1..n |->
                     (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, j, i))]]
Divides(k, x) == IF k = 0 THEN x = 0 ELSE x % Abs(k) = 0
(* exact quotient, k # 0, k | x                                            *)
Quot(x, k)    == IF k < 0 THEN (-x) \div (-k) ELSE x \div k

(* ---- lattices generated by a set S of integer vectors of length d ----  *)
GcdSet(S)     == FoldSet(LAMBDA x, acc : Gcd(x, acc), 0, S)
ColSets(d, k) == kSubset(k, 1..d)
RowsOf(T)     == SetToSeq(T)
SubCols(rows, C) == LET cs == SetToSortSeq(C, <) IN
                    [i \in 1..Len(rows) |-> [j \in 1..Len(cs) |-> rows[i][cs[j]]]]
Minors(S, d, k) == IF k > Cardinality(S) THEN {} ELSE
                   {Det(SubCols(RowsOf(T), C)) : T \in kSubset(k, S), C \in ColSets(d, k)}
(* k-th determinantal divisor; 0 when all k-minors vanish                  *)
DetDiv(S, d, k) == IF k = 0 THEN 1 ELSE GcdSet(Minors(S, d, k))
LatRank(S, d) == LET T == {v \in S : ~IsZeroV(v)} IN
                 IF T = {} THEN 0 ELSE CHOOSE k \in 1..d :
                     /\ \E m \in Minors(T, d, k) : m # 0
                     /\ (k = d \/ \A m \in Minors(T, d, k + 1) : m = 0)
LatIndex(S, d) == DetDiv({v \in S : ~IsZeroV(v)}, d, d)
=============================================================================
