------------------------------ MODULE GroupLaws -----------------------------
(* The oracles of Group against first principles.  For every subgroup of a    *)
(* maximal finite integral group generated by two elements: the dimensions of *)
(* the spaces of invariant forms and fixed vectors, obtained from the         *)
(* generators by elimination, equal the averages of the characters over the   *)
(* whole group (tr^2(m) + tr(m^2))/2 and tr(m).                               *)
EXTENDS Group
CONSTANTS Dims
VARIABLES n, a, b
vars == <<n, a, b>>
Mat(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> QInt(rows[i][j])]]
Lin(ms) == [m |-> ms, s |-> QZeroV(Len(ms))]
Grp(gs, d) == {f.m : f \in GGenerated({Lin(Mat(g)) : g \in gs}, d)}
Maximal(d) ==
    CASE d = 1 -> {Grp({<<<<-1>>>>}, 1)}
      [] d = 2 -> {Grp({<<<<0, -1>>, <<1, 0>>>>, <<<<1, 0>>, <<0, -1>>>>}, 2),
                   Grp({<<<<1, -1>>, <<1, 0>>>>, <<<<0, 1>>, <<1, 0>>>>}, 2)}
      [] d = 3 -> {Grp({<<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>,
                        <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>}, 3),
                   Grp({<<<<1, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>,
                        <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, -1>>>>}, 3)}
Init == n \in Dims /\ \E P \in Maximal(n) : a \in P /\ b \in P
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Tr(m) == QDot([i \in 1..n |-> m[i][i]], [i \in 1..n |-> "1"])
SumOver(f(_), S) == LET s == SetToSeq(S) IN QDot([i \in 1..Len(s) |-> f(s[i])], [i \in 1..Len(s) |-> "1"])
G == {f.m : f \in GGenerated({Lin(a), Lin(b)}, n)}
Average(f(_)) == QDiv(SumOver(f, G), QInt(Cardinality(G)))
Forms == QInt(FormSpaceDim(<<a, b>>, n)) = Average(LAMBDA m : QDiv(QAdd(QSqr(Tr(m)), Tr(QMM(m, m, n))), "2"))
Fixed == QInt(FixedDim(<<a, b>>, n)) = Average(Tr)
(* forms are what they are taken for                                         *)
Roundtrip == \A k \in 1..Len(Positions(n)) :
    LET p == Positions(n)[k]
        g == FormOf(QUnitV(Len(Positions(n)), k), n)
        h == Pulled(g, a, n)
    IN \A q \in 1..Len(Positions(n)) :
        LET i == Positions(n)[q][1]
            j == Positions(n)[q][2]
        IN /\ h[i][j] = h[j][i]
           /\ QSub(h[i][j], g[i][j]) = FormDefect(a, n)[k][q]
=============================================================================
