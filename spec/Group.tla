-------------------------------- MODULE Group -------------------------------
(* Groups of affine maps modulo the integer translations.                    *)
EXTENDS Affine

(* ---- closure, breadth first --------------------------------------------- *)
RECURSIVE GClosure(_, _, _)
GClosure(done, front, gens) ==
    IF front = {} THEN done
    ELSE LET new == {AModZ(AMul(a, g)) : a \in front, g \in gens} \ done
         IN GClosure(done \cup new, new, gens)
(* the group modulo Z generated by a set of maps with integral linear parts  *)
GGenerated(gens, n) == GClosure({AId(n)}, {AId(n)}, gens)

IsGroupModZ(S, n) == /\ AId(n) \in S
                     /\ \A a, b \in S : AModZ(AMul(a, b)) \in S
                     /\ \A a \in S : AModZ(AInv(a)) \in S

(* ---- translations -------------------------------------------------------- *)
CentringShifts(ops, n) == {f.s : f \in {g \in ops : g.m = QIdent(n)}}
(* canonical basis of the lattice of all translations                        *)
GLattice(ops, n) == QLattice(QIdent(n) \o SetToSeq(CentringShifts(ops, n)), n)

(* ---- invariant forms and vectors ----------------------------------------- *)
(* positions (i, j), i <= j, row by row                                      *)
Positions(n) == LET p(i) == [k \in 1..(n - i + 1) |-> <<i, i + k - 1>>]
                IN FlattenSeq([i \in 1..n |-> p(i)])
FormOf(c, n) == [i \in 1..n |-> [j \in 1..n |->
                   LET a == IF i <= j THEN <<i, j>> ELSE <<j, i>>
                   IN c[CHOOSE k \in 1..Len(c) : Positions(n)[k] = a]]]
(* the form seen after applying m to coordinate vectors                      *)
Pulled(g, m, n) == QMM(QTransp(m, n), QMM(g, m, n), n)
Invariant(g, ms, n) == \A m \in ms : Pulled(g, m, n) = g
(* images of the unit forms under g |-> Pulled(g) - g, one row each (entries *)
(* i <= j suffice, the images being symmetric)                                *)
FormDefect(m, n) ==
    LET p == Positions(n)
        c == QTransp(m, n)
        (* column products c_i[a] c_j[b] summed over both placements of a, b  *)
        coef(i, j, a, b) == IF a = b THEN QMul(c[i][a], c[j][a])
                            ELSE QAdd(QMul(c[i][a], c[j][b]), QMul(c[i][b], c[j][a]))
    IN [k \in 1..Len(p) |-> [q \in 1..Len(p) |->
          LET x == coef(p[q][1], p[q][2], p[k][1], p[k][2]) IN IF k = q THEN QSub(x, "1") ELSE x]]
(* rows of X side by side for all m: the kernel of c |-> c X is invariant    *)
RECURSIVE SideBySide(_, _)
SideBySide(f(_), ms) == IF ms = <<>> THEN <<>>
                        ELSE IF Len(ms) = 1 THEN f(ms[1]) ELSE QHCat(f(ms[1]), SideBySide(f, Tail(ms)))
FormSpaceDim(ms, n) == LET d == Len(Positions(n))
                           X == SideBySide(LAMBDA m : FormDefect(m, n), ms)
                       IN d - QRank(X, Len(X[1]))
FixedDim(ms, n) == LET X == SideBySide(LAMBDA m : QTransp(QMSub(m, QIdent(n)), n), ms)
                   IN n - QRank(X, Len(X[1]))
=============================================================================
