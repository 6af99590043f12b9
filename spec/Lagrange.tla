------------------------------ MODULE Lagrange ------------------------------
(* Design of lattices::lagrange_reduced on integer coefficient vectors, over  *)
(* all positive definite integral forms <<a, b>>, <<b, c>> with small entries *)
(* and start from the unit vectors.  Norms fall strictly from turn to turn,   *)
(* and at the end u, v and -(u+v) form an obtuse superbase - also where the   *)
(* loop is never entered because both norms are equal.                        *)
EXTENDS Integers, TLC
CONSTANTS Max
VARIABLES a, b, c, u, v, done
vars == <<a, b, c, u, v, done>>
Dot(x, y) == a * x[1] * y[1] + b * (x[1] * y[2] + x[2] * y[1]) + c * x[2] * y[2]
Nrm(x) == Dot(x, x)
Neg(x) == <<-x[1], -x[2]>>
Abs(t) == IF t < 0 THEN -t ELSE t
(* nearest integer to s / t, t > 0, halves away from zero                    *)
Round(s, t) == IF s >= 0 THEN (2 * s + t) \div (2 * t) ELSE -((2 * (-s) + t) \div (2 * t))
Init == /\ a \in 1..Max /\ c \in 1..Max /\ b \in (-Max)..Max /\ a * c > b * b
        /\ IF c < a THEN u = <<0, 1>> /\ v = <<1, 0>> ELSE u = <<1, 0>> /\ v = <<0, 1>>
        /\ done = FALSE
Turn == /\ ~done /\ Nrm(u) < Nrm(v)
        /\ LET t == Round(Dot(u, v), Nrm(u)) IN u' = <<v[1] - t * u[1], v[2] - t * u[2]>> /\ v' = u
        /\ UNCHANGED <<a, b, c, done>>
Finish == /\ ~done /\ Nrm(u) >= Nrm(v) /\ done' = TRUE
          /\ v' = IF Dot(u, v) > 0 THEN Neg(v) ELSE v
          /\ UNCHANGED <<a, b, c, u>>
Next == Turn \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done
Basis == Abs(u[1] * v[2] - u[2] * v[1]) = 1
Sum == <<-u[1] - v[1], -u[2] - v[2]>>
Obtuse == done => Dot(u, v) <= 0 /\ Dot(u, Sum) <= 0 /\ Dot(v, Sum) <= 0
Least == done => \A x \in -3..3, y \in -3..3 : (x % 2 = 1 \/ y % 2 = 1) =>
    LET p(w) == w[1] % 2 = x % 2 /\ w[2] % 2 = y % 2
    IN \E w \in {u, v, Sum} : p(w) /\ Nrm(w) <= Nrm(<<x, y>>)
=============================================================================
