------------------------------ MODULE Dirichlet -----------------------------
(* Design of lattices::shift_for_dirichlet_domain in the plane, over all      *)
(* obtuse superbases u = (1,0), v = (0,1), -(u+v) of small integral forms     *)
(* (given by the three products -u.v, -u.w, -v.w >= 0, Selling's parameters)  *)
(* and all points of the grid (1/K) Z^2 within Far of the origin.  The loop   *)
(* goes through the vectors again and again, subtracting the rounded          *)
(* projection where it is out of range.  The norm of the point falls strictly *)
(* with every step, so the loop ends, and at its end the point is as close to *)
(* the origin as any other point that differs from it by a lattice vector.    *)
EXTENDS Integers, TLC
CONSTANTS Max, K, Far
VARIABLES p12, p13, p23, pos, i, moved, done
vars == <<p12, p13, p23, pos, i, moved, done>>
A == p12 + p13        \* u.u
C == p12 + p23        \* v.v
B == 0 - p12          \* u.v
Dot(x, y) == A * x[1] * y[1] + B * (x[1] * y[2] + x[2] * y[1]) + C * x[2] * y[2]
Nrm(x) == Dot(x, x)
Vectors == <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>
Round(s, t) == IF s >= 0 THEN (2 * s + t) \div (2 * t) ELSE -((2 * (-s) + t) \div (2 * t))
Init == /\ p12 \in 0..Max /\ p13 \in 0..Max /\ p23 \in 0..Max
        /\ A * C - B * B > 0
        /\ pos \in ((-Far)..Far) \X ((-Far)..Far)       \* pos / K is the point
        /\ i = 1 /\ moved = FALSE /\ done = FALSE
Out(s, t) == 2 * s < -t \/ 2 * s > t
Look == /\ ~done /\ i <= 3
        /\ LET v == Vectors[i]
               s == Dot(pos, v)
               t == K * Nrm(v)
           IN IF Out(s, t)
              THEN /\ pos' = <<pos[1] - K * Round(s, t) * v[1], pos[2] - K * Round(s, t) * v[2]>>
                   /\ moved' = TRUE
              ELSE UNCHANGED <<pos, moved>>
        /\ i' = i + 1 /\ UNCHANGED <<p12, p13, p23, done>>
Again == ~done /\ i > 3 /\ moved /\ i' = 1 /\ moved' = FALSE /\ UNCHANGED <<p12, p13, p23, pos, done>>
Finish == ~done /\ i > 3 /\ ~moved /\ done' = TRUE /\ UNCHANGED <<p12, p13, p23, pos, i, moved>>
Next == Look \/ Again \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>done
Falls == [][pos' # pos => Nrm(pos') < Nrm(pos)]_vars
Nearest == done => \A x, y \in -2..2 : Nrm(pos) <= Nrm(<<pos[1] + K * x, pos[2] + K * y>>)
=============================================================================
