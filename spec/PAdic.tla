------------------------------- MODULE PAdic --------------------------------
(* Design of the p-adic solver in one variable: a x = b, a invertible mod p. *)
(* Digits of x are produced one by one (residue r is what remains of b), and *)
(* the rational is rebuilt from the truncated expansion.  Checked for all    *)
(* small a, b: after the number of steps the code computes, reconstruction   *)
(* gives exactly b/a.                                                        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS P, MaxA, MaxB
VARIABLES a, b, k, s, q, r
vars == <<a, b, k, s, q, r>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Inv(x) == CHOOSE y \in 1..(P - 1) : (x * y) % P = 1
(* the norms are |a| and |b|; the smaller is skipped.  The code needs        *)
(* P^n >= (max * phi)^2 with phi the golden ratio (phi^2 < 2.6181)           *)
M == IF Abs(a) > Abs(b) THEN Abs(a) ELSE Abs(b)
Enough == q * 10000 >= M * M * 26181
RECURSIVE Rec(_, _, _, _, _, _)
Rec(u, u1, v, v1, sg, h) ==
    IF u1 * u1 > h THEN Rec(u1, u % u1, v1, v + (u \div u1) * v1, -sg, h)
    ELSE <<sg * u1, v1>>
Init == /\ a \in {x \in (-MaxA)..MaxA : x % P # 0} /\ b \in (-MaxB)..MaxB
        /\ k = 0 /\ s = 0 /\ q = 1 /\ r = b
Step == /\ ~Enough
        /\ LET x == (Inv(a % P) * (r % P)) % P
           IN /\ s' = s + q * x /\ q' = q * P /\ k' = k + 1
              /\ r' = (r - a * x) \div P
        /\ UNCHANGED <<a, b>>
Next == Step
(* a s + q r = b: exact at every step, so every division is exact            *)
Exact == a * s + q * r = b
Digits == 0 <= s /\ s < q
Rebuilt == (Enough /\ k > 0) => LET f == Rec(q, s, 0, 1, 1, q) IN f[1] * a = b * f[2] /\ f[2] # 0
=============================================================================
