------------------------------ MODULE RoundLaws ----------------------------
(* The rounding oracle of Line against the definition of binary64: around     *)
(* doubles of every kind (least subnormal, change of binade, odd and even      *)
(* mantissas, the largest ones), for values at every eighth between            *)
(* neighbouring doubles, exactly one double is the rounded one; it is a         *)
(* nearest one, the even one of two equally near, the same with the sign        *)
(* changed, and rounding never reverses an order.                              *)
EXTENDS Line
CONSTANTS Exps, Eighths
VARIABLES p, m, j
(* doubles of exponent p: mantissa * 2^(p-52), subnormal where p = -1023       *)
E(q) == IF q = 0 - 1023 THEN 0 - 1074 ELSE q - 52
Low(q) == IF q = 0 - 1023 THEN "0" ELSE Two(52)
Mants == {"least", "odd", "mid", "last"}
Mant(q, k) == CASE k = "least" -> Low(q) [] k = "odd" -> QAdd(Low(q), "1")
                [] k = "mid" -> QAdd(Two(51), QAdd(Two(50), IF q = 0 - 1023 THEN "3" ELSE Two(51)))
                [] OTHER -> QSub(IF q = 0 - 1023 THEN Two(52) ELSE Two(53), "1")
Ulp == Two(E(p))
D == QMul(Mant(p, m), Ulp)                       \* the double below
Up == QAdd(D, Ulp)                               \* the next one
Down == IF m = "least" /\ p > 0 - 1022 THEN QSub(D, QDiv(Ulp, "2")) ELSE QSub(D, Ulp)
X == QAdd(D, QDiv(QMul(QInt(j), Ulp), QInt(Eighths)))
Signed(q) == q - 1023                            \* configuration files know no negative numbers
Init == /\ p \in {Signed(q) : q \in Exps} /\ m \in Mants /\ j = 0
Next == j < Eighths /\ j' = j + 1 /\ UNCHANGED <<p, m>>
Top == p = 1023 /\ m = "last"
Candidates == {d \in {Down, D, Up} : ~(Top /\ d = Up) /\ QLe("0", d)}
Chosen == {d \in Candidates : Rounded(d, X)}
Evn(d) == LET e == IF d = "0" THEN 0 - 1074 ELSE LET q == Log2(QAbs(d)) IN IF q < 0 - 1022 THEN 0 - 1074 ELSE q - 52
          IN QIsInt(QDiv(QDiv(d, Two(e)), "2"))
Range == Finite([kind |-> "val", v |-> X])
OneChosen == IF Range THEN \E d \in Candidates : Chosen = {d} ELSE Top /\ 2 * j >= Eighths
Gap(d) == QAbs(QSub(d, X))
Near == \A d \in Chosen : \A c \in Candidates : QLe(Gap(d), Gap(c)) /\ (c # d /\ Gap(c) = Gap(d) => Evn(d))
Ends == Range => (j = 0 => Chosen = {D}) /\ (j = Eighths => Chosen = {Up})
Mirror == \A d \in Candidates : Rounded(QNeg(d), QNeg(X)) <=> Rounded(d, X)
Crossed == \A d \in Candidates : QSgn(X) # 0 /\ d # "0" => ~Rounded(QNeg(d), X)
=============================================================================
