-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers of unbounded size.  TLC's own integers have 32   *)
(* bits, so a rational is represented by its canonical decimal text:       *)
(* "n" or "n/d" with d > 1 and gcd(n,d) = 1 (what num_rational prints).    *)
(* The operators below are evaluated by /verif/java/Rat.java (BigInteger); *)
(* RatTest.tla checks that evaluation against the TLA+ definition over     *)
(* pairs of Ints on an exhaustive grid.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Undefined(x) == CHOOSE y \in {x} : FALSE

QInt(i)     == Undefined(i)  \* Int -> rational
QFrac(n, d) == Undefined(n)  \* Int, Int # 0 -> rational
QAdd(a, b)  == Undefined(a)
QSub(a, b)  == Undefined(a)
QMul(a, b)  == Undefined(a)
QDiv(a, b)  == Undefined(a)  \* b # 0
QNeg(a)     == Undefined(a)
QAbs(a)     == Undefined(a)
QCmp(a, b)  == Undefined(a)  \* -1, 0, 1
QFloor(a)   == Undefined(a)  \* greatest integer below, as a rational
QIsInt(a)   == Undefined(a)
QNum(a)     == Undefined(a)  \* numerator, as a rational
QDen(a)     == Undefined(a)  \* denominator, as a rational
QGcd(a, b)  == Undefined(a)  \* gcd of two integers, non-negative
QPow(a, n)  == Undefined(a)  \* n \in Nat (an Int)
QToInt(a)   == Undefined(a)  \* a small integer as an Int
QValid(s)   == Undefined(s)  \* is s the canonical text of a rational?

(* Derived, but evaluated in bulk for speed; the TLA+ definition is the    *)
(* body, and RatTest.tla compares the two.                                 *)
RECURSIVE QDotFrom(_, _, _)
QDotFrom(u, v, i) ==
    IF i > Len(u) THEN "0" ELSE QAdd(QMul(u[i], v[i]), QDotFrom(u, v, i + 1))
QDot(u, v) == QDotFrom(u, v, 1)

QLt(a, b) == QCmp(a, b) < 0
QLe(a, b) == QCmp(a, b) <= 0
QSgn(a) == QCmp(a, "0")
QMod1(a) == QSub(a, QFloor(a))      \* representative in [0,1)
QHalf == "1/2"
QRound(a) ==                        \* half away from zero, as num_rational does
    IF QSgn(a) >= 0 THEN QFloor(QAdd(a, QHalf))
    ELSE QNeg(QFloor(QAdd(QNeg(a), QHalf)))
QSqr(a) == QMul(a, a)
=============================================================================
