------------------------------ MODULE RatTest ------------------------------
(* Checks the Java evaluation of Rat against integer pair arithmetic.      *)
EXTENDS Rat, TLC
CONSTANT N
Grid == {<<a, b>> : a \in -N..N, b \in (-N..N) \ {0}}
Q(p) == QFrac(p[1], p[2])
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE G(b, a % (IF b < 0 THEN -b ELSE b))
Cmp(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
Abs(a) == IF a < 0 THEN -a ELSE a
Pos(p) == IF p[2] < 0 THEN <<-p[1], -p[2]>> ELSE p
VARIABLES p, r
Init == p \in Grid /\ r \in Grid
Next == UNCHANGED <<p, r>>
Ok ==
  LET a == Q(p)  b == Q(r)  pp == Pos(p)  rr == Pos(r) IN
  /\ QValid(a)
  /\ a = b <=> p[1] * r[2] = r[1] * p[2]
  /\ QAdd(a, b) = QFrac(p[1] * r[2] + r[1] * p[2], p[2] * r[2])
  /\ QSub(a, b) = QFrac(p[1] * r[2] - r[1] * p[2], p[2] * r[2])
  /\ QMul(a, b) = QFrac(p[1] * r[1], p[2] * r[2])
  /\ r[1] # 0 => QDiv(a, b) = QFrac(p[1] * r[2], p[2] * r[1])
  /\ QNeg(a) = QFrac(-p[1], p[2])
  /\ QAbs(a) = QFrac(Abs(p[1]), Abs(p[2]))
  /\ QCmp(a, b) = Cmp(pp[1] * rr[2], rr[1] * pp[2])
  /\ QFloor(a) = QInt(pp[1] \div pp[2])
  /\ QMod1(a) = QFrac(pp[1] % pp[2], pp[2])
  /\ QIsInt(a) <=> pp[1] % pp[2] = 0
  /\ QNum(a) = QInt(pp[1] \div G(pp[1], pp[2]))
  /\ QDen(a) = QInt(pp[2] \div G(pp[1], pp[2]))
  /\ QToInt(QInt(p[1])) = p[1]
  /\ QGcd(QInt(p[1]), QInt(p[2])) = QInt(Abs(G(p[1], p[2])))
  /\ QPow(a, 0) = "1" /\ QPow(a, 3) = QMul(a, QMul(a, a))
  /\ QDot(<<a, b, a>>, <<b, b, "2">>) = QDotFrom(<<a, b, a>>, <<b, b, "2">>, 1)
  /\ QRound(a) = (IF p[1] * p[2] >= 0 THEN QInt((2 * Abs(p[1]) + Abs(p[2])) \div (2 * Abs(p[2])))
                  ELSE QNeg(QInt((2 * Abs(p[1]) + Abs(p[2])) \div (2 * Abs(p[2])))))
  /\ ~QValid("2/4") /\ ~QValid("1/0") /\ ~QValid("x") /\ ~QValid("01") /\ ~QValid("-0")
=============================================================================
