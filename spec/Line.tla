-------------------------------- MODULE Line --------------------------------
(* Lines of net descriptions.  A text is a sequence of code points; Read(t)  *)
(* gives the fields in order, each with the span of text it comes from, and  *)
(* the position where the unread rest begins.                                *)
EXTENDS Rat, FiniteSets, TLC

IsDigit(c) == c \in 48..57
IsBlank(c) == c \in {32, 9}
IsLetter(c) == c \in (65..90) \cup (97..122)
Quote == 34
Hash == 35
At(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE 0 - 1
(* first position from i on whose character is not in class p                *)
While(t, i, p(_)) ==
    IF i > Len(t) THEN i
    ELSE CHOOSE k \in i..(Len(t) + 1) : (k > Len(t) \/ ~p(t[k])) /\ \A m \in i..(k - 1) : p(t[m])
Blanks(t, i) == While(t, i, IsBlank)
Digits(t, i) == While(t, i, IsDigit)
InName(c) == c \notin {Quote, Hash, 32, 9}
NameEnd(t, i) == While(t, i, InName)
RECURSIVE DecFrom(_, _, _, _)
DecFrom(t, i, j, acc) == IF i >= j THEN acc ELSE DecFrom(t, i + 1, j, QAdd(QMul(acc, "10"), QInt(t[i] - 48)))
Dec(t, i, j) == DecFrom(t, i, j, "0")

(* ---- numbers ------------------------------------------------------------ *)
SignEnd(t, i) == IF At(t, i) \in {43, 45} THEN i + 1 ELSE i
(* [+-] (d+ (. d* )? | . d+) ([eE] [+-]? d+)? ; 0 if the text is no number   *)
MantissaEnd(t, i) ==
    LET a == SignEnd(t, i)
        b == Digits(t, a)
        c == IF At(t, b) = 46 THEN Digits(t, b + 1) ELSE b
    IN IF b > a THEN c ELSE IF c > b + 1 THEN c ELSE 0
ExpMarker(t, i) == At(t, i) \in {69, 101}
NumberEnd(t, i) ==
    LET m == MantissaEnd(t, i) IN
    IF m = 0 \/ ~ExpMarker(t, m) THEN m
    ELSE LET d == SignEnd(t, m + 1)
             f == Digits(t, d)
         IN IF f > d THEN f ELSE 0
Pow10(k) == IF k >= 0 THEN QPow("10", k) ELSE QDiv("1", QPow("10", -k))
(* significant digits of a decimal integer given as canonical text           *)
RECURSIVE SizeFrom(_, _)
SizeFrom(x, k) == IF QLt(x, QPow("10", k)) THEN k ELSE SizeFrom(x, k + 1)
(* kind "zero" / "tiny" / "huge" / "val" with the exact value                 *)
Value(t, i) ==
    LET a == SignEnd(t, i)
        neg == At(t, i) = 45
        b == Digits(t, a)
        c == IF At(t, b) = 46 THEN Digits(t, b + 1) ELSE b
        nf == IF c > b THEN c - b - 1 ELSE 0
        digits == IF c > b THEN QAdd(QMul(Dec(t, a, b), QPow("10", nf)), Dec(t, b + 1, c)) ELSE Dec(t, a, b)
        hasE == ExpMarker(t, c)
        es == IF hasE THEN SignEnd(t, c + 1) ELSE c
        expNeg == hasE /\ At(t, c + 1) = 45
        ex == IF hasE THEN Dec(t, es, Digits(t, es)) ELSE "0"
    IN IF digits = "0" THEN [kind |-> "zero"]
       ELSE IF QLt("100000", ex) THEN [kind |-> IF expNeg THEN "tiny" ELSE "huge"]
       ELSE LET k == (IF expNeg THEN -QToInt(ex) ELSE QToInt(ex)) - nf
                size == SizeFrom(digits, 1)
            IN IF size + k > 320 THEN [kind |-> "huge"]
               ELSE IF size + k < -400 THEN [kind |-> "tiny"]
               ELSE [kind |-> "val", v |-> QMul(IF neg THEN QNeg(digits) ELSE digits, Pow10(k))]
Two(k) == IF k >= 0 THEN QPow("2", k) ELSE QDiv("1", QPow("2", -k))
MaxFinite == QSub(Two(1024), Two(970))          \* from here on values round to infinity
Finite(x) == x.kind # "huge" /\ (x.kind = "val" => QLt(QAbs(x.v), MaxFinite))
(* floor of the binary logarithm, known to lie in lo..hi-1                    *)
RECURSIVE LogIn(_, _, _)
LogIn(x, lo, hi) == IF hi = lo + 1 THEN lo
                    ELSE LET mid == (lo + hi) \div 2 IN IF QLe(Two(mid), x) THEN LogIn(x, mid, hi) ELSE LogIn(x, lo, mid)
Log2(x) == LogIn(x, 0 - 1100, 1100)
(* is the double d the value x correctly rounded (ties to even)?             *)
Rounded(d, x) ==
    LET a == QAbs(d)
        y == QAbs(x)
        p == Log2(a)
        ulp == Two(IF p - 52 < -1074 THEN -1074 ELSE p - 52)
        m == QDiv(a, ulp)
        even == QIsInt(QDiv(m, "2"))
        below == IF a = Two(p) /\ p > -1022 THEN QDiv(ulp, "4") ELSE QDiv(ulp, "2")
        above == QDiv(ulp, "2")
        diff == QSub(y, a)
    IN IF d = "0" THEN QLe(y, Two(-1075))
       ELSE /\ QSgn(d) = QSgn(x)
            /\ IF QSgn(diff) >= 0 THEN QLt(diff, above) \/ (diff = above /\ even)
               ELSE QLt(QNeg(diff), below) \/ (QNeg(diff) = below /\ even)
IsRounded(d, x) == CASE x.kind = "val" -> Rounded(d, x.v) [] OTHER -> d = "0"
InInt32(v) == QIsInt(v) /\ QLe("-2147483648", v) /\ QLe(v, "2147483647")

(* ---- fields ------------------------------------------------------------- *)
(* [k, a, b, ..]: kind and span a..b-1; kind "none" where nothing is read    *)
NoField == [k |-> "none"]
Fraction(t, i) ==
    LET a == IF At(t, i) = 45 THEN i + 1 ELSE i
        b == Digits(t, a)
        c == Digits(t, b + 1)
    IN IF b > a /\ b - a <= 9 /\ At(t, b) = 47 /\ c > b + 1 /\ c - b - 1 <= 9 /\ Dec(t, b + 1, c) # "0"
       THEN [k |-> "frac", a |-> i, b |-> c,
             v |-> LET q == QDiv(Dec(t, a, b), Dec(t, b + 1, c)) IN IF a > i THEN QNeg(q) ELSE q]
       ELSE NoField
Number(t, i) ==
    LET b == NumberEnd(t, i) IN
    IF b = 0 THEN NoField
    ELSE LET x == Value(t, i) IN
         IF Finite(x) THEN [k |-> "num", a |-> i, b |-> b, v |-> x] ELSE NoField
Quoted(t, i) ==
    LET b == While(t, i + 1, LAMBDA c : c # Quote) IN
    IF At(t, i) = Quote /\ b <= Len(t) /\ b > i + 1 THEN [k |-> "name", a |-> i, b |-> b + 1, v |-> SubSeq(t, i + 1, b - 1)]
    ELSE NoField
Name(t, i) == LET b == NameEnd(t, i) IN
    IF b > i THEN [k |-> "name", a |-> i, b |-> b, v |-> SubSeq(t, i, b - 1)] ELSE NoField
FieldAt(t, i) ==
    LET f == Fraction(t, i) IN IF f.k # "none" THEN f
    ELSE LET n == Number(t, i) IN IF n.k # "none" THEN n
    ELSE LET q == Quoted(t, i) IN IF q.k # "none" THEN q
    ELSE Name(t, i)
Key(t, i) == IF IsLetter(At(t, i)) THEN [Name(t, i) EXCEPT !.k = "key"] ELSE NoField

(* fields separated by blanks, from i on; j is where the previous one ended   *)
RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(t, i, j) ==
    LET f == FieldAt(t, i) IN
    IF f.k = "none" THEN [fields |-> <<>>, end |-> j]
    ELSE LET n == Blanks(t, f.b)
             r == IF n > f.b THEN FieldsFrom(t, n, f.b) ELSE [fields |-> <<>>, end |-> f.b]
         IN [fields |-> <<f>> \o r.fields, end |-> r.end]
Read(t) ==
    LET i == Blanks(t, 1)
        key == Key(t, i)
        n == IF key.k = "none" THEN i ELSE Blanks(t, key.b)
        body == IF key.k = "none" THEN FieldsFrom(t, i, i)
                ELSE IF n > key.b THEN FieldsFrom(t, n, n) ELSE [fields |-> <<>>, end |-> key.b]
        e == Blanks(t, body.end)
    IN [fields |-> (IF key.k = "none" THEN <<>> ELSE <<key>>) \o body.fields,
        rest |-> IF At(t, e) = Hash THEN Len(t) + 1 ELSE e,
        hash |-> IF At(t, e) = Hash THEN e ELSE 0]

(* ---- is a reported field <<kind, value>> the one read? ------------------- *)
(* a numeral without point or exponent that fits is an integer; any other     *)
(* number whose rounded value is integral may be reported as such              *)
Plain(t, f) == \A i \in f.a..(f.b - 1) : IsDigit(t[i]) \/ (i = f.a /\ t[i] \in {43, 45})
Matches(t, f, g) ==
    CASE f.k = "key"  -> g = <<"key", f.v>>
      [] f.k = "name" -> g = <<"name", f.v>>
      [] f.k = "frac" -> g = <<"frac", f.v>>
      [] f.k = "num"  ->
            /\ Len(g) = 2 /\ g[1] \in {"int", "dbl"} /\ QValid(g[2])
            /\ g[1] = "int" => InInt32(g[2])
            /\ g[1] = "dbl" => ~(Plain(t, f) /\ InInt32(g[2]))
            /\ IsRounded(g[2], f.v)
      [] OTHER -> FALSE
TrimLeft(t) == SubSeq(t, Blanks(t, 1), Len(t))
LineOk(t, rest, fields) ==
    LET r == Read(t) IN
    /\ Len(fields) = Len(r.fields)
    /\ \A i \in 1..Len(fields) : Matches(t, r.fields[i], fields[i])
    /\ TrimLeft(rest) = TrimLeft(SubSeq(t, r.rest, Len(t)))
=============================================================================
