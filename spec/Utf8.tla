-------------------------------- MODULE Utf8 --------------------------------
(* Bytes, lines of bytes and their text.                                     *)
EXTENDS Integers, Sequences

(* the lines of a byte sequence: ended by \n, a \r before which is dropped;   *)
(* what follows the last \n is a line unless empty                            *)
EndAt(b, i) == IF \E k \in i..Len(b) : b[k] = 10
               THEN CHOOSE k \in i..Len(b) : b[k] = 10 /\ \A m \in i..(k - 1) : b[m] # 10
               ELSE 0
RECURSIVE LinesFrom(_, _)
LinesFrom(b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET k == EndAt(b, i) IN
         IF k = 0 THEN <<SubSeq(b, i, Len(b))>>
         ELSE LET z == IF k > i /\ b[k - 1] = 13 THEN k - 2 ELSE k - 1
              IN <<SubSeq(b, i, z)>> \o LinesFrom(b, k + 1)
Lines(b) == LinesFrom(b, 1)
(* length of the longest prefix made of whole lines                           *)
WholeLines(b) == IF \E k \in 1..Len(b) : b[k] = 10
                 THEN CHOOSE k \in 1..Len(b) : b[k] = 10 /\ \A m \in (k + 1)..Len(b) : b[m] # 10
                 ELSE 0

(* ---- UTF-8 -------------------------------------------------------------- *)
Follow(b, i, n) == i + n <= Len(b) /\ \A k \in (i + 1)..(i + n) : b[k] \in 128..191
(* number of bytes of the character at i, 0 where there is none               *)
CharLen(b, i) ==
    LET c == b[i] IN
    CASE c < 128 -> 1
      [] c \in 194..223 /\ Follow(b, i, 1) -> 2
      [] c \in 224..239 /\ Follow(b, i, 2) /\ (c = 224 => b[i + 1] >= 160) /\ (c = 237 => b[i + 1] < 160) -> 3
      [] c \in 240..244 /\ Follow(b, i, 3) /\ (c = 240 => b[i + 1] >= 144) /\ (c = 244 => b[i + 1] < 144) -> 4
      [] OTHER -> 0
CharAt(b, i, n) ==
    CASE n = 1 -> b[i]
      [] n = 2 -> (b[i] - 192) * 64 + (b[i + 1] - 128)
      [] n = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + (b[i + 2] - 128)
      [] OTHER -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + (b[i + 3] - 128)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(b, i, acc) ==
    IF i > Len(b) THEN [ok |-> TRUE, t |-> acc]
    ELSE LET n == CharLen(b, i) IN
         IF n = 0 THEN [ok |-> FALSE] ELSE DecodeFrom(b, i + n, Append(acc, CharAt(b, i, n)))
(* [ok, t]: t is the sequence of code points                                  *)
Decode(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN [ok |-> TRUE, t |-> b] ELSE DecodeFrom(b, 1, <<>>)
=============================================================================
