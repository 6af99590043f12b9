----------------------------- MODULE Partition -----------------------------
(* Abstract union-find (property C01).  The state is a set of disjoint      *)
(* blocks; an element not in any block is in a block of its own.           *)
EXTENDS Integers, Sequences, FiniteSets

Block(P, x) == IF \E B \in P : x \in B THEN CHOOSE B \in P : x \in B ELSE {x}

Joined(P, a, b) == (P \ {Block(P, a), Block(P, b)}) \cup {Block(P, a) \cup Block(P, b)}

Same(P, a, b) == b \in Block(P, a)

(* classes(xs): group the positions of xs by class, keeping every          *)
(* occurrence, classes and members in order of first appearance.           *)
RECURSIVE GroupFrom(_, _, _, _)
GroupFrom(P, xs, i, acc) ==
  IF i > Len(xs) THEN acc
  ELSE LET hit == {k \in 1..Len(acc) : Same(P, acc[k][1], xs[i])} IN
       IF hit = {} THEN GroupFrom(P, xs, i + 1, Append(acc, <<xs[i]>>))
       ELSE LET k == CHOOSE k \in hit : TRUE IN
            GroupFrom(P, xs, i + 1, [acc EXCEPT ![k] = Append(@, xs[i])])
Classes(P, xs) == GroupFrom(P, xs, 1, <<>>)
=============================================================================
