-------------------------------- MODULE Ord --------------------------------
(* Small operators shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* s ordered by Key, ties in original order *)
StableBy(s, Key(_)) ==
  LET idx == [i \in 1..Len(s) |-> i]
      Before(i, j) == Key(s[i]) < Key(s[j]) \/ (Key(s[i]) = Key(s[j]) /\ i < j)
      p == SortSeq(idx, Before)
  IN  [i \in 1..Len(s) |-> s[p[i]]]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
SeqMap(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Const(n, x) == [i \in 1..n |-> x]
=============================================================================
