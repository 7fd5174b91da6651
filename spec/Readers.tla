------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* A meter that one thread feeds while others look at it.                  *)
(*                                                                         *)
(* o.after[k + 1][g] is figure g of the meter after the first k blocks (or *)
(* resets) when nobody else is there; what these have to be is specified   *)
(* with the meters.  A look is explained by a number of blocks done so far *)
(* after which its figure is the one that was seen; the number does not go *)
(* back from one look to the next of the same thread, nor before the       *)
(* blocks that ended before the look began (lo), nor beyond those that     *)
(* began before it ended (hi).  Figures of different groups are of meters  *)
(* of their own.  g = 0: settings made again as they are, which changes    *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Ord
VARIABLES rounds, res
vars == <<rounds, res>>
Init == rounds = 0 /\ res = <<>>
Least(S) == CHOOSE k \in S : \A j \in S : k <= j
RECURSIVE Explained(_, _, _, _)
Explained(o, l, i, done) == i > Len(l) \/
  LET x == l[i] IN
  IF x.g = 0 THEN Explained(o, l, i + 1, done)
  ELSE LET K == {k \in Max2(x.lo, done[o.group[x.g]])..x.hi : o.after[k + 1][x.g] = x.y} IN
       K # {} /\ Explained(o, l, i + 1, [done EXCEPT ![o.group[x.g]] = Least(K)])
Groups(o) == {o.group[g] : g \in 1..Len(o.group)}
Round(o) ==
  /\ Len(o.after) = Len(o.feeds) + 1
  /\ \A j \in 1..Len(o.seen) : Explained(o, o.seen[j], 1, [g \in Groups(o) |-> 0]) = TRUE
  (* nothing of what was fed is lost by the looking *)
  /\ o.last = o.after[Len(o.after)]
  /\ rounds' = rounds + 1 /\ res' = <<Len(o.feeds)>>
Do(o) == o.op = "round" /\ Round(o)
Invs == rounds >= 0
StepOK(o) == rounds' = rounds + 1
=============================================================================
