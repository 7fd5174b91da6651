----------------------------- MODULE EventQueue -----------------------------
(***************************************************************************)
(* The MIDI event queue of pkg/midi: producers add events with a sample    *)
(* offset, the audio side reads the events of a block, drops the processed *)
(* ones and shifts the rest.                                               *)
(*                                                                         *)
(* An event is <<kind, id, off>>.  The queue is kept in arrival order; the *)
(* order in which events are handed out (by offset, ties by arrival) is    *)
(* derived, so "sorted lazily" is an implementation matter.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES queue,    \* sequence of events in arrival order
          res       \* what the last call returned (observation)

vars == <<queue, res>>

Off(e) == e[3]

(* positions of the queue ordered by offset, ties by arrival *)
Ordered(q) ==
  LET idx == [i \in 1..Len(q) |-> i]
      Before(i, j) == Off(q[i]) < Off(q[j]) \/ (Off(q[i]) = Off(q[j]) /\ i < j)
      p == SortSeq(idx, Before)
  IN  [i \in 1..Len(q) |-> q[p[i]]]

InRange(q, a, b) == Ordered(SelectSeq(q, LAMBDA e : a <= Off(e) /\ Off(e) < b))

Init == queue = <<>> /\ res = <<>>

Add(e)        == queue' = Append(queue, e) /\ res' = <<>>
AddMany(es)   == queue' = queue \o es /\ res' = <<>>
Range(a, b)   == UNCHANGED queue /\ res' = InRange(queue, a, b)
All           == UNCHANGED queue /\ res' = Ordered(queue)
Size          == UNCHANGED queue /\ res' = <<Len(queue), IF queue = <<>> THEN 1 ELSE 0>>
Remove(u)     == queue' = SelectSeq(queue, LAMBDA e : Off(e) > u) /\ res' = <<>>
Shift(d)      == queue' = [i \in 1..Len(queue) |-> [queue[i] EXCEPT ![3] = @ + d]] /\ res' = <<>>
Clear         == queue' = <<>> /\ res' = <<>>

Do(o) ==
  \/ o.op = "add"     /\ Add(o.ev)
  \/ o.op = "addmany" /\ AddMany(o.evs)
  \/ o.op = "range"   /\ Range(o.a, o.b)
  \/ o.op = "process" /\ Range(o.a, o.b)
  \/ o.op = "all"     /\ All
  \/ o.op = "size"    /\ Size
  \/ o.op = "remove"  /\ Remove(o.u)
  \/ o.op = "shift"   /\ Shift(o.d)
  \/ o.op = "clear"   /\ Clear

-----------------------------------------------------------------------------
(* Properties, stated without the operators that define the actions. *)

Ids(q) == {q[i][2] : i \in 1..Len(q)}
Sorted(s) == \A i, j \in 1..Len(s) : i < j => Off(s[i]) <= Off(s[j])
Pos(q, id) == CHOOSE i \in 1..Len(q) : q[i][2] = id

NoDuplicates == Cardinality(Ids(queue)) = Len(queue)

(* a read returns exactly the queued events of the range, once, in order *)
ReadOK(o) ==
  o.op \in {"range", "process", "all"} =>
    /\ Sorted(res')
    /\ Cardinality(Ids(res')) = Len(res')
    /\ Ids(res') = {id \in Ids(queue) :
          o.op = "all" \/ (LET x == Off(queue[Pos(queue, id)]) IN o.a <= x /\ x < o.b)}
    /\ \A i, j \in 1..Len(res') : (i < j /\ Off(res'[i]) = Off(res'[j]))
          => Pos(queue, res'[i][2]) < Pos(queue, res'[j][2])
    /\ queue' = queue

(* removing and shifting neither lose nor touch the events that stay *)
EditOK(o) ==
  /\ o.op = "remove" => \A i \in 1..Len(queue) :
        (queue[i][2] \in Ids(queue')) <=> Off(queue[i]) > o.u
  /\ o.op = "shift" => /\ Ids(queue') = Ids(queue)
                       /\ \A i \in 1..Len(queue) :
                            Off(queue'[Pos(queue', queue[i][2])]) = Off(queue[i]) + o.d
  /\ o.op \in {"add", "addmany"} => Ids(queue) \subseteq Ids(queue')

StepOK(o) == ReadOK(o) /\ EditOK(o)
=============================================================================
