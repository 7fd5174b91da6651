------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* Saving and restoring instances of a plugin through the streams a host   *)
(* hands out: streams that take and give data in pieces, that cannot tell  *)
(* their position or seek, that stand somewhere in the middle, end early,  *)
(* stop taking data, or fail.                                              *)
(*                                                                         *)
(* Values are in 1/64. o.len, o.broke, o.read are what the stream saw: how *)
(* many bytes were put in, whether it refused, whether it failed a read.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES inst, shelf, res
vars == <<inst, shelf, res>>
P == {1, 2}
Init == inst = <<>> /\ shelf = <<>> /\ res = <<>>
Clip(v) == IF v < 0 THEN 0 ELSE IF v > 64 THEN 64 ELSE v
New(o) == /\ inst = <<>> /\ UNCHANGED shelf /\ res' = <<1>>
          /\ inst' = [i \in P |-> LET x == o.insts[i] IN [ids |-> x.ids, val |-> [k \in DOMAIN x.ids |-> 0], keeps |-> x.keeps, custom |-> <<>>]]
At(i, id) == {k \in DOMAIN inst[i].ids : inst[i].ids[k] = id}
Set(o) == /\ inst' = [inst EXCEPT ![o.p].val = [k \in DOMAIN @ |-> IF k \in At(o.p, o.id) THEN Clip(o.v) ELSE @[k]]]
          /\ res' = <<IF At(o.p, o.id) = {} THEN 1 ELSE 0>> /\ UNCHANGED shelf
Custom(o) == inst' = [inst EXCEPT ![o.p].custom = o.data] /\ res' = <<>> /\ UNCHANGED shelf
Get(o) == UNCHANGED <<inst, shelf>> /\ res' = <<inst[o.p].val, inst[o.p].custom>>

Shot(i) == [ids |-> inst[i].ids, val |-> inst[i].val, keeps |-> inst[i].keeps, custom |-> IF inst[i].keeps THEN inst[i].custom ELSE <<>>]
Fixed(s) == 14 + 12 * Len(s.ids) + 4
Size(s) == Fixed(s) + Len(s.custom)
(* what was saved in full, and only that, is said to be saved; o.fail: the plugin cannot save what it keeps itself *)
Save(o) ==
  /\ UNCHANGED inst
  /\ IF o.fail /\ inst[o.p].keeps THEN res' = <<1>> /\ UNCHANGED shelf ELSE
     \/ res' = <<0>> /\ o.len = Size(Shot(o.p)) /\ shelf' = Append(shelf, Shot(o.p))
     \/ res' = <<1>> /\ o.broke /\ UNCHANGED shelf
Apply(i, s) == [inst[i] EXCEPT !.val = [k \in DOMAIN @ |->
  LET S == {j \in DOMAIN s.ids : s.ids[j] = inst[i].ids[k]} IN IF S = {} THEN @[k] ELSE s.val[CHOOSE j \in S : TRUE]]]
(* a stream of which only the first n bytes are there; o.fail: the plugin cannot take
   what it kept itself.  A load that fails changes nothing *)
Load(o) ==
  LET s == shelf[o.i]
      n == Size(s) - o.cut
      r == Apply(o.p, s) IN
  /\ UNCHANGED shelf
  /\ IF o.broke \/ n < Fixed(s) \/ (o.fail /\ s.keeps /\ inst[o.p].keeps) THEN res' = <<1>> /\ UNCHANGED inst
     ELSE /\ res' = <<0>>
          /\ inst' = [inst EXCEPT ![o.p] = IF s.keeps /\ r.keeps THEN [r EXCEPT !.custom = SubSeq(s.custom, 1, n - Fixed(s))] ELSE r]
(* A state with some bytes changed is refused, or is one of a plugin, but changes
   nothing when refused, and takes no more memory than the data calls for (o.kb).
   What is damaged in its first six bytes or says it is of a later version is refused. *)
Hurt(o) ==
  /\ UNCHANGED shelf /\ o.kb < 1024
  /\ \/ o.r = 1 /\ UNCHANGED inst /\ o.got = <<inst[o.p].val, inst[o.p].custom>>
     \/ /\ o.r = 0 /\ o.at # {} /\ \A k \in o.at : k > 6 /\ (k \in 7..10 => k = 7)
        /\ Len(o.got[1]) = Len(inst[o.p].ids)
        /\ inst' = [inst EXCEPT ![o.p].val = o.got[1], ![o.p].custom = o.got[2]]
  /\ res' = <<o.r>>
(* much data of its own: a plugin gets back what it had, if it keeps any; then it has again what it had before *)
Big(o) == UNCHANGED <<inst, shelf>> /\ res' = <<0, 0, IF inst[o.p].keeps THEN o.n ELSE 0, TRUE>>
(* the set-up, switching on and processing are nothing to do with what an instance holds *)
Live(o) == UNCHANGED <<inst, shelf>> /\ res' = <<0>>
Do(o) ==
  \/ o.op = "new" /\ New(o)
  \/ /\ inst # <<>>
     /\ \/ o.op = "set" /\ Set(o)
        \/ o.op = "custom" /\ Custom(o)
        \/ o.op = "get" /\ Get(o)
        \/ o.op = "save" /\ Save(o)
        \/ o.op = "live" /\ Live(o)
        \/ o.op = "big" /\ Big(o)
        \/ o.op = "hurt" /\ (IF o.i <= Len(shelf) THEN Hurt([o EXCEPT !.at = {@[k] : k \in DOMAIN @}]) ELSE UNCHANGED <<inst, shelf>> /\ res' = <<2>>)
        \/ o.op = "load" /\ (IF o.i <= Len(shelf) THEN Load(o) ELSE UNCHANGED <<inst, shelf>> /\ res' = <<2>>)
Invs == \A i \in DOMAIN inst : \A k \in DOMAIN inst[i].val : inst[i].val[k] \in 0..64
StepOK(o) ==
  /\ o.op \in {"get", "save", "big", "live"} => inst' = inst
  /\ o.op \notin {"new"} => \A q \in P : q # o.p => inst'[q] = inst[q]
  /\ (o.op = "load" /\ res'[1] = 1) => inst' = inst
=============================================================================
