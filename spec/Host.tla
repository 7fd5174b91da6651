-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* One instance of a plugin as its host sees it: what a block of audio,    *)
(* automation, notes and transport handed to the component becomes at the  *)
(* plugin's own processor, and what comes back.                            *)
(*                                                                         *)
(* A block may reach the processor in one call or in several, as long as   *)
(* the calls are the block, in order and without a gap, each of them sees  *)
(* every parameter as automation has it at each of its samples, and each   *)
(* note is seen once, by the call that covers it, at its distance from     *)
(* that call's beginning.                                                  *)
(*                                                                         *)
(* Values of parameters are in 1/64, samples whole numbers.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES p, res
vars == <<p, res>>
NoTr == [i \in 1..18 |-> IF i = 18 THEN <<0>> ELSE 0]
Init == p = [made |-> FALSE] /\ res = <<>>
Clip(v) == IF v < 0 THEN 0 ELSE IF v > 64 THEN 64 ELSE v
Create(o) == /\ ~p.made
             /\ p' = [made |-> TRUE, ids |-> o.ids, val |-> [k \in 1..Len(o.ids) |-> o.ids[k] % 64], rate |-> 0, max |-> 8192, on |-> FALSE, tr |-> NoTr]
             /\ res' = <<0, o.latency, o.tail, 0, 1>>
Bit(b) == IF b THEN 1 ELSE 0
(* a block size of zero says nothing new; what the transport is after a setup
   is not known until the host has told it again *)
Setup(o) == /\ p' = [p EXCEPT !.rate = o.rate, !.max = IF o.max > 0 THEN o.max ELSE @, !.tr = <<>>]
            /\ res' = <<0, o.rate, p'.max>>
Active(o) == UNCHANGED p /\ res' = <<0, Bit(o.on)>>
Processing(o) == p' = [p EXCEPT !.on = o.on] /\ res' = <<0>>
At(id) == {k \in 1..Len(p.ids) : p.ids[k] = id}
Value(id) == UNCHANGED p /\ res' = <<IF At(id) = {} THEN 0 ELSE p.val[CHOOSE k \in At(id) : TRUE]>>
Set(id, v) == /\ p' = [p EXCEPT !.val = [k \in DOMAIN p.val |-> IF k \in At(id) THEN Clip(v) ELSE @[k]]]
              /\ res' = <<IF At(id) = {} THEN 1 ELSE 0>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
(* the automation of a block: what can be had of it, as <<id, offset, value>> *)
Points(o) == Flat([q \in 1..Len(o.changes) |->
  LET good == SelectSeq(o.changes[q].pts, LAMBDA x : x[3] = 0) IN
  IF o.changes[q].id < 0 THEN <<>> ELSE [j \in 1..Len(good) |-> <<o.changes[q].id, good[j][1], good[j][2]>>]])
(* parameter number k at sample i: the last word on it up to there *)
ValAt(pts, k, i) ==
  LET S == {j \in 1..Len(pts) : pts[j][1] = p.ids[k] /\ pts[j][2] <= i} IN
  IF S = {} THEN p.val[k]
  ELSE Clip(pts[CHOOSE j \in S : \A m \in S : <<pts[m][2], m>> = <<pts[j][2], j>> \/ pts[m][2] < pts[j][2] \/ (pts[m][2] = pts[j][2] /\ m < j)][3])
Notes(o) == SelectSeq(o.events, LAMBDA e : e[1] \in {0, 1})
RECURSIVE NotesIn(_, _, _, _)
NotesIn(o, a, n, k) ==
  IF k = n THEN <<>>
  ELSE LET here == SelectSeq(Notes(o), LAMBDA e : e[2] = a + k) IN
       [j \in 1..Len(here) |-> [here[j] EXCEPT ![2] = k]] \o NotesIn(o, a, n, k + 1)
(* the channels that are connected, bus after bus *)
Ins(o) == SelectSeq(Flat(o.ins), LAMBDA c : Len(c) = o.n)
Outs(o) == Len(SelectSeq(Flat(o.outs), LAMBDA c : c = 1))
(* what the host says of the transport replaces only what it says is valid *)
Told(tr) == IF tr = <<>> THEN p.tr
            ELSE [i \in 1..18 |-> IF i = 18 THEN IF tr[18] = 1 THEN <<tr[19]>> ELSE IF p.tr = <<>> THEN <<>> ELSE p.tr[18]
                                  ELSE IF i \in 9..15 /\ tr[(<<4, 5, 5, 6, 7, 8, 8>>)[i - 8]] = 0 THEN 0 ELSE tr[i]]
Slice(s, a, n) == SubSeq(s, a + 1, a + n)
(* one call of the processor for n samples from a on *)
CallOk(o, pts, tr, a, c) ==
  LET ins == Ins(o)
      n == c.len IN
  /\ a + n <= o.n
  /\ c["in"] = [j \in 1..Len(ins) |-> Slice(ins[j], a, n)]
  /\ c.outs = [j \in 1..Outs(o) |-> n]
  /\ c.rate = p.rate
  /\ \A i \in a..a + n - 1 : c.vals = [k \in DOMAIN p.val |-> ValAt(pts, k, i)]
  /\ c.ev = NotesIn(o, a, n, 0)
  /\ c.has = Bit(c.ev # <<>>)
  /\ IF tr = <<>> THEN TRUE
     ELSE SubSeq(c.tr, 1, 17) = SubSeq(tr, 1, 17) /\ tr[18] \in {<<>>, <<c.tr[18]>>}
RECURSIVE Calls(_, _, _, _, _)
Calls(o, pts, tr, a, cs) ==
  IF cs = <<>> THEN a = o.n
  ELSE CallOk(o, pts, tr, a, Head(cs)) /\ Calls(o, pts, tr, a + Head(cs).len, Tail(cs))
(* channels without samples are no block to speak of: parameters still follow *)
Empty(o) == o.n = 0 \/ (Ins(o) = <<>> /\ Outs(o) = 0)
End(pts) == [k \in DOMAIN p.val |-> ValAt(pts, k, 1000000)]
Written(o, pts) == [c \in 1..Outs(o) |-> [i \in 1..o.n |->
  1000 * c + 100000 * ValAt(pts, 1, i - 1) + (IF c <= Len(Ins(o)) THEN Ins(o)[c][i] ELSE 0)]]
(* nothing was processed: every buffer is as the host left it *)
Untouched(o) == [c \in 1..Outs(o) |-> [i \in 1..o.n |-> IF o.inplace /\ c <= Len(Ins(o)) THEN Ins(o)[c][i] ELSE -9]]
(* the plugin gave up in the last of the calls: what came before it is done *)
Broke(o) == o.breaks > 0 /\ Len(o.calls) = o.breaks
RECURSIVE Sum(_)
Sum(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).len + Sum(Tail(cs))
RECURSIVE CallsTo(_, _, _, _, _)
CallsTo(o, pts, tr, a, cs) == IF cs = <<>> THEN TRUE ELSE CallOk(o, pts, tr, a, Head(cs)) /\ CallsTo(o, pts, tr, a + Head(cs).len, Tail(cs))
Partly(o, pts, a) == [c \in 1..Outs(o) |-> [i \in 1..o.n |-> IF i <= a THEN Written(o, pts)[c][i] ELSE Untouched(o)[c][i]]]
Process(o) ==
  LET pts == Points(o)
      tr == Told(o.tr) IN
  IF ~p.on THEN res' = <<0>> /\ o.calls = <<>> /\ o.out = Untouched(o) /\ UNCHANGED p
  ELSE IF Broke(o)
  THEN LET a == Sum(SubSeq(o.calls, 1, Len(o.calls) - 1)) IN
       /\ res' = <<1>>
       /\ \A k \in DOMAIN p.val : o.after[k] \in {ValAt(pts, k, i) : i \in a..o.n} \union {ValAt(pts, k, 1000000)}
       /\ p' = [p EXCEPT !.val = o.after, !.tr = tr]
       /\ IF Empty(o) THEN \A c \in 1..Len(o.calls) : o.calls[c].len = 0
          ELSE CallsTo(o, pts, tr, 0, o.calls) /\ o.out = Partly(o, pts, a)
  ELSE /\ res' = <<0>>
       /\ p' = [p EXCEPT !.val = End(pts), !.tr = tr]
       /\ IF Empty(o) THEN \A c \in 1..Len(o.calls) : o.calls[c].len = 0
          ELSE Calls(o, pts, tr, 0, o.calls) /\ o.out = Written(o, pts)
Do(o) ==
  \/ o.op = "create" /\ Create(o)
  \/ p.made /\ \/ o.op = "setup" /\ Setup(o)
               \/ o.op = "active" /\ Active(o)
               \/ o.op = "processing" /\ Processing(o)
               \/ o.op = "value" /\ Value(o.id)
               \/ o.op = "set" /\ Set(o.id, o.v)
               \/ o.op = "process" /\ Process(o)
Invs == p.made => \A k \in DOMAIN p.val : p.val[k] \in 0..64
StepOK(o) == o.op \in {"value", "active"} => p' = p
=============================================================================
