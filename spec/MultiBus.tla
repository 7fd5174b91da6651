------------------------------ MODULE MultiBus ------------------------------
(***************************************************************************)
(* The multi-bus processing context: buses with their channels, what the   *)
(* plug-in reaches through the context, and the whole-bus operations.      *)
(* A bus is [ch |-> sequence of channels, ty |-> 0 main / 1 aux, act].     *)
(***************************************************************************)
EXTENDS Ord
VARIABLES ins, outs, started, res
vars == <<ins, outs, started, res>>
Init == ins = <<>> /\ outs = <<>> /\ started = FALSE /\ res = <<>>
New(i, o) == ~started /\ started' = TRUE /\ ins' = i /\ outs' = o /\ res' = <<>>
S(side) == IF side = 0 THEN ins ELSE outs
Q(r) == res' = r /\ UNCHANGED <<ins, outs, started>>

First(s, ty) == LET c == {i \in 1..Len(s) : s[i].ty = ty} IN
                IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Chans(s, i) == IF i = 0 THEN <<>> ELSE <<s[i].ch>>
Main(side) == Q(Chans(S(side), First(S(side), 0)))
Sidechain == Q(Chans(ins, First(ins, 1)))
BusAt(side, i) == Q(IF i >= 0 /\ i < Len(S(side)) THEN <<S(side)[i + 1].ch>> ELSE <<>>)
Info(side, i) == Q(IF i >= 0 /\ i < Len(S(side)) THEN <<<<S(side)[i + 1].ty, S(side)[i + 1].act>>>> ELSE <<>>)
Num == Q(<<Len(ins), Len(outs)>>)
(* the callback sees every active bus once, in order, with its own channels *)
Visit(side) == LET s == S(side)
                   v == [i \in 1..Len(s) |-> <<i - 1, s[i].ch, s[i].ty, s[i].act>>] IN
               Q(SelectSeq(v, LAMBDA x : x[4]))
ProcMain == Q(IF First(ins, 0) = 0 \/ First(outs, 0) = 0 THEN <<>>
              ELSE <<ins[First(ins, 0)].ch, outs[First(outs, 0)].ch>>)
ProcSide == Q(IF First(ins, 0) = 0 \/ First(outs, 0) = 0 THEN <<>>
              ELSE <<ins[First(ins, 0)].ch, Chans(ins, First(ins, 1)), outs[First(outs, 0)].ch>>)
Active(side, i, b) ==
  /\ i + 1 \in 1..Len(S(side))
  /\ ins' = IF side = 0 THEN [ins EXCEPT ![i + 1].act = b] ELSE ins
  /\ outs' = IF side = 1 THEN [outs EXCEPT ![i + 1].act = b] ELSE outs
  /\ res' = <<>> /\ UNCHANGED started
Zero(c) == [i \in 1..Len(c) |-> 0]
Clear == outs' = [i \in 1..Len(outs) |-> [outs[i] EXCEPT !.ch = [c \in 1..Len(@) |-> Zero(@[c])]]]
         /\ res' = <<>> /\ UNCHANGED <<ins, started>>
Over(dst, src) == [i \in 1..Len(dst) |-> IF i <= Len(src) THEN src[i] ELSE dst[i]]
OverCh(d, s) == [c \in 1..Len(d) |-> IF c <= Len(s) THEN Over(d[c], s[c]) ELSE d[c]]
Pass == outs' = [i \in 1..Len(outs) |-> IF i <= Len(ins) THEN [outs[i] EXCEPT !.ch = OverCh(@, ins[i].ch)] ELSE outs[i]]
        /\ res' = <<>> /\ UNCHANGED <<ins, started>>
Dump == Q(<<[i \in 1..Len(ins) |-> ins[i].ch], [i \in 1..Len(outs) |-> outs[i].ch]>>)
(* the plug-in writes through the channels the context hands out *)
Write(i, c, x) ==
  /\ i + 1 \in 1..Len(outs) /\ c \in 1..Len(outs[i + 1].ch)
  /\ outs' = [outs EXCEPT ![i + 1].ch[c] = [k \in 1..Len(@) |-> x]]
  /\ res' = <<>> /\ UNCHANGED <<ins, started>>

Do(o) ==
  \/ o.op = "new" /\ New(o.ins, o.outs)
  \/ /\ started
     /\ \/ o.op = "main" /\ Main(o.side)
        \/ o.op = "sidechain" /\ Sidechain
        \/ o.op = "bus" /\ BusAt(o.side, o.i)
        \/ o.op = "info" /\ Info(o.side, o.i)
        \/ o.op = "num" /\ Num
        \/ o.op = "visit" /\ Visit(o.side)
        \/ o.op = "procmain" /\ ProcMain
        \/ o.op = "procside" /\ ProcSide
        \/ o.op = "active" /\ Active(o.side, o.i, o.b)
        \/ o.op = "clear" /\ Clear
        \/ o.op = "pass" /\ Pass
        \/ o.op = "write" /\ Write(o.i, o.c, o.x)
        \/ o.op = "dump" /\ Dump
Invs == TRUE
(* nothing writes to the host's inputs; shapes stay *)
StepOK(o) == o.op # "new" =>
  /\ \A i \in 1..Len(ins) : ins'[i].ch = ins[i].ch
  /\ \A i \in 1..Len(outs) : \A c \in 1..Len(outs[i].ch) : Len(outs'[i].ch[c]) = Len(outs[i].ch[c])
  /\ o.op = "pass" => \A i \in 1..Min2(Len(ins), Len(outs)) : \A c \in 1..Min2(Len(ins[i].ch), Len(outs[i].ch)) :
        Len(ins[i].ch[c]) = Len(outs[i].ch[c]) => outs'[i].ch[c] = ins[i].ch[c]
=============================================================================
