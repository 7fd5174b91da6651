------------------------------ MODULE HostData ------------------------------
(***************************************************************************)
(* The view of a block's data as a host hands it over: buses of channels,  *)
(* each the host's own memory, and what the host says of its transport.    *)
(* A bus is a sequence of channels, a channel the number of the piece of   *)
(* memory it lies in, 0 where the host gave none; bare buses have no       *)
(* channels at all.  Samples are whole numbers; times are in 1/16.  Lists  *)
(* of channels may themselves be shared (o.share): that changes nothing.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES d, mem, res
vars == <<d, mem, res>>
Init == d = [made |-> FALSE] /\ mem = <<>> /\ res = <<>>
Wrap(o) == /\ d' = [made |-> TRUE, n |-> o.n, bus |-> <<o.ins, o.outs>>, ctx |-> o.ctx]
           /\ mem' = o.mem /\ res' = <<1, o.n, IF o.ctx.there THEN 1 ELSE 0>>
Bit(b) == IF b THEN 1 ELSE 0
Has(x, k) == (x \div (2 ^ k)) % 2 = 1
Known(o) == o.bus >= 0 /\ o.bus < Len(d.bus[o.dir + 1])
Chans(o) == IF Known(o) THEN d.bus[o.dir + 1][o.bus + 1] ELSE <<>>
(* a bus there isn't, or one without channels, is none *)
Bus(o) == res' = (IF Chans(o) = <<>> THEN <<>> ELSE <<Len(Chans(o)), d.n>>)
Piece(o) == IF o.ch < 0 \/ o.ch >= Len(Chans(o)) THEN 0 ELSE Chans(o)[o.ch + 1]
(* samples, and that nothing lies behind them *)
Read(o) == res' = (IF Piece(o) = 0 THEN <<-1>> ELSE <<d.n>> \o mem[Piece(o)])
(* what is written there is written in the host's memory, for all that share it *)
Write(o) == IF Piece(o) = 0 \/ o.i >= d.n THEN UNCHANGED mem /\ res' = <<0>>
            ELSE mem' = [mem EXCEPT ![Piece(o)][o.i + 1] = o.v] /\ res' = <<1>>
Host(o) == res' = mem[o.k]
Scribble(o) == mem' = [mem EXCEPT ![o.k][o.i + 1] = o.v] /\ res' = <<>>
(* the host's words and which of them hold, by the numbers of the published interface *)
Context == res' = IF ~d.ctx.there THEN <<>>
                  ELSE LET c == d.ctx IN
                       << <<Bit(Has(c.flags, 1)), Bit(Has(c.flags, 3)), Bit(Has(c.flags, 2)), Bit(Has(c.flags, 10)), Bit(Has(c.flags, 13)), Bit(Has(c.flags, 11)), Bit(Has(c.flags, 9))>>,
                          <<c.flags>>, c.num >>
Do(o) ==
  \/ o.op = "wrap" /\ Wrap(o)
  \/ o.op = "none" /\ d' = [made |-> FALSE] /\ mem' = <<>> /\ res' = <<0>>
  \/ /\ d.made
     /\ \/ o.op = "bus" /\ Bus(o) /\ UNCHANGED <<d, mem>>
        \/ o.op = "read" /\ Read(o) /\ UNCHANGED <<d, mem>>
        \/ o.op = "write" /\ Write(o) /\ UNCHANGED d
        \/ o.op = "host" /\ Host(o) /\ UNCHANGED <<d, mem>>
        \/ o.op = "scribble" /\ Scribble(o) /\ UNCHANGED d
        \/ o.op = "context" /\ Context /\ UNCHANGED <<d, mem>>
Invs == \A k \in DOMAIN mem : Len(mem[k]) = d.n
StepOK(o) == o.op \in {"bus", "read", "host", "context"} => mem' = mem
=============================================================================
