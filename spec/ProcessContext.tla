--------------------------- MODULE ProcessContext ---------------------------
(***************************************************************************)
(* The per-block processing context of pkg/framework/process: the audio    *)
(* buffers of the block, the queued parameter changes, and the MIDI events.*)
(*                                                                         *)
(* Normalised parameter values are written in 64ths (0..64).  A buffer is  *)
(* a sequence of integers.                                                 *)
(***************************************************************************)
EXTENDS Ord

VARIABLES cap,      \* largest block size, 0 before New
          pids,     \* registered parameter ids
          val,      \* function id -> 0..64
          ins, outs,\* sequences of channel buffers
          inpl,     \* per output channel: 1 if it is the same memory as the input of that number
          chg,      \* queued changes <<id, value, offset>>
          inq, outq,\* MIDI events <<kind, id, offset>> in arrival order
          res
vars == <<cap, pids, val, ins, outs, inpl, chg, inq, outq, res>>

MaxChanges == 128
Off3(e) == e[3]
Ordered(q) == StableBy(q, Off3)
InRange(q, a, b) == Ordered(SelectSeq(q, LAMBDA e : a <= e[3] /\ e[3] < b))

NumSamples == IF Len(ins) > 0 /\ Len(ins[1]) > 0 THEN Len(ins[1])
              ELSE IF Len(outs) > 0 /\ Len(outs[1]) > 0 THEN Len(outs[1]) ELSE 0
NumCh == Min2(Len(ins), Len(outs))

Init == cap = 0 /\ pids = {} /\ val = <<>> /\ ins = <<>> /\ outs = <<>> /\ inpl = <<>> /\ chg = <<>>
        /\ inq = <<>> /\ outq = <<>> /\ res = <<>>

New(n, ids) ==
  /\ cap = 0
  /\ cap' = n /\ pids' = {ids[i] : i \in 1..Len(ids)} /\ val' = [i \in pids' |-> 0]
  /\ ins' = <<>> /\ outs' = <<>> /\ inpl' = <<>> /\ chg' = <<>> /\ inq' = <<>> /\ outq' = <<>> /\ res' = <<>>

(* the host hands over the buffers of the next block *)
Block(i, o, sh) ==
  /\ cap > 0
  /\ Len(sh) = Len(o) /\ \A c \in 1..Len(o) : sh[c] = 1 => c <= Len(i)
  /\ ins' = i /\ inpl' = sh
  /\ outs' = [c \in 1..Len(o) |-> IF sh[c] = 1 THEN i[c] ELSE o[c]]
  /\ res' = <<>>
  /\ UNCHANGED <<cap, pids, val, chg, inq, outq>>

bufs == <<ins, outs, inpl>>
evs == <<inq, outq>>
pars == <<pids, val>>

-----------------------------------------------------------------------------
(* parameter changes *)
AddChange(id, v, o) ==
  /\ chg' = IF Len(chg) < MaxChanges THEN Append(chg, <<id, v, o>>) ELSE chg
  /\ res' = <<>> /\ UNCHANGED <<cap, pars, bufs, evs>>
SortChanges == chg' = Ordered(chg) /\ res' = <<>> /\ UNCHANGED <<cap, pars, bufs, evs>>
Changes == res' = chg /\ UNCHANGED <<cap, pars, bufs, evs, chg>>
HasChanges == res' = <<IF chg = <<>> THEN 0 ELSE 1>> /\ UNCHANGED <<cap, pars, bufs, evs, chg>>
ResetChanges == chg' = <<>> /\ res' = <<>> /\ UNCHANGED <<cap, pars, bufs, evs>>
SetTo(id, v) == [i \in pids |-> IF i = id THEN Clamp(v, 0, 64) ELSE val[i]]
Apply(id, v) == val' = SetTo(id, v) /\ res' = <<>> /\ UNCHANGED <<cap, pids, bufs, evs, chg>>
RECURSIVE ApplyAll(_, _)
ApplyAll(vv, s) == IF s = <<>> THEN vv
  ELSE ApplyAll([i \in pids |-> IF i = Head(s)[1] THEN Clamp(Head(s)[2], 0, 64) ELSE vv[i]], Tail(s))
(* what the plug-in does with the queued changes of a block, in order *)
ApplyQueued == val' = ApplyAll(val, chg) /\ res' = <<>> /\ UNCHANGED <<cap, pids, bufs, evs, chg>>
Value(id) == res' = <<IF id \in pids THEN val[id] ELSE 0, IF id \in pids THEN 3 * val[id] - 64 ELSE 0>>
             /\ UNCHANGED <<cap, pars, bufs, evs, chg>>

-----------------------------------------------------------------------------
(* events *)
Keep == UNCHANGED <<cap, pars, bufs, chg>>
EvIn(e)  == inq' = Append(inq, e) /\ res' = <<>> /\ UNCHANGED outq /\ Keep
EvOut(e) == outq' = Append(outq, e) /\ res' = <<>> /\ UNCHANGED inq /\ Keep
GetIn(a, b) == res' = InRange(inq, a, b) /\ UNCHANGED evs /\ Keep
AllIn == res' = InRange(inq, 0, NumSamples) /\ UNCHANGED evs /\ Keep
HasIn == res' = <<IF InRange(inq, 0, NumSamples) = <<>> THEN 0 ELSE 1>> /\ UNCHANGED evs /\ Keep
GetOut == res' = Ordered(outq) /\ UNCHANGED evs /\ Keep
ClearIn == inq' = <<>> /\ res' = <<>> /\ UNCHANGED outq /\ Keep
ClearOut == outq' = <<>> /\ res' = <<>> /\ UNCHANGED inq /\ Keep
ClearEv == inq' = <<>> /\ outq' = <<>> /\ res' = <<>> /\ Keep

-----------------------------------------------------------------------------
(* buffers *)
Sizes == /\ res' = <<NumSamples, Len(ins), Len(outs), NumCh, Min2(NumCh, 2)>>
         /\ UNCHANGED <<cap, pars, bufs, evs, chg>>
(* both scratch buffers are as long as the block, distinct from each other and
   from the block: filling them with 1s and 2s shows as their sums *)
Scratch == /\ NumSamples <= cap
           /\ res' = <<NumSamples, NumSamples, NumSamples, 2 * NumSamples>> \o ins \o outs
           /\ UNCHANGED <<cap, pars, bufs, evs, chg>>
(* writing an output channel that is processed in place writes the input too *)
Written(o2) == ins' = [c \in 1..Len(ins) |-> IF c <= Len(o2) THEN (IF inpl[c] = 1 THEN o2[c] ELSE ins[c]) ELSE ins[c]]
CopyBuf(dst, src) == [i \in 1..Len(dst) |-> IF i <= Len(src) THEN src[i] ELSE dst[i]]
(* F(ch, x): what the callback writes for channel ch (from 0) *)
EachChannel(n, F(_, _)) ==
  /\ outs' = [c \in 1..Len(outs) |->
               IF c <= n THEN [i \in 1..Len(outs[c]) |-> IF i <= Len(ins[c]) THEN F(c - 1, ins[c][i]) ELSE outs[c][i]]
               ELSE outs[c]]
  /\ Written(outs')
  /\ res' = outs'
  /\ UNCHANGED <<cap, pars, inpl, evs, chg>>
PassThrough == EachChannel(NumCh, LAMBDA c, x : x)
Tag(c, x) == x + 1000 * (c + 1)
ProcChannels == EachChannel(NumCh, Tag)
ProcStereo == EachChannel(Min2(NumCh, 2), Tag)
ProcMono == EachChannel(Min2(NumCh, 1), Tag)
ProcSeparately(k) == EachChannel(Min2(NumCh, k), Tag)
(* sample-wise: output sample s of channel c = input + 1000 * (c + 1) + 10000 * s *)
ProcSamples ==
  /\ outs' = [c \in 1..Len(outs) |-> IF c <= NumCh
               THEN [i \in 1..Len(outs[c]) |-> IF i <= NumSamples THEN Tag(c - 1, ins[c][i]) + 10000 * (i - 1) ELSE outs[c][i]]
               ELSE outs[c]]
  /\ Written(outs')
  /\ res' = outs' /\ UNCHANGED <<cap, pars, inpl, evs, chg>>
ClearOutBuf ==
  /\ outs' = [c \in 1..Len(outs) |-> Const(Len(outs[c]), 0)]
  /\ Written(outs')
  /\ res' = outs' /\ UNCHANGED <<cap, pars, inpl, evs, chg>>

Do(o) ==
  \/ o.op = "new" /\ New(o.n, o.ids)
  \/ o.op = "block" /\ Block(o.ins, o.outs, o.share)
  \/ /\ cap > 0
     /\ \/ o.op = "addchange" /\ AddChange(o.id, o.v, o.o)
        \/ o.op = "sort" /\ SortChanges
        \/ o.op = "changes" /\ Changes
        \/ o.op = "haschanges" /\ HasChanges
        \/ o.op = "resetchanges" /\ ResetChanges
        \/ o.op = "apply" /\ Apply(o.id, o.v)
        \/ o.op = "setat" /\ Apply(o.id, o.v)
        \/ o.op = "applyqueued" /\ ApplyQueued
        \/ o.op = "value" /\ Value(o.id)
        \/ o.op = "evin" /\ EvIn(o.ev)
        \/ o.op = "evout" /\ EvOut(o.ev)
        \/ o.op = "getin" /\ GetIn(o.a, o.b)
        \/ o.op = "procev" /\ GetIn(o.a, o.b)
        \/ o.op = "allin" /\ AllIn
        \/ o.op = "hasin" /\ HasIn
        \/ o.op = "getout" /\ GetOut
        \/ o.op = "clearin" /\ ClearIn
        \/ o.op = "clearout" /\ ClearOut
        \/ o.op = "clearev" /\ ClearEv
        \/ o.op = "sizes" /\ Sizes
        \/ o.op = "scratch" /\ Scratch
        \/ o.op = "pass" /\ PassThrough
        \/ o.op = "copyio" /\ PassThrough
        \/ o.op = "channels" /\ ProcChannels
        \/ o.op = "stereo" /\ ProcStereo
        \/ o.op = "mono" /\ ProcMono
        \/ o.op = "separate" /\ ProcSeparately(o.k)
        \/ o.op = "samples" /\ ProcSamples
        \/ o.op = "clearbuf" /\ ClearOutBuf

-----------------------------------------------------------------------------
Invs == /\ Len(chg) <= MaxChanges
        /\ cap > 0 => \A i \in pids : val[i] \in 0..64

Mult(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
StepOK(o) ==
  /\ o.op = "sort" =>
       /\ Len(chg') = Len(chg)
       /\ \A i \in 1..Len(chg) : Mult(chg, chg[i]) = Mult(chg', chg[i])
       /\ \A i, j \in 1..Len(chg') : i < j => chg'[i][3] <= chg'[j][3]
  /\ o.op = "addchange" => \A i \in 1..Len(chg) : chg'[i] = chg[i]
  /\ o.op \in {"pass", "channels", "stereo", "mono", "separate", "samples", "clearbuf", "copyio"} =>
       /\ Len(outs') = Len(outs)
       /\ \A c \in 1..Len(outs) : Len(outs'[c]) = Len(outs[c])
       /\ Len(ins') = Len(ins) /\ \A c \in 1..Len(ins) : c > Len(outs) \/ inpl[c] = 0 => ins'[c] = ins[c]
  /\ o.op \in {"evin", "clearin"} => outq' = outq
  /\ o.op \in {"evout", "clearout"} => inq' = inq
=============================================================================
