------------------------------ MODULE RealTime ------------------------------
(***************************************************************************)
(* A block on the audio thread: whatever its size, channels, automation    *)
(* and transport, and whichever of the context's means the plugin uses,    *)
(* nothing is allocated and nothing is printed, and the plugin sees every  *)
(* sample of it once.  So it is when different blocks come in turn.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
VARIABLES max, on, res
vars == <<max, on, res>>
Init == max = 0 /\ on = FALSE /\ res = <<>>
Samples(bs) == FoldSeq(LAMBDA b, s : s + (IF b.ins + b.outs > 0 THEN b.n ELSE 0), 0, bs)
(* [allocations, printed, samples seen] *)
Work(o, seen) == UNCHANGED <<max, on>> /\ (\A i \in DOMAIN o.bs : o.bs[i].n <= max) /\ res' = <<0, 0, seen>>
Do(o) ==
  \/ o.op = "new" /\ max' = o.max /\ on' = FALSE /\ res' = <<>>
  \/ /\ max > 0
     /\ \/ o.op = "processing" /\ on' = o.on /\ UNCHANGED max /\ res' = <<0>>
        \/ o.op = "context" /\ Work(o, Samples(o.bs))
        \/ o.op = "block" /\ Work(o, IF on THEN Samples(o.bs) ELSE 0)
Invs == max >= 0
StepOK(o) == o.op \in {"context", "block"} => res'[1] = 0 /\ res'[2] = 0
=============================================================================
