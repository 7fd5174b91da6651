------------------------------ MODULE Adapters ------------------------------
(***************************************************************************)
(* Processors made fit for chains, and chains that come ready-made: they   *)
(* do to a buffer what the parts they are made of do to it one after the   *)
(* other.  o.y is what came out, o.z what the parts, set up as Made says,  *)
(* made of the same buffers.  Samples are in 2^-20, times in milliseconds. *)
(***************************************************************************)
EXTENDS Fix
VARIABLES k, mix, res
vars == <<k, mix, res>>
Init == k = "" /\ mix = 0 /\ res = <<>>
Kinds == {"comp", "gate", "dc", "simple", "dynamics", "noise"}
(* parts: a compressor with threshold (dB), ratio, attack, release; a gate with threshold and range; a blocker of DC *)
Made(o) ==
  CASE o.k \in {"comp", "gate", "dc"} -> <<<<o.k>> \o o.set>>
    [] o.k = "simple" -> <<<<"dc">>>>
    [] o.k = "dynamics" -> <<<<"gate", -40, -60>>, <<"comp", -20, 4, 10, 100>>>>
    [] o.k = "noise" -> <<>>
New(o) == /\ o.k \in Kinds /\ o.parts = Made(o)
          /\ k' = o.k /\ mix' = o.mix /\ res' = <<Len(Made(o))>>
(* noise is added at its level, and is never the same twice in a row for long *)
Noisy(x, y) == /\ Len(y) = Len(x)
               /\ \A i \in 1..Len(x) : Abs(y[i] - x[i]) <= Abs(mix) + 2
               /\ (Abs(mix) > 1000 /\ Len(x) >= 8) => Cardinality({y[i] - x[i] : i \in 1..Len(x)}) > 2
Run(o) == /\ UNCHANGED <<k, mix>> /\ res' = <<Len(o.x)>>
          /\ IF k = "noise" THEN Noisy(o.x, o.y) ELSE o.y = o.z
Do(o) == \/ o.op = "new" /\ New(o)
         \/ k # "" /\ o.op = "run" /\ Run(o)
         \/ k # "" /\ o.op = "reset" /\ UNCHANGED <<k, mix>> /\ res' = <<>>
         \/ k = "noise" /\ o.op = "mix" /\ mix' = o.mix /\ UNCHANGED k /\ res' = <<>>
Invs == k \in Kinds \union {""}
StepOK(o) == o.op # "new" => k' = k
=============================================================================
