-------------------------------- MODULE Param --------------------------------
(***************************************************************************)
(* One plug-in parameter.  Normalised values are written in 64ths; the     *)
(* plain range is lo..lo + 64*k, so a normalised value v is lo + k*v plain.*)
(* k = 0 stands for an empty range, k < 0 for a reversed one.              *)
(***************************************************************************)
EXTENDS Ord
VARIABLES lo, k, v, res
vars == <<lo, k, v, res>>
None == -1

Init == lo = 0 /\ k = 0 /\ v = None /\ res = <<>>
Plain(x) == lo + k * x
Obs(x) == <<x, lo + k * x>>
(* the built parameter starts at its default (given as a plain value) *)
New(l, kk, d) ==
  /\ v = None /\ lo' = l /\ k' = kk
  /\ v' = IF kk > 0 THEN Clamp((d - l) \div kk, 0, 64) ELSE 0
  /\ res' = <<v', l + kk * v'>>
SetN(x) == v' = Clamp(x, 0, 64) /\ res' = Obs(v') /\ UNCHANGED <<lo, k>>
(* plain values off the grid are not used, except outside the range *)
SetP(p) == v' = (IF k <= 0 THEN 0 ELSE IF p <= lo THEN 0 ELSE IF p >= lo + 64 * k THEN 64 ELSE (p - lo) \div k)
           /\ res' = Obs(v') /\ UNCHANGED <<lo, k>>
(* values that are no numbers: whatever happens, the value stays in the range *)
SetOdd(x) == /\ CASE x = "inf" -> v' = 64
                  [] x = "-inf" -> v' = 0
                  [] x = "nan" -> v' \in 0..64
             /\ res' = Obs(v') /\ UNCHANGED <<lo, k>>
Get == res' = Obs(v) /\ UNCHANGED <<lo, k, v>>
Norm(p) == res' = <<IF k <= 0 THEN 0 ELSE IF p <= lo THEN 0 ELSE IF p >= lo + 64 * k THEN 64 ELSE (p - lo) \div k>>
           /\ UNCHANGED <<lo, k, v>>
Denorm(x) == res' = <<lo + k * x>> /\ UNCHANGED <<lo, k, v>>
(* the text of a value, read back, is the value: a query, no effect *)
Text(x) == res' = <<x>> /\ UNCHANGED <<lo, k, v>>

Do(o) ==
  \/ o.op = "new" /\ New(o.lo, o.k, o.d)
  \/ /\ v # None
     /\ \/ o.op = "setn" /\ SetN(o.x)
        \/ o.op = "setp" /\ SetP(o.p)
        \/ o.op = "setodd" /\ SetOdd(o.x)
        \/ o.op = "get" /\ Get
        \/ o.op = "norm" /\ Norm(o.p)
        \/ o.op = "denorm" /\ Denorm(o.x)
        \/ o.op = "text" /\ Text(o.x)

Invs == v # None => /\ v \in 0..64
                    /\ k >= 0 => Plain(v) \in lo..(lo + 64 * k)
(* reads do not change the value, and a write is seen by the next read *)
StepOK(o) ==
  /\ o.op \in {"get", "norm", "denorm", "text"} => v' = v
  /\ o.op \in {"setn", "setp", "setodd"} => res'[1] = v'
  /\ (o.op = "setn" /\ o.x \in 0..64) => v' = o.x
=============================================================================
