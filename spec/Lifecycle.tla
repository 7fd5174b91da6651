------------------------------ MODULE Lifecycle -----------------------------
(***************************************************************************)
(* What a plugin built on the base processor is told, and when: every call *)
(* of the host reaches the callbacks the plugin set, once, in order, with  *)
(* what the host said; those it did not set are left out.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES cb,     \* which callbacks there are: [init, active, reset, audio]
          rate, most, on, nbus, res
vars == <<cb, rate, most, on, nbus, res>>
Init == cb = [init |-> FALSE, active |-> FALSE, reset |-> FALSE, audio |-> FALSE] /\ rate = 0 /\ most = 8192 /\ on = FALSE /\ nbus = 0 /\ res = <<>>
New(o) == /\ cb' = [init |-> o.init, active |-> o.active, reset |-> o.reset, audio |-> o.audio]
          /\ rate' = 0 /\ most' = 8192 /\ on' = FALSE /\ nbus' = (IF o.buses = 0 THEN 2 ELSE o.buses) /\ res' = <<1>>
(* a callback may be set, replaced and taken away at any time *)
Callbacks(o) == /\ cb' = [cb EXCEPT !.init = o.init, !.active = o.active, !.reset = o.reset]
                /\ UNCHANGED <<rate, most, on, nbus>> /\ res' = <<>>
If(b, s) == IF b THEN s ELSE <<>>
Bit(b) == IF b THEN 1 ELSE 0
Start(o, r, n) == /\ rate' = r /\ most' = n /\ UNCHANGED <<cb, on, nbus>>
                  /\ o.calls = If(cb.init, <<<<1, r, n>>>>)
                  /\ res' = <<Bit(cb.init /\ o.bad > 0)>>
(* it is silenced before it is told that it is off *)
Active(o) == /\ UNCHANGED <<cb, rate, most, on, nbus>>
             /\ o.calls = If(~o.on /\ cb.reset, <<<<3>>>>) \o If(cb.active, <<<<2, Bit(o.on)>>>>)
             /\ res' = <<Bit(cb.active /\ o.bad > 0)>>
Processing(o) == on' = o.on /\ UNCHANGED <<cb, rate, most, nbus>> /\ o.calls = <<>> /\ res' = <<0>>
Process(o) == UNCHANGED <<cb, rate, most, on, nbus>> /\ res' = <<0>> /\ o.calls = If(on /\ cb.audio, <<<<4, o.n, rate>>>>)
Facts == UNCHANGED <<cb, rate, most, on, nbus>> /\ res' = <<rate, nbus, 0, 0, 1>>
Do(o) == \/ o.op = "new" /\ New(o)
         \/ /\ nbus > 0
            /\ \/ o.op = "callbacks" /\ Callbacks(o)
               \/ o.op = "init" /\ Start(o, 48000, most)
               \/ o.op = "setup" /\ Start(o, o.rate, IF o.n > 0 THEN o.n ELSE most)
               \/ o.op = "active" /\ Active(o)
               \/ o.op = "processing" /\ Processing(o)
               \/ o.op = "process" /\ Process(o)
               \/ o.op = "facts" /\ Facts
Invs == most > 0
StepOK(o) == o.op \in {"active", "process", "facts"} => UNCHANGED <<rate, most, on>>
=============================================================================
