-------------------- MODULE TraceBuilder --------------------
(* Validates histories recorded from the code: t is the history, l the next  *)
(* step.  A step the specification does not allow leaves the state without a *)
(* successor, which TLC reports as a deadlock.                               *)
EXTENDS Builder, Json, IOUtils
VARIABLES t, l
H == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ t \in 1..Len(H) /\ l = 1
Step == l <= Len(H[t]) /\ Do(H[t][l].e) /\ res' = H[t][l].res /\ l' = l + 1 /\ t' = t
Done == l > Len(H[t]) /\ UNCHANGED <<vars, t, l>>
TraceNext == Step \/ Done
Steps == [][l' # l => StepOK(H[t][l].e)]_<<vars, t, l>>
=============================================================================
