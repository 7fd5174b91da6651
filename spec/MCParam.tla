------------------------------- MODULE MCParam -------------------------------
EXTENDS Param, Json
CONSTANTS MaxDepth
VARIABLES hist
Ops == IF Len(hist) = 0
       THEN {[op |-> "new", lo |-> l, k |-> kk, d |-> d] : l \in {-64, 0, 5}, kk \in {0, 1, 3}, d \in {-700, 5, 8, 500}}
            \cup {[op |-> "new", lo |-> 5, k |-> -1, d |-> 5]}
       ELSE {[op |-> "setn", x |-> x] : x \in {-1, 0, 1, 32, 64, 65, 1000}}
       \cup {[op |-> "setp", p |-> p] : p \in {lo - 1000, lo, lo + k, lo + 64 * k, lo + 64 * Abs(k) + 7}}
       \cup {[op |-> "setodd", x |-> x, plain |-> pl] : x \in {"inf", "-inf"}, pl \in {0, 1}}
       \cup {[op |-> "norm", p |-> p] : p \in {lo - 1000, lo, lo + 5 * k, lo + 64 * Abs(k) + 1000}}
       \cup {[op |-> "denorm", x |-> x] : x \in {-32, 0, 7, 64, 100}}
       \cup {[op |-> "get"]}
MCInit == Init /\ hist = <<>>
Defaults == Len(hist) = 0 => TRUE
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : (o.op = "new" /\ o.k > 0 => (o.d - o.lo) % o.k = 0 \/ o.d < o.lo \/ o.d > o.lo + 64 * o.k)
            /\ Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<lo, k, v>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
