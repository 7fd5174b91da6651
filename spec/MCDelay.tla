------------------------------- MODULE MCDelay -------------------------------
EXTENDS Delay, Json
CONSTANTS MaxDepth, MCKinds
VARIABLES hist
U == 65536
Ds == {4, 6, 8, 4 * size}
Xs == {U, 3 * U}
Ops == IF hist = <<>> THEN {[op |-> "new", k |-> k, max |-> m, rate |-> r, n |-> 2] : k \in MCKinds, m \in {1, 2}, r \in {2}}
  ELSE {[op |-> "process", x |-> x, d |-> d] : x \in Xs, d \in Ds}
  \cup {[op |-> "block", xs |-> xs, d |-> d] : xs \in {<<U, 2 * U, 5 * U>>}, d \in Ds}
  \cup {[op |-> "mix", xs |-> <<U, 2 * U>>, d |-> d, g |-> g] : d \in Ds, g \in {0, 2, 4}}
  \cup {[op |-> "write", x |-> 7 * U]} \cup {[op |-> "read", d |-> d] : d \in Ds}
  \cup {[op |-> "fb", g |-> g] : g \in {0, 4, -2}} \cup {[op |-> "damp", g |-> g] : g \in {0, 4}}
  \cup {[op |-> "reset"]} \cup {[op |-> "center", d |-> d] : d \in Ds} \cup {[op |-> "mod", xs |-> <<U, 2 * U>>]}
  \cup {[op |-> "taps", x |-> 3 * U, ts |-> ts] : ts \in {<<>>, <<[d |-> 4, g |-> 4, p |-> -1]>>,
         <<[d |-> 4 * size, g |-> 2, p |-> 1], [d |-> 4, g |-> 4, p |-> 1], [d |-> 4, g |-> 4, p |-> -1]>>}}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<kind, size, rate, mem, fb, damp, dval, center, taps>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
