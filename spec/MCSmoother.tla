----------------------------- MODULE MCSmoother -----------------------------
EXTENDS Smoother, Json
CONSTANTS MaxDepth, What
VARIABLES hist
New1(i, kind, rate, bare) == [op |-> "new", i |-> i, kind |-> kind, rate |-> rate, lo |-> -2, k |-> 1, v |-> 16, bare |-> bare]
BareOps == {[op |-> "target", i |-> 1, x |-> x] : x \in {0, 8 * U, -4 * U}}
      \cup {[op |-> "reset", i |-> 1, x |-> x] : x \in {0, 4 * U}}
      \cup {[op |-> "next", i |-> 1, y |-> 0], [op |-> "process", i |-> 1, n |-> 3, ys |-> <<>>], [op |-> "thr", i |-> 1, x |-> 2 * U]}
      \cup {[op |-> "rate", i |-> 1, r |-> r] : r \in IF 1 \in DOMAIN sm THEN (IF sm[1].kind = "exp" THEN {0, 32} ELSE {0, 2}) ELSE {}}
ParOps == {[op |-> "setv", i |-> i, x |-> x] : i \in {1, 2, 9}, x \in {0, 32, 70}}
     \cup {[op |-> "setp", i |-> i, p |-> p] : i \in {1}, p \in {-5, 30}}
     \cup {[op |-> "get", i |-> i, y |-> 0] : i \in {1, 2, 9}}
     \cup {[op |-> "enable", i |-> i, b |-> b] : i \in {1, 9}, b \in BOOLEAN}
     \cup {[op |-> "all"], [op |-> "value", i |-> 1]}
Ops == IF What = "bare"
       THEN IF Len(hist) = 0 THEN {New1(1, "lin", r, TRUE) : r \in {0, 1, 4}} \cup {New1(1, "exp", r, TRUE) : r \in {0, 32}} ELSE BareOps
       ELSE IF Len(hist) = 0 THEN {New1(1, "lin", 4, FALSE), New1(1, "exp", 32, FALSE)}
       ELSE IF Len(hist) = 1 THEN {New1(2, "lin", 2, FALSE)} ELSE ParOps
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == sm
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
