----------------------------- MODULE MCMultiBus -----------------------------
EXTENDS MultiBus, Json
CONSTANTS MaxDepth
VARIABLES hist
B(ty, act, base, nch) == [ch |-> [c \in 1..nch |-> <<base + 10 * c, base + 10 * c + 1>>], ty |-> ty, act |-> act]
InSets == {<<>>, <<B(0, TRUE, 100, 2)>>, <<B(1, FALSE, 200, 1)>>, <<B(1, TRUE, 200, 2), B(0, TRUE, 100, 1)>>,
           <<B(0, TRUE, 100, 2), B(1, FALSE, 200, 2), B(1, TRUE, 300, 1)>>}
OutSets == {<<>>, <<B(0, TRUE, 1100, 2)>>, <<B(1, TRUE, 1200, 3), B(0, FALSE, 1100, 1)>>, <<B(1, FALSE, 1300, 1)>>}
Ops == IF Len(hist) = 0 THEN {[op |-> "new", ins |-> i, outs |-> o] : i \in InSets, o \in OutSets}
  ELSE {[op |-> n, side |-> s] : n \in {"main", "visit"}, s \in {0, 1}}
  \cup {[op |-> n] : n \in {"sidechain", "num", "procmain", "procside", "clear", "pass", "dump"}}
  \cup {[op |-> n, side |-> s, i |-> i] : n \in {"bus", "info"}, s \in {0, 1}, i \in {-1, 0, 1, 3}}
  \cup {[op |-> "active", side |-> s, i |-> i, b |-> b] : s \in {0, 1}, i \in {0, 1}, b \in BOOLEAN}
  \cup {[op |-> "write", i |-> i, c |-> 1, x |-> 7] : i \in {0, 1}}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<ins, outs, started>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
