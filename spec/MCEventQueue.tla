--------------------------- MODULE MCEventQueue ---------------------------
EXTENDS EventQueue, Json
CONSTANTS MaxLen, MaxDepth, Kinds, Offs
VARIABLES hist

NextId == Len(SelectSeq(hist, LAMBDA h : h.e.op = "add"))
          + 2 * Len(SelectSeq(hist, LAMBDA h : h.e.op = "addmany"))
NewId == NextId + 1

Adds == {[op |-> "add", ev |-> <<k, NewId, f>>] : k \in Kinds, f \in Offs}
  \cup {[op |-> "addmany", evs |-> <<<<1, NewId, f>>, <<3, NewId + 1, g>>>>] : f \in Offs, g \in {0, 1}}
Ops == (IF Len(queue) < MaxLen THEN Adds ELSE {})
  \cup {[op |-> n, a |-> a, b |-> b] : n \in {"range"}, a \in {0, 1}, b \in {1, 2, 3}}
  \cup {[op |-> "all"], [op |-> "size"], [op |-> "clear"], [op |-> "process", a |-> 0, b |-> 2]}
  \cup {[op |-> "remove", u |-> u] : u \in {0, 1}}
  \cup {[op |-> "shift", d |-> d] : d \in {-1, 2}}

MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<queue, NextId>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
EmitLast == Len(hist') = MaxDepth => Emit
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
