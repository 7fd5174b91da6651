------------------------------ MODULE MCChains ------------------------------
EXTENDS Chains, Json
CONSTANTS MaxDepth, MaxNodes, Kinds, StereoMode
VARIABLES hist
L == Len(nodes)
Groups == {n \in 1..L : nodes[n].k \in {"chain", "par", "schain"}}
Bufs == {<<1, 5>>, <<>>}
Ops == (IF L < MaxNodes THEN {[op |-> "new", k |-> k, a |-> 2, b |-> 1] : k \in Kinds} ELSE {})
  \cup {[op |-> "add", c |-> c, n |-> n, g |-> g] : c \in Groups, n \in 1..L, g \in (IF StereoMode THEN {1} ELSE {1, 2})}
  \cup {[op |-> "reset", n |-> n] : n \in Groups}
  \cup {[op |-> "bypass", n |-> n, b |-> b] : n \in Groups, b \in BOOLEAN}
  \cup {[op |-> "bnew", st |-> StereoMode]} \cup {[op |-> "bwith", n |-> n] : n \in 0..L} \cup {[op |-> "build"]}
  \cup (IF StereoMode THEN {[op |-> "process2", n |-> n, l |-> <<1, 2>>, r |-> <<5, 6>>] : n \in 1..L}
        ELSE {[op |-> "process", n |-> n, buf |-> b] : n \in 1..L, b \in {<<1, 5>>}}
          \cup {[op |-> "count", n |-> n] : n \in Groups}
          \cup (IF L < MaxNodes THEN {[op |-> "addfunc", c |-> c, a |-> 3, b |-> 0] : c \in Groups} ELSE {})
          \cup {[op |-> "bfunc", nil |-> x, a |-> 3, b |-> 1] : x \in (IF L < MaxNodes THEN BOOLEAN ELSE {TRUE})})
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<nodes, bld>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
