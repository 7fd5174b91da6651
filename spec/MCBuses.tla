------------------------------ MODULE MCBuses ------------------------------
EXTENDS Buses, Json
CONSTANTS MaxDepth
VARIABLES hist
Ops == IF Len(hist) = 0 THEN {[op |-> "builder"]} \cup {[op |-> "template", t |-> t, n |-> 1] : t \in {"sidechain", "generator", "midi", "midside", "dualmono"}}
  ELSE IF Len(hist) = 1 /\ bld = <<>> THEN {[op |-> "builder"]}
  ELSE {[op |-> "with", k |-> 1, d |-> d, ty |-> t, ch |-> ch, n |-> "x"] : d \in {0, 1}, t \in {0, 1}, ch \in {2, 33}}
  \cup {[op |-> "short", k |-> 1, s |-> s, n |-> "y"] : s \in {"sidechain", "out51"}}
  \cup {[op |-> "event", k |-> 1, d |-> d, n |-> "z"] : d \in {0, 1}}
  \cup {[op |-> "bactive", k |-> 1, m |-> m, d |-> 1, i |-> i, b |-> b] : m \in {0, 1}, i \in {0, 1}, b \in {FALSE}}
  \cup {[op |-> "build", k |-> 1]}
  \cup {[op |-> "active", c |-> c, m |-> m, d |-> d, i |-> i, b |-> b] : c \in 1..Len(cfg), m \in {0, 1}, d \in {0, 1}, i \in {0, 1}, b \in BOOLEAN}
  \cup {[op |-> "info", c |-> c, m |-> m, d |-> d, i |-> i] : c \in 1..Len(cfg), m \in {0, 1}, d \in {0, 1}, i \in {-1, 0, 1}}
  \cup {[op |-> n, c |-> c, m |-> m, d |-> d] : n \in {"count", "activelist"}, c \in 1..Len(cfg), m \in {0, 1}, d \in {0, 1}}
  \cup {[op |-> "chans", c |-> c, d |-> d] : c \in 1..Len(cfg), d \in {0, 1}}
  \cup {[op |-> "side", c |-> c] : c \in 1..Len(cfg)}
  \cup {[op |-> "addevent", c |-> c, d |-> 0, n |-> "w"] : c \in 1..Len(cfg)}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<bld, cfg>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
