--------------------------- MODULE MCVoiceAllocator ---------------------------
EXTENDS VoiceAllocator, Json
CONSTANTS NV, Notes, MaxDepth, StartMode, Steals, Extra, MaxAge
VARIABLES hist

OpsPlay == {[op |-> "on", note |-> n, vel |-> v] : n \in Notes, v \in {3}}
      \cup {[op |-> "off", note |-> n] : n \in Notes}
      \cup {[op |-> "end", i |-> i] : i \in 1..NV}
OpsX == (IF "pedal" \in Extra THEN {[op |-> "pedal", on |-> b] : b \in BOOLEAN} ELSE {})
   \cup (IF "age" \in Extra THEN {[op |-> "tick", k |-> 1]} ELSE {})
   \cup (IF "loud" \in Extra THEN {[op |-> "loud", i |-> i, a |-> a] : i \in 1..NV, a \in {1, 2}} ELSE {})
   \cup (IF "max" \in Extra THEN {[op |-> "max", m |-> m] : m \in 1..NV} ELSE {})
   \cup (IF "mode" \in Extra THEN {[op |-> "mode", m |-> m] : m \in {"poly", "mono", "legato", "unison"}} ELSE {})
   \cup (IF "reset" \in Extra THEN {[op |-> "reset"]} ELSE {})
   \cup (IF "midi" \in Extra THEN
           {[op |-> "midi", k |-> "on", a |-> n, b |-> v] : n \in Notes, v \in {0, 5}}
           \cup {[op |-> "midi", k |-> "off", a |-> n, b |-> 0] : n \in Notes}
           \cup {[op |-> "midi", k |-> "cc", a |-> c, b |-> v] : c \in {64, 1}, v \in {0, 63, 64}} ELSE {})

Ops == CASE Len(hist) = 0 -> {[op |-> "new", n |-> NV]}
         [] Len(hist) = 1 -> {[op |-> "mode", m |-> m] : m \in StartMode}
         [] Len(hist) = 2 -> {[op |-> "steal", s |-> s] : s \in Steals}
         [] OTHER -> OpsPlay \cup OpsX

MCInit == Init /\ hist = <<>>
Young == \A i \in 1..N : voices[i].age <= MaxAge
MCNext == Len(hist) < MaxDepth /\ Young /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
(* which steps are still possible depends on the depth only through these *)
View == <<voices, max, mode, steal, last, pedal, sus, cur, IF Len(hist) < 3 THEN Len(hist) ELSE 3>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
EmitLast == Len(hist') = MaxDepth => Emit
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
