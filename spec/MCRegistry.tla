----------------------------- MODULE MCRegistry -----------------------------
EXTENDS Registry, Json
CONSTANTS MaxDepth, Kind
VARIABLES hist
T == 10 * Len(hist)     \* fresh tags
PlainOps == {[op |-> "add", ps |-> <<<<id, "a", T>>>>] : id \in {0, 1, 2, 7}}
       \cup {[op |-> "add", ps |-> <<<<1, "b", T>>, <<3, "b", T + 1>>, <<1, "c", T + 2>>>>], [op |-> "add", ps |-> <<>>]}
       \cup {[op |-> "get", id |-> id] : id \in {0, 1, 3, 9}}
       \cup {[op |-> "at", i |-> i] : i \in {-1, 0, 1, 3}}
       \cup {[op |-> "count"], [op |-> "all"]}
AutoOps == {[op |-> "register", ps |-> <<<<id, n, T>>>>] : id \in {0, 2}, n \in {"a", "b", "c"}}
      \cup {[op |-> "register", ps |-> <<<<0, "a", T>>, <<1, "b", T + 1>>, <<0, "d", T + 2>>>>]}
      \cup {[op |-> "withid", id |-> id, p |-> <<(id + 2) % 5, n, T>>] : id \in {0, 1, 3}, n \in {"a", "d"}}
      \cup {[op |-> "build", items |-> <<<<0, "e", T, 0>>, <<1, "f", T + 1, 1>>>>]}
      \cup {[op |-> "reserve", n |-> n] : n \in {0, 2}}
      \cup {[op |-> "enable", b |-> b] : b \in BOOLEAN}
      \cup {[op |-> "clear"], [op |-> "all"], [op |-> "add", ps |-> <<<<1, "z", T>>>>]}
      \cup {[op |-> n, name |-> x] : n \in {"byname", "idof"}, x \in {"a", "z"}}
Ops == IF Len(hist) = 0 THEN {[op |-> "new", kind |-> Kind]} ELSE IF Kind = "plain" THEN PlainOps ELSE AutoOps
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
(* tags follow the depth, so the shape without tags identifies a state *)
View == <<kind, order, [i \in Ids |-> obj[i][1]], names, next, auto>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
