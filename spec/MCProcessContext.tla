--------------------------- MODULE MCProcessContext ---------------------------
EXTENDS ProcessContext, Json
CONSTANTS MaxDepth, Focus, Chans, MaxQ
VARIABLES hist

Buf(b, n) == [i \in 1..n |-> b + i]
ParOps == {[op |-> "addchange", id |-> id, v |-> v, o |-> f] : id \in {1, 2, 9}, v \in {16, 70}, f \in {0, 1}}
    \cup {[op |-> n] : n \in {"sort", "changes", "haschanges", "resetchanges", "applyqueued"}}
    \cup {[op |-> "apply", id |-> id, v |-> 32] : id \in {1, 9}}
    \cup {[op |-> "value", id |-> id] : id \in {1, 2, 9}}
NextEv == 1 + Len(inq) + Len(outq)
EvOps == (IF Len(inq) + Len(outq) < MaxQ
          THEN {[op |-> n, ev |-> <<k, NextEv, f>>] : n \in {"evin", "evout"}, k \in {0, 2}, f \in {0, 1, 2, 3}} ELSE {})
    \cup {[op |-> n] : n \in {"allin", "hasin", "getout", "clearin", "clearout", "clearev"}}
    \cup {[op |-> "getin", a |-> 0, b |-> 2], [op |-> "procev", a |-> 1, b |-> 3]}
BufOps == {[op |-> n] : n \in {"sizes", "scratch", "pass", "copyio", "channels", "stereo", "mono", "samples", "clearbuf"}}
    \cup {[op |-> "separate", k |-> k] : k \in 0..3}
Blocks == {[op |-> "block", ins |-> [c \in 1..ci |-> Buf(100 * c, n)], outs |-> [c \in 1..co |-> Buf(50 * c, n)], share |-> [c \in 1..co |-> IF c <= ci THEN (sh \div c) % 2 ELSE 0]]
            : ci \in 0..Chans, co \in 0..Chans, n \in {0, 1, 2}, sh \in 0..3}
Ops == CASE Len(hist) = 0 -> {[op |-> "new", n |-> 3, ids |-> <<1, 2>>]}
         [] Len(hist) > 0 /\ Focus = "params" -> ParOps
         [] Len(hist) = 1 /\ Focus = "events" -> {[op |-> "block", ins |-> <<>>, outs |-> <<<<0, 0, 0>>>>, share |-> <<0>>]}
         [] Len(hist) > 1 /\ Focus = "events" -> EvOps
         [] OTHER -> Blocks \cup BufOps
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ Len(chg) <= MaxQ /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<cap, pids, val, ins, outs, inpl, chg, inq, outq, IF Len(hist) < 2 THEN Len(hist) ELSE 2>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
EmitLast == Len(hist') = MaxDepth => Emit
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
