------------------------------ MODULE MCSamples -----------------------------
EXTENDS Samples, Json
CONSTANTS MaxDepth
VARIABLES hist
Ws == {[a |-> 1, n |-> 2], [a |-> 1, n |-> 3], [a |-> 4, n |-> 1], [a |-> 4, n |-> 3], [a |-> 7, n |-> 0], [a |-> 7, n |-> 2]}
Us == {[a |-> 1, n |-> 3], [a |-> 4, n |-> 2]}
Gs == {0, 8, 16, -16, 32}
Ps == {-16, -8, 0, 8, 16}
Ops == IF hist = <<>> THEN {[op |-> "mem", v |-> <<256, -512, 4096, 0, 8192, -12288, 1024, -4096>>]}
  ELSE {[op |-> n, d |-> d] : n \in {"clear", "peak"}, d \in Ws}
  \cup {[op |-> n, d |-> d, s |-> s, g |-> g] : n \in {"addscaled", "scaleto"}, d \in Ws, s \in Ws, g \in {-16, 8}}
  \cup {[op |-> n, d |-> d, s |-> s] : n \in {"copy", "add"}, d \in Ws, s \in Ws}
  \cup {[op |-> "scale", d |-> d, g |-> g] : d \in Ws, g \in Gs}
  \cup {[op |-> "mix", d |-> d, s |-> s, s2 |-> s2, g |-> g] : d \in Ws, s \in Us, s2 \in Ws, g \in {0, 4, 16}}
  \cup {[op |-> "drywet", d |-> d, s2 |-> s2, g |-> g] : d \in Ws, s2 \in Ws, g \in {0, 4, 16}}
  \cup {[op |-> "clip", d |-> d, lim |-> l] : d \in Ws, l \in {0, 512, 4096}}
  \cup {[op |-> "fade", d |-> d, g |-> 0, h |-> 16] : d \in Ws}
  \cup {[op |-> "sum", ss |-> ss, gs |-> gs, d |-> d] : ss \in {<<>>, <<[a |-> 1, n |-> 3]>>, <<[a |-> 1, n |-> 2], [a |-> 4, n |-> 3], [a |-> 1, n |-> 3]>>},
           gs \in {<<>>, <<8>>, <<16, -16, 8>>}, d \in Ws}
  \cup {[op |-> "pan", s |-> s, p |-> p, d |-> d, d2 |-> d2] : s \in Us, p \in Ps, d \in Ws, d2 \in Ws}
  \cup {[op |-> n, s |-> s, s2 |-> s2, p |-> p, d |-> d, d2 |-> d2] : n \in {"panstereo", "balance"},
           s \in {[a |-> 1, n |-> 2]}, s2 \in {[a |-> 4, n |-> 3]}, p \in Ps, d \in Ws, d2 \in Ws}
  \cup {[op |-> "width", s |-> s, s2 |-> s2, g |-> g, d |-> d, d2 |-> d2] :
           s \in {[a |-> 1, n |-> 2]}, s2 \in {[a |-> 4, n |-> 3]}, g \in {0, 16, 32}, d \in Ws, d2 \in Ws}
MCInit == Init /\ hist = <<>>
Upd(o) == o.op \notin {"mem", "dump", "peak"}
(* every behaviour ends by looking at the whole memory *)
MCNext == \/ Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
          \/ hist # <<>> /\ Upd(hist[Len(hist)].e) /\ Do([op |-> "dump"]) /\ hist' = Append(hist, [e |-> [op |-> "dump"], res |-> res'])
View == <<m, hist # <<>> /\ Upd(hist[Len(hist)].e), IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
Emit == Upd(hist'[Len(hist')].e) \/ PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
