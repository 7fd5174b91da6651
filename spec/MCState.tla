------------------------------- MODULE MCState -------------------------------
EXTENDS State, Json
CONSTANTS MaxDepth
VARIABLES hist
B(ver, es, c, fl) == [magic |-> 1, ver |-> ver, count |-> Len(es), entries |-> es, flag |-> fl, custom |-> c]
Foreign == {B(1, <<<<1, 30>>, <<7, 12>>, <<2, 90>>>>, <<>>, 0), B(1, <<<<2, -5>>, <<2, 11>>>>, <<5, 6>>, 1), B(2, <<<<1, 5>>>>, <<>>, 0),
            B(0, <<<<1, 6>>, <<3, 9999>>>>, <<>>, 0), B(1, <<>>, <<1>>, 1),
            [B(1, <<<<1, 7>>>>, <<>>, 0) EXCEPT !.magic = 0], [B(1, <<<<1, 8>>>>, <<>>, 0) EXCEPT !.count = 3],
            [B(1, <<>>, <<>>, 0) EXCEPT !.count = -1]}
Cuts == {13, 26, 41, 42, 43, 44, 1000}
Ops == IF Len(hist) = 0
       THEN {[op |-> "new", a |-> <<<<1, 10>>, <<2, 64>>>>, b |-> <<<<2, 0>>, <<3, 33>>>>, h1 |-> h, h2 |-> g, c |-> <<9, 8>>]
               : h \in {<<"ok", "ok">>, <<"none", "none">>, <<"fail", "fail">>}, g \in {<<"ok", "ok">>, <<"ok", "none">>, <<"none", "ok">>}}
       ELSE {[op |-> "set", p |-> p, id |-> id, x |-> x] : p \in P, id \in {2}, x \in {17}}
       \cup {[op |-> "add", p |-> 1, id |-> 3]}
       \cup {[op |-> "custom", p |-> 2, c |-> c] : c \in {<<>>, <<4>>}}
       \cup {[op |-> "save", p |-> p] : p \in P}
       \cup {[op |-> "savefail", p |-> p, n |-> n] : p \in P, n \in Cuts}
       \cup {[op |-> "load", p |-> p, b |-> b, n |-> n, chunk |-> ch, fails |-> f]
               : p \in {2}, b \in Foreign, n \in {29, 41, 1000}, ch \in {5}, f \in {0, 1}}
       \cup {[op |-> "loadsaved", p |-> p, i |-> i, n |-> n, chunk |-> 5] : p \in P, i \in 1..Len(blobs), n \in Cuts}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < MaxDepth /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, [e |-> o, res |-> res'])
View == <<ids, val, hooks, cust, blobs>>
Emit == PrintT(<<"HIST", ToJson(hist')>>)
Steps == [][StepOK(hist'[Len(hist')].e)]_<<vars, hist>>
=============================================================================
