------------------------------- MODULE Chains -------------------------------
(***************************************************************************)
(* DSP chains: processors, serial chains, parallel chains and stereo       *)
(* chains form a graph; processing a node threads the samples, and the     *)
(* state of every processor, through the graph in the order it was built.  *)
(* The processors themselves are small machines over integers modulo 97:   *)
(*   aff  x -> a*x+b      acc  running sum     del  one sample of delay    *)
(*   fun  as aff, added as a function          swp  exchanges left/right   *)
(***************************************************************************)
EXTENDS Ord
VARIABLES nodes, bld, res
vars == <<nodes, bld, res>>
None == [on |-> FALSE, st |-> FALSE, err |-> FALSE, kids |-> <<>>]
Init == nodes = <<>> /\ bld = None /\ res = <<>>

Node(k, a, b) == [k |-> k, a |-> a, b |-> b, s |-> <<0, 0>>, kids |-> <<>>, byp |-> FALSE]
Group(n) == nodes[n].k \in {"chain", "par"}
Stereo(n) == nodes[n].k \in {"saff", "sacc", "swp", "schain"}
Exists(n) == n \in 1..Len(nodes)

(* one plain processor over one channel: c is the index of its state *)
RECURSIVE Acc(_, _, _)
Acc(s, buf, out) == IF buf = <<>> THEN <<out, s>>
                    ELSE LET x == (s + buf[1]) % 97 IN Acc(x, Tail(buf), Append(out, x))
RECURSIVE Del(_, _, _)
Del(s, buf, out) == IF buf = <<>> THEN <<out, s>> ELSE Del(buf[1] % 97, Tail(buf), Append(out, s))
Aff(a, b, buf) == [i \in 1..Len(buf) |-> (a * buf[i] + b) % 97]
Plain(nd, c, buf) == IF nd.k \in {"aff", "fun", "saff"} THEN <<Aff(nd.a, nd.b, buf), nd.s[c]>>
                     ELSE IF nd.k = "del" THEN Del(nd.s[c], buf, <<>>)
                     ELSE Acc(nd.s[c], buf, <<>>)

(* Run(ns, n, buf) = <<buffer after node n, nodes after it>> *)
RECURSIVE Run(_, _, _)
RECURSIVE RunAll(_, _, _)
RECURSIVE RunPar(_, _, _, _)
RunAll(ns, kids, buf) == IF kids = <<>> THEN <<buf, ns>>
                         ELSE LET r == Run(ns, kids[1][1], buf) IN RunAll(r[2], Tail(kids), r[1])
RunPar(ns, kids, buf, sum) ==
  IF kids = <<>> THEN <<sum, ns>>
  ELSE LET r == Run(ns, kids[1][1], buf) IN
       RunPar(r[2], Tail(kids), buf, [i \in 1..Len(buf) |-> sum[i] + kids[1][2] * r[1][i]])
Run(ns, n, buf) ==
  LET nd == ns[n] IN
  IF nd.k = "chain" THEN (IF nd.byp THEN <<buf, ns>> ELSE RunAll(ns, nd.kids, buf))
  ELSE IF nd.k = "par" THEN (IF nd.byp \/ nd.kids = <<>> THEN <<buf, ns>>
                             ELSE RunPar(ns, nd.kids, buf, [i \in 1..Len(buf) |-> 0]))
  ELSE LET r == Plain(nd, 1, buf) IN <<r[1], [ns EXCEPT ![n].s[1] = r[2]]>>

RECURSIVE Run2(_, _, _, _)
RECURSIVE Run2All(_, _, _, _)
Run2All(ns, kids, l, r) == IF kids = <<>> THEN <<l, r, ns>>
                           ELSE LET x == Run2(ns, kids[1][1], l, r) IN Run2All(x[3], Tail(kids), x[1], x[2])
Run2(ns, n, l, r) ==
  LET nd == ns[n] IN
  IF nd.k = "schain" THEN (IF nd.byp THEN <<l, r, ns>> ELSE Run2All(ns, nd.kids, l, r))
  ELSE IF nd.k = "swp" THEN <<r, l, ns>>
  ELSE LET x == Plain(nd, 1, l)
           y == Plain(nd, 2, r) IN <<x[1], y[1], [ns EXCEPT ![n].s = <<x[2], y[2]>>]>>

RECURSIVE Rst(_, _)
RECURSIVE RstAll(_, _)
RstAll(ns, kids) == IF kids = <<>> THEN ns ELSE RstAll(Rst(ns, kids[1][1]), Tail(kids))
Rst(ns, n) == IF ns[n].k \in {"chain", "par", "schain"} THEN RstAll(ns, ns[n].kids)
              ELSE [ns EXCEPT ![n].s = <<0, 0>>]

New(k, a, b) == nodes' = Append(nodes, Node(k, a, b)) /\ res' = <<>> /\ UNCHANGED bld
(* children are older than their group, so the graph has no cycles *)
AddKid(c, n, g) ==
  /\ Exists(c) /\ Exists(n) /\ n < c /\ nodes[c].k \in {"chain", "par", "schain"}
  /\ Stereo(n) <=> nodes[c].k = "schain"
  /\ nodes' = [nodes EXCEPT ![c].kids = Append(@, <<n, g>>)] /\ res' = <<>> /\ UNCHANGED bld
Process(n, buf) == /\ Exists(n) /\ ~Stereo(n)
                   /\ LET r == Run(nodes, n, buf) IN nodes' = r[2] /\ res' = r[1]
                   /\ UNCHANGED bld
Process2(n, l, r) == /\ Exists(n) /\ Stereo(n)
                     /\ LET x == Run2(nodes, n, l, r) IN nodes' = x[3] /\ res' = <<x[1], x[2]>>
                     /\ UNCHANGED bld
Reset(n) == Exists(n) /\ nodes' = Rst(nodes, n) /\ res' = <<>> /\ UNCHANGED bld
Bypass(n, b) == /\ Exists(n) /\ nodes[n].k \in {"chain", "par", "schain"}
                /\ nodes' = [nodes EXCEPT ![n].byp = b] /\ res' = <<>> /\ UNCHANGED bld
Count(n) == /\ Exists(n) /\ nodes[n].k = "chain"
            /\ res' = <<Len(nodes[n].kids), nodes[n].kids = <<>>>> /\ UNCHANGED <<nodes, bld>>

(* builders: any mistake makes the build fail; nothing built is an error too.  *)
(* A builder may go on after a build: what it built before stays as it is    *)
BNew(st) == bld' = [None EXCEPT !.on = TRUE, !.st = st] /\ res' = <<>> /\ UNCHANGED nodes
BWith(n) == /\ bld.on /\ (n = 0 \/ (Exists(n) /\ Stereo(n) = bld.st))
            /\ bld' = IF n = 0 THEN [bld EXCEPT !.err = TRUE] ELSE [bld EXCEPT !.kids = Append(@, <<n, 1>>)]
            /\ res' = <<>> /\ UNCHANGED nodes
(* a function given to a builder or a chain becomes a node of its own *)
BFunc(nil, a, b) == /\ bld.on /\ ~bld.st
                    /\ IF nil THEN bld' = [bld EXCEPT !.err = TRUE] /\ UNCHANGED nodes
                       ELSE nodes' = Append(nodes, Node("fun", a, b)) /\ bld' = [bld EXCEPT !.kids = Append(@, <<Len(nodes) + 1, 1>>)]
                    /\ res' = <<>>
Build == /\ bld.on
         /\ LET ok == ~bld.err /\ bld.kids # <<>> IN
            /\ res' = <<ok>>
            /\ nodes' = IF ok THEN Append(nodes, [Node(IF bld.st THEN "schain" ELSE "chain", 0, 0) EXCEPT !.kids = bld.kids]) ELSE nodes
         /\ UNCHANGED bld
(* adding a function creates its node after the group: only groups refer to it *)
AddFunc(c, a, b) == /\ Exists(c) /\ nodes[c].k = "chain"
                    /\ nodes' = Append([nodes EXCEPT ![c].kids = Append(@, <<Len(nodes) + 1, 1>>)], Node("fun", a, b))
                    /\ res' = <<>> /\ UNCHANGED bld

Do(o) ==
  \/ o.op = "new" /\ New(o.k, o.a, o.b)
  \/ o.op = "add" /\ AddKid(o.c, o.n, o.g)
  \/ o.op = "addfunc" /\ AddFunc(o.c, o.a, o.b)
  \/ o.op = "process" /\ Process(o.n, o.buf)
  \/ o.op = "process2" /\ Process2(o.n, o.l, o.r)
  \/ o.op = "reset" /\ Reset(o.n)
  \/ o.op = "bypass" /\ Bypass(o.n, o.b)
  \/ o.op = "count" /\ Count(o.n)
  \/ o.op = "bnew" /\ BNew(o.st)
  \/ o.op = "bwith" /\ BWith(o.n)
  \/ o.op = "bfunc" /\ BFunc(o.nil, o.a, o.b)
  \/ o.op = "build" /\ Build

Invs == \A n \in 1..Len(nodes) : \A i \in 1..Len(nodes[n].kids) :
          nodes[n].kids[i][1] # n /\ (Stereo(nodes[n].kids[i][1]) <=> nodes[n].k = "schain")
StepOK(o) ==
  /\ o.op = "process" => Len(res') = Len(o.buf)
  (* a bypassed or empty group passes the samples through and leaves all state alone *)
  /\ o.op = "process" /\ Group(o.n) /\ (nodes[o.n].byp \/ nodes[o.n].kids = <<>>) => res' = o.buf /\ nodes' = nodes
  /\ o.op = "process2" /\ nodes[o.n].k = "schain" /\ (nodes[o.n].byp \/ nodes[o.n].kids = <<>>)
       => res' = <<o.l, o.r>> /\ nodes' = nodes
  (* processing never changes the graph *)
  /\ o.op \in {"process", "process2", "reset"} => \A n \in 1..Len(nodes) :
        nodes'[n].kids = nodes[n].kids /\ nodes'[n].byp = nodes[n].byp
  (* nor do builders change what was built before *)
  /\ o.op \in {"bwith", "bfunc", "build", "bnew"} => \A n \in 1..Len(nodes) : nodes'[n] = nodes[n]
  /\ o.op = "build" /\ bld.err => res' = <<FALSE>> /\ nodes' = nodes
=============================================================================
