-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Objects that several threads use at once: the event queue, the          *)
(* parameter registries and a parameter's value.                           *)
(*                                                                         *)
(* Each round starts a fresh object and lets a few threads call it.  What  *)
(* the calls returned has to be what they return one after the other, in   *)
(* some order that keeps the order of each thread and, where the calls are *)
(* stamped, puts a call that ended before another began before it.  The    *)
(* steps of that order are the actions below; a round is explained when a  *)
(* path through them takes every call.                                     *)
(***************************************************************************)
EXTENDS Ord
VARIABLES n, res
vars == <<n, res>>
Init == n = 0 /\ res = <<>>

(* ---- the queue: <<id, offset>> in the order of arrival ---- *)
Key(e) == e[2]
Sorted(q) == StableBy(q, Key)
Ids(q) == [i \in 1..Len(q) |-> q[i][1]]
QApply(q, c) ==
  CASE c.f = "add" -> [r |-> <<>>, s |-> Append(q, <<c.a[1], c.a[2]>>)]
    [] c.f = "addm" -> [r |-> <<>>, s |-> Append(Append(q, <<c.a[1], c.a[2]>>), <<c.a[3], c.a[4]>>)]
    [] c.f = "range" -> [r |-> Ids(Sorted(SelectSeq(q, LAMBDA e : c.a[1] <= e[2] /\ e[2] < c.a[2]))), s |-> q]
    [] c.f = "all" -> [r |-> Ids(Sorted(q)), s |-> q]
    [] c.f = "size" -> [r |-> <<Len(q)>>, s |-> q]
    [] c.f = "empty" -> [r |-> <<IF q = <<>> THEN 1 ELSE 0>>, s |-> q]
    [] c.f = "clear" -> [r |-> <<>>, s |-> <<>>]
    [] c.f = "remove" -> [r |-> <<>>, s |-> SelectSeq(q, LAMBDA e : e[2] > c.a[1])]

(* ---- the registry: order of ids, the parameter (a number) at each, the id of each name ---- *)
Known(s, id) == \E i \in 1..Len(s.order) : s.order[i] = id
RECURSIVE Free(_, _)
Free(s, k) == IF Known(s, k) THEN Free(s, k + 1) ELSE k
(* tag of the parameter with an id, 0 for none *)
Tag(s, id) == IF id \in DOMAIN s.par THEN s.par[id] ELSE 0
Put(s, id, tag, name) == [s EXCEPT !.order = Append(@, id), !.par = [x \in DOMAIN @ \union {id} |-> IF x = id THEN tag ELSE @[x]],
                                   !.name = [x \in DOMAIN @ \union {name} |-> IF x = name THEN id ELSE @[x]]]
RApply(s, c) ==
  CASE c.f = "register" -> \* tag, name, wanted id (0: any)
         (IF c.a[2] \in DOMAIN s.name
          THEN LET id == s.name[c.a[2]] IN [r |-> <<id>>, s |-> [s EXCEPT !.par[id] = c.a[1]]]
          ELSE LET k == Free(s, s.next)
                   id == IF c.a[3] = 0 THEN k ELSE c.a[3]
                   t == IF c.a[3] = 0 THEN [s EXCEPT !.next = k + 1] ELSE s IN
               IF Known(s, id) THEN [r |-> <<-1>>, s |-> t] ELSE [r |-> <<id>>, s |-> Put(t, id, c.a[1], c.a[2])])
    [] c.f = "withid" -> \* tag, name, id
         (IF Known(s, c.a[3]) THEN [r |-> <<-1>>, s |-> s]
          ELSE [r |-> <<c.a[3]>>, s |-> Put([s EXCEPT !.next = Max2(@, c.a[3] + 1)], c.a[3], c.a[1], c.a[2])])
    [] c.f = "reserve" -> [r |-> <<s.next>>, s |-> [s EXCEPT !.next = @ + c.a[1]]]
    [] c.f = "add" -> \* tag, -, id: of the plain registry, which keeps the first
         (IF Known(s, c.a[3]) THEN [r |-> <<>>, s |-> s]
          ELSE [r |-> <<>>, s |-> [s EXCEPT !.order = Append(@, c.a[3]), !.par = [x \in DOMAIN @ \union {c.a[3]} |-> IF x = c.a[3] THEN c.a[1] ELSE @[x]]]])
    [] c.f = "get" -> [r |-> <<Tag(s, c.a[1])>>, s |-> s]
    [] c.f = "index" -> [r |-> <<IF c.a[1] \in 0..(Len(s.order) - 1) THEN Tag(s, s.order[c.a[1] + 1]) ELSE 0>>, s |-> s]
    [] c.f = "count" -> [r |-> <<Len(s.order)>>, s |-> s]
    [] c.f = "all" -> [r |-> [i \in 1..Len(s.order) |-> Tag(s, s.order[i])], s |-> s]
    [] c.f = "byname" -> [r |-> <<IF c.a[1] \in DOMAIN s.name THEN Tag(s, s.name[c.a[1]]) ELSE 0>>, s |-> s]
    [] c.f = "id" -> [r |-> <<IF c.a[1] \in DOMAIN s.name THEN s.name[c.a[1]] ELSE -1>>, s |-> s]
    [] c.f = "clear" -> [r |-> <<>>, s |-> [order |-> <<>>, par |-> <<>>, name |-> <<>>, next |-> 0]]

(* ---- a value, in 1/64 ---- *)
VApply(v, c) == CASE c.f = "set" -> [r |-> <<>>, s |-> Clamp(c.a[1], 0, 64)]
                  [] c.f = "get" -> [r |-> <<v>>, s |-> v]

Apply(kind, s, c) == CASE kind = "queue" -> QApply(s, c) [] kind = "registry" -> RApply(s, c) [] kind = "value" -> VApply(s, c)
Start(kind) == CASE kind = "queue" -> <<>> [] kind = "value" -> 0
                 [] kind = "registry" -> [order |-> <<>>, par |-> <<>>, name |-> <<>>, next |-> 0]
Before(o, i, j) == \/ o.calls[i].th = o.calls[j].th /\ i < j
                   \/ o.calls[i].th = 0 /\ o.calls[j].th # 0
                   \/ o.calls[i].ret < o.calls[j].inv
(* some call that nothing left has to come before is the next *)
RECURSIVE Explain(_, _, _)
Explain(o, s, left) ==
  IF left = {} THEN <<TRUE>>
  ELSE <<\E i \in left : /\ \A j \in left : ~Before(o, j, i)
                         /\ LET x == Apply(o.kind, s, o.calls[i]) IN x.r = o.calls[i].r /\ Explain(o, x.s, left \ {i})[1]>>
Do(o) == /\ o.op = "round" /\ Explain(o, Start(o.kind), 1..Len(o.calls))[1] = TRUE
         /\ n' = n + 1 /\ res' = <<Len(o.calls)>>
Invs == n >= 0
StepOK(o) == Len(o.calls) > 0
=============================================================================
