------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Parameter registries: the plain one (ids given by the plug-in) and the  *)
(* automatic one (ids handed out, names bound to ids).                     *)
(* A parameter object is <<name, tag>>: the tag tells objects apart.       *)
(***************************************************************************)
EXTENDS Ord
VARIABLES kind,     \* "none", "plain", "auto"
          order,    \* ids in registration order
          obj,      \* function id -> <<name, tag>>
          names,    \* function name -> id (auto only)
          next,     \* next id the automatic registry considers
          auto,     \* automatic ids enabled
          res
vars == <<kind, order, obj, names, next, auto, res>>

Init == kind = "none" /\ order = <<>> /\ obj = <<>> /\ names = <<>> /\ next = 0 /\ auto = TRUE /\ res = <<>>
New(k) == /\ kind = "none" /\ kind' = k /\ res' = <<>>
          /\ UNCHANGED <<order, obj, names, next, auto>>

Put(f, x, y) == (x :> y) @@ f
Ids == DOMAIN obj

(* plain registration: the first parameter with an id wins *)
RECURSIVE AddAll(_, _, _)
AddAll(ord, ob, ps) ==
  IF ps = <<>> THEN <<ord, ob>>
  ELSE LET p == Head(ps) IN
       IF p[1] \in DOMAIN ob THEN AddAll(ord, ob, Tail(ps))
       ELSE AddAll(Append(ord, p[1]), Put(ob, p[1], <<p[2], p[3]>>), Tail(ps))
(* ps: sequence of <<id, name, tag>> *)
Add(ps) ==
  LET r == AddAll(order, obj, ps) IN
  /\ order' = r[1] /\ obj' = r[2]
  /\ res' = <<1>>
  /\ UNCHANGED <<kind, names, next, auto>>

(* automatic registration of <<id, name, tag>>; id 0 asks for an automatic id.
   The id handed out is the next one no parameter uses. *)
RECURSIVE FreeFrom(_, _)
FreeFrom(n, used) == IF n \in used THEN FreeFrom(n + 1, used) ELSE n

RECURSIVE RegAll(_, _, _)
(* st = [order, obj, names, next]; out = ids given so far; stops at a conflict *)
RegAll(st, ps, out) ==
  IF ps = <<>> THEN [st |-> st, ok |-> 1, out |-> out]
  ELSE LET p == Head(ps) IN
       IF p[2] \in DOMAIN st.names
       THEN LET id == st.names[p[2]] IN      \* known name: replace, keep the id
            RegAll([st EXCEPT !.obj = Put(@, id, <<p[2], p[3]>>)], Tail(ps), Append(out, id))
       ELSE LET a == auto /\ p[1] = 0
                id == IF a THEN FreeFrom(st.next, DOMAIN st.obj) ELSE p[1]
                nx == IF a THEN id + 1 ELSE st.next IN
            IF id \in DOMAIN st.obj
            THEN [st |-> [st EXCEPT !.next = nx], ok |-> 0, out |-> out]
            ELSE RegAll([order |-> Append(st.order, id), obj |-> Put(st.obj, id, <<p[2], p[3]>>),
                         names |-> Put(st.names, p[2], id), next |-> nx], Tail(ps), Append(out, id))
St == [order |-> order, obj |-> obj, names |-> names, next |-> next]
SetSt(s) == order' = s.order /\ obj' = s.obj /\ names' = s.names /\ next' = s.next
Register(ps) ==
  LET r == RegAll(St, ps, <<>>) IN
  /\ SetSt(r.st) /\ res' = <<r.ok, r.out>>
  /\ UNCHANGED <<kind, auto>>

OneWithID(st, id, p) ==
  IF id \in DOMAIN st.obj THEN [st |-> st, ok |-> 0]
  ELSE [st |-> [order |-> Append(st.order, id), obj |-> Put(st.obj, id, <<p[2], p[3]>>),
                names |-> Put(st.names, p[2], id), next |-> Max2(st.next, id + 1)], ok |-> 1]
RegisterWithID(id, p) ==
  LET r == OneWithID(St, id, p) IN
  /\ SetSt(r.st) /\ res' = <<r.ok>>
  /\ UNCHANGED <<kind, auto>>

(* the builder registers item by item and reports at the end whether all succeeded *)
RECURSIVE BuildAll(_, _, _)
BuildAll(st, items, ok) ==
  IF items = <<>> THEN <<st, ok>>
  ELSE LET it == Head(items)
           r == IF it[4] = 1 THEN OneWithID(st, it[1], <<it[1], it[2], it[3]>>)
                ELSE RegAll(st, <<<<it[1], it[2], it[3]>>>>, <<>>)
       IN BuildAll(r.st, Tail(items), Min2(ok, r.ok))
Build(items) ==
  LET r == BuildAll(St, items, 1) IN
  /\ SetSt(r[1]) /\ res' = <<r[2]>> /\ UNCHANGED <<kind, auto>>

Reserve(n) == res' = <<next>> /\ next' = next + n /\ UNCHANGED <<kind, order, obj, names, auto>>
Enable(b) == auto' = b /\ res' = <<>> /\ UNCHANGED <<kind, order, obj, names, next>>
Clear == order' = <<>> /\ obj' = <<>> /\ names' = <<>> /\ next' = 0 /\ res' = <<>> /\ UNCHANGED <<kind, auto>>

(* queries *)
Q(r) == res' = r /\ UNCHANGED <<kind, order, obj, names, next, auto>>
Entry(id) == <<id, obj[id][1], obj[id][2]>>
Get(id) == Q(IF id \in Ids THEN <<Entry(id)>> ELSE <<>>)
At(i) == Q(IF i >= 0 /\ i < Len(order) THEN <<Entry(order[i + 1])>> ELSE <<>>)
Count == Q(<<Len(order)>>)
All == Q([i \in 1..Len(order) |-> Entry(order[i])])
ByName(n) == Q(IF n \in DOMAIN names THEN <<Entry(names[n])>> ELSE <<>>)
IdOf(n) == Q(IF n \in DOMAIN names THEN <<names[n]>> ELSE <<>>)

Do(o) ==
  \/ o.op = "new" /\ New(o.kind)
  \/ /\ kind # "none"
     /\ \/ o.op = "add" /\ Add(o.ps)
        \/ o.op = "get" /\ Get(o.id)
        \/ o.op = "at" /\ At(o.i)
        \/ o.op = "count" /\ Count
        \/ o.op = "all" /\ All
  \/ /\ kind = "auto"
     /\ \/ o.op = "register" /\ Register(o.ps)
        \/ o.op = "withid" /\ RegisterWithID(o.id, o.p)
        \/ o.op = "build" /\ Build(o.items)
        \/ o.op = "reserve" /\ Reserve(o.n)
        \/ o.op = "enable" /\ Enable(o.b)
        \/ o.op = "clear" /\ Clear
        \/ o.op = "byname" /\ ByName(o.name)
        \/ o.op = "idof" /\ IdOf(o.name)

-----------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
Invs == /\ Range(order) = Ids
        /\ Cardinality(Ids) = Len(order)                       \* ids are unique
        /\ \A n \in DOMAIN names : names[n] \in Ids
(* registered parameters keep their place and id; an automatic id is new and
   outside everything reserved before *)
StepOK(o) ==
  /\ o.op # "clear" => /\ Len(order') >= Len(order)
                       /\ \A i \in 1..Len(order) : order'[i] = order[i]
                       /\ next' >= next
  /\ o.op = "add" => \A id \in Ids : obj'[id] = obj[id]
  /\ (o.op = "register" /\ auto) =>
        \A i \in 1..Len(res'[2]) :
           (o.ps[i][1] = 0 /\ o.ps[i][2] \notin DOMAIN names)
             => res'[2][i] \notin Ids \/ (\E j \in 1..(i - 1) : o.ps[j][2] = o.ps[i][2])
  /\ (o.op = "register" /\ auto /\ (\A i \in 1..Len(o.ps) : o.ps[i][1] = 0)) => res'[1] = 1
=============================================================================
