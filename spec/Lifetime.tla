------------------------------ MODULE Lifetime ------------------------------
(***************************************************************************)
(* The factory of a plugin and the instances made by it: who holds how     *)
(* many references to what, which faces an object has, when it is gone,    *)
(* and that instances have nothing to do with each other.                  *)
(*                                                                         *)
(* Faces are numbered 0 unknown, 1 plugin base, 2 component, 3 audio       *)
(* processor, 4 edit controller, 5 factory, 6 none of these.               *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES plug,   \* what is registered: [there, makes, bad, name, vendor, url, email, uid]
          fac,    \* references to the factory
          objs,   \* instances ever made: [refs, val]
          res
vars == <<plug, fac, objs, res>>
Init == plug = [there |-> FALSE] /\ fac = 0 /\ objs = <<>> /\ res = <<>>
Register(o) == /\ plug' = [there |-> TRUE, none |-> o.none, makes |-> o.makes, name |-> o.name, vendor |-> o.vendor, url |-> o.url, email |-> o.email]
               /\ UNCHANGED <<fac, objs>> /\ res' = <<>>
Factory == fac' = fac + 1 /\ UNCHANGED <<plug, objs>> /\ res' = <<1>>
(* a factory has two faces, and they are one *)
FQi(o) == /\ UNCHANGED <<plug, objs>>
          /\ IF o.face \in {0, 5} THEN res' = <<1, 1>> /\ fac' = fac + 1 ELSE res' = <<0, 0>> /\ UNCHANGED fac
FAddRef == fac' = fac + 1 /\ res' = <<fac'>> /\ UNCHANGED <<plug, objs>>
FRelease == fac' = fac - 1 /\ res' = <<fac'>> /\ UNCHANGED <<plug, objs>>
Cut(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
FInfo == UNCHANGED <<plug, fac, objs>> /\ res' = <<Cut(plug.vendor, 63), Cut(plug.url, 255), Cut(plug.email, 127), 16>>
Count == UNCHANGED <<plug, fac, objs>> /\ res' = <<IF plug.none THEN 0 ELSE 1>>
Class(o) == /\ UNCHANGED <<plug, fac, objs>>
            /\ IF o.i = 0 /\ ~plug.none THEN res' = <<1>> /\ o.got = <<Cut(plug.name, 63), <<65, 117, 100, 105, 111, 32, 77, 111, 100, 117, 108, 101, 32, 67, 108, 97, 115, 115>>, 2147483647, 1>>
               ELSE res' = <<0>>
(* an object comes out with the face that was asked for, or not at all *)
Create(o) ==
  /\ UNCHANGED <<plug, fac>>
  /\ IF o.known /\ ~plug.none /\ plug.makes /\ o.face \in 0..4
     THEN objs' = Append(objs, [refs |-> 1, val |-> 0, on |-> 0]) /\ res' = <<1, 1>>
     ELSE UNCHANGED objs /\ res' = <<0, 0>>
Live(o) == o.k <= Len(objs) /\ objs[o.k].refs > 0
Refs(k, d) == objs' = [objs EXCEPT ![k].refs = @ + d]
(* from any face to any other; the unknown is the same from all of them *)
Qi(o) == /\ UNCHANGED <<plug, fac>>
         /\ IF o.face \in 0..4 THEN Refs(o.k, 1) /\ res' = <<1, 1, 1>> ELSE UNCHANGED objs /\ res' = <<0, 0, 1>>
AddRef(o) == Refs(o.k, 1) /\ res' = <<objs[o.k].refs + 1>> /\ UNCHANGED <<plug, fac>>
Release(o) == Refs(o.k, -1) /\ res' = <<objs[o.k].refs - 1>> /\ UNCHANGED <<plug, fac>>
(* many threads take and give back references *)
Storm(o) == UNCHANGED <<plug, fac, objs>> /\ res' = <<objs[o.k].refs>>
FStorm == UNCHANGED <<plug, fac, objs>> /\ res' = <<fac>>
Set(o) == objs' = [objs EXCEPT ![o.k].val = o.v] /\ res' = <<0>> /\ UNCHANGED <<plug, fac>>
Get(o) == UNCHANGED <<plug, fac, objs>> /\ res' = <<objs[o.k].val>>
(* a plugin that fails is not reported to work *)
Call(o) == /\ UNCHANGED <<plug, fac>>
           /\ IF o.bad = 0 THEN objs' = (IF o.op = "active" THEN [objs EXCEPT ![o.k].on = o.on] ELSE objs) /\ res' = <<0>>
              ELSE res' = <<1>> /\ UNCHANGED objs
Term(o) == UNCHANGED <<plug, fac, objs>> /\ res' = <<0>>
(* objects are there exactly as long as somebody holds them *)
Alive == UNCHANGED <<plug, fac, objs>> /\ res' = [k \in DOMAIN objs |-> IF objs[k].refs > 0 THEN 1 ELSE 0]
Do(o) ==
  \/ o.op = "register" /\ Register(o)
  \/ o.op = "module" /\ UNCHANGED <<plug, fac, objs>> /\ res' = <<1>>
  \/ plug.there /\ o.op = "factory" /\ Factory
  \/ /\ plug.there /\ fac > 0
     /\ \/ o.op = "fqi" /\ FQi(o)
        \/ o.op = "faddref" /\ FAddRef
        \/ o.op = "frelease" /\ FRelease
        \/ o.op = "fstorm" /\ FStorm
        \/ o.op = "finfo" /\ FInfo
        \/ o.op = "count" /\ Count
        \/ o.op = "class" /\ Class(o)
        \/ o.op = "create" /\ Create(o)
  \/ o.op = "alive" /\ Alive
  \/ /\ o.op \in {"qi", "addref", "release", "storm", "set", "get", "init", "active", "setup", "term"}
     /\ IF ~Live(o) THEN UNCHANGED <<plug, fac, objs>> /\ res' = <<9>>
        ELSE \/ o.op = "qi" /\ Qi(o)
             \/ o.op = "addref" /\ AddRef(o)
             \/ o.op = "release" /\ Release(o)
             \/ o.op = "storm" /\ Storm(o)
             \/ o.op = "set" /\ Set(o)
             \/ o.op = "get" /\ Get(o)
             \/ o.op \in {"init", "active", "setup"} /\ Call(o)
             \/ o.op = "term" /\ Term(o)
  \/ o.op \in {"fqi", "faddref", "frelease", "fstorm", "finfo", "count", "class", "create"} /\ fac = 0 /\ UNCHANGED <<plug, fac, objs>> /\ res' = <<9>>
Invs == fac >= 0 /\ \A k \in DOMAIN objs : objs[k].refs >= 0
StepOK(o) ==
  (* what is done to one object changes no other *)
  \A k \in DOMAIN objs : (o.op \notin {"qi", "addref", "release", "storm", "set", "get", "init", "active", "setup", "term"} \/ o.k # k) => objs'[k] = objs[k]
=============================================================================
