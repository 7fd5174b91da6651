------------------------------- MODULE State -------------------------------
(***************************************************************************)
(* Plug-in state: instances with parameters and custom data, saved to and  *)
(* loaded from byte streams that may be cut, fail, or come from another    *)
(* version of the plug-in.                                                 *)
(*                                                                         *)
(* A stream is a sequence of fields; field sizes in bytes are part of the  *)
(* format (sessions saved earlier must load).  Values are in 64ths.        *)
(***************************************************************************)
EXTENDS Ord
VARIABLES ids,     \* instance -> sequence of parameter ids in registration order
          val,     \* instance -> function id -> value
          hooks,   \* instance -> <<custom save, custom load>>, each "none", "ok", "fail"
          cust,    \* instance -> custom data (bytes)
          blobs,   \* saved states, oldest first
          res
vars == <<ids, val, hooks, cust, blobs, res>>
NaN == 9999
P == {1, 2}
Version == 1

Init == /\ ids = [p \in P |-> <<>>] /\ val = [p \in P |-> <<>>] /\ hooks = [p \in P |-> <<>>]
        /\ cust = [p \in P |-> <<>>] /\ blobs = <<>> /\ res = <<>>
Started == hooks[1] # <<>>
Range(s) == {s[i] : i \in 1..Len(s)}
Fn(s) == [x \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = x][2]]
Vals(p, v) == [i \in 1..Len(ids[p]) |-> v[ids[p][i]]]

(* a, b: sequences of <<id, value>> with distinct ids; c: custom data of both *)
New(a, b, h1, h2, c) ==
  /\ ~Started
  /\ ids' = [p \in P |-> LET s == IF p = 1 THEN a ELSE b IN [i \in 1..Len(s) |-> s[i][1]]]
  /\ val' = [p \in P |-> Fn(IF p = 1 THEN a ELSE b)]
  /\ hooks' = <<h1, h2>>
  /\ cust' = [p \in P |-> c]
  /\ UNCHANGED blobs /\ res' = <<>>

Put(f, x, y) == (x :> y) @@ f
AddV(v, p, id) == IF id \in DOMAIN v[p] THEN v ELSE [v EXCEPT ![p] = Put(@, id, 0)]
AddI(i, v, p, id) == IF id \in DOMAIN v[p] THEN i ELSE [i EXCEPT ![p] = Append(@, id)]
SetV(v, p, id, x) == IF id \in DOMAIN v[p] THEN [v EXCEPT ![p][id] = Clamp(x, 0, 64)] ELSE v

Set(p, id, x) == val' = SetV(val, p, id, x) /\ res' = <<>> /\ UNCHANGED <<ids, hooks, cust, blobs>>
Add(p, id) == val' = AddV(val, p, id) /\ ids' = AddI(ids, val, p, id) /\ res' = <<>> /\ UNCHANGED <<hooks, cust, blobs>>
Custom(p, c) == cust' = [cust EXCEPT ![p] = c] /\ res' = <<>> /\ UNCHANGED <<ids, val, hooks, blobs>>

-----------------------------------------------------------------------------
(* the stream an instance writes *)
Blob(p) == [magic |-> 1, ver |-> Version, count |-> Len(ids[p]),
            entries |-> [i \in 1..Len(ids[p]) |-> <<ids[p][i], val[p][ids[p][i]]>>],
            flag |-> IF hooks[p][1] = "none" THEN 0 ELSE 1,
            custom |-> IF hooks[p][1] = "ok" THEN cust[p] ELSE <<>>]
Size(b) == 6 + 4 + 4 + 12 * Len(b.entries) + 4 + Len(b.custom)
Save(p) == LET b == Blob(p) IN
  IF hooks[p][1] = "fail" THEN res' = <<1, <<>>>> /\ UNCHANGED <<ids, val, hooks, cust, blobs>>
  ELSE /\ blobs' = Append(blobs, b) /\ res' = <<0, <<b>>>> /\ UNCHANGED <<ids, val, hooks, cust>>
(* a writer that takes only n bytes: saving must report the failure *)
SaveFail(p, n) ==
  /\ res' = <<IF hooks[p][1] = "fail" \/ n < Size(Blob(p)) THEN 1 ELSE 0>>
  /\ UNCHANGED <<ids, val, hooks, cust, blobs>>

(* a writer that refuses one piece of it and takes the rest *)
SaveGlitch(p, broke) ==
  /\ res' = <<IF hooks[p][1] = "fail" \/ broke THEN 1 ELSE 0>>
  /\ UNCHANGED <<ids, val, hooks, cust, blobs>>

(* loading: nothing is applied unless the parameter list is complete, and the custom
   data, where there is any to be loaded, was taken *)
Loadable(b, n) == LET full == 6 + 4 + 4 + 12 * Max2(b.count, 0) + 4 IN
  b.magic = 1 /\ b.ver <= Version /\ b.count <= Len(b.entries) /\ n >= full
RECURSIVE Apply(_, _)
Apply(v, es) == IF es = <<>> THEN v
  ELSE Apply(IF es[1][1] \in DOMAIN v THEN [v EXCEPT ![es[1][1]] = IF es[1][2] = NaN THEN 0 ELSE Clamp(es[1][2], 0, 64)] ELSE v, Tail(es))
LoadBytes(p, b, n, fails) ==
  LET ok == Loadable(b, n)
      used == IF ok THEN SubSeq(b.entries, 1, Max2(b.count, 0)) ELSE <<>>
      asked == ok /\ b.flag # 0 /\ hooks[p][2] # "none"
      good == hooks[p][2] = "ok" /\ fails = 0
      left == SubSeq(b.custom, 1, Clamp(n - (6 + 4 + 4 + 12 * Len(b.entries) + 4), 0, Len(b.custom))) IN
  /\ val' = IF asked /\ ~good THEN val ELSE [val EXCEPT ![p] = Apply(@, used)]
  /\ cust' = IF asked /\ good THEN [cust EXCEPT ![p] = left] ELSE cust
  /\ res' = <<IF ok /\ ~(asked /\ ~good) THEN 0 ELSE 1, Vals(p, val'[p]), cust'[p]>>
  /\ UNCHANGED <<ids, hooks, blobs>>
(* any stream, of which n bytes arrive, in reads of at most chunk bytes; then the
   end of the stream or a failure *)
Load(p, b, n, chunk, fails) == LoadBytes(p, b, n, fails)
LoadSaved(p, i, n, chunk) == i <= Len(blobs) /\ LoadBytes(p, blobs[i], Min2(n, Size(blobs[i])), 0)
Get(p) == res' = <<Vals(p, val[p]), cust[p]>> /\ UNCHANGED <<ids, val, hooks, cust, blobs>>

-----------------------------------------------------------------------------
(* Saving while other code changes the instance: muts is what happens meanwhile, a
   sequence of <<"set", id, value>> and <<"add", id, 0>>.  The stream still describes
   every parameter registered before, once each, with a value it had at that time;
   those added meanwhile may or may not be in it. *)
Mut(st, p, m) == IF m[1] = "set" THEN [st EXCEPT !.v = SetV(@, p, m[2], m[3])]
                 ELSE [i |-> AddI(st.i, st.v, p, m[2]), v |-> AddV(st.v, p, m[2])]
RECURSIVE Muts(_, _, _)
Muts(st, p, ms) == IF ms = <<>> THEN <<st>> ELSE <<st>> \o Muts(Mut(st, p, Head(ms)), p, Tail(ms))
SaveDuring(p, muts, r) ==
  LET sts == Muts([i |-> ids, v |-> val], p, muts)
      last == sts[Len(sts)]
      b == r[2][1]
      n0 == Len(ids[p])
      had(id) == {sts[k].v[p][id] : k \in {j \in 1..Len(sts) : id \in DOMAIN sts[j].v[p]}} IN
  /\ ids' = last.i /\ val' = last.v
  /\ hooks[p][1] # "fail"
  /\ r[1] = 0 /\ Len(r[2]) = 1
  /\ b.magic = 1 /\ b.ver = Version
  /\ b.count = Len(b.entries)
  /\ b.flag = Blob(p).flag /\ b.custom = Blob(p).custom
  /\ Len(b.entries) >= n0 /\ Len(b.entries) <= Len(last.i[p])
  /\ \A k \in 1..Len(b.entries) : /\ b.entries[k][1] = last.i[p][k]
                                  /\ b.entries[k][2] \in had(b.entries[k][1])
  /\ res' = r /\ blobs' = Append(blobs, b)
  /\ UNCHANGED <<hooks, cust>>

Do(o) ==
  \/ o.op = "new" /\ New(o.a, o.b, o.h1, o.h2, o.c)
  \/ /\ Started
     /\ \/ o.op = "set" /\ Set(o.p, o.id, o.x)
        \/ o.op = "add" /\ Add(o.p, o.id)
        \/ o.op = "custom" /\ Custom(o.p, o.c)
        \/ o.op = "save" /\ Save(o.p)
        \/ o.op = "savefail" /\ SaveFail(o.p, o.n)
        \/ o.op = "saveglitch" /\ SaveGlitch(o.p, o.broke)
        \/ o.op = "load" /\ Load(o.p, o.b, o.n, o.chunk, o.fails)
        \/ o.op = "loadsaved" /\ LoadSaved(o.p, o.i, o.n, o.chunk)
        \/ o.op = "get" /\ Get(o.p)
        \/ o.op = "saveduring" /\ SaveDuring(o.p, o.muts, o.r)

Invs == Started => \A p \in P : /\ Range(ids[p]) = DOMAIN val[p]
                                /\ \A id \in DOMAIN val[p] : val[p][id] \in 0..64
StepOK(o) ==
  (* saving changes nothing *)
  /\ o.op \in {"save", "savefail", "saveglitch", "get"} => UNCHANGED <<ids, val, cust>>
  (* what was saved is what a complete load brings back, for every parameter in both *)
  /\ (o.op = "loadsaved" /\ o.n >= Size(blobs[o.i]) /\ ~(blobs[o.i].flag # 0 /\ hooks[o.p][2] = "fail")) =>
       LET b == blobs[o.i] IN
       /\ \A k \in 1..Len(b.entries) : b.entries[k][1] \in DOMAIN val[o.p] => val'[o.p][b.entries[k][1]] = b.entries[k][2]
       /\ \A id \in DOMAIN val[o.p] : (\A k \in 1..Len(b.entries) : b.entries[k][1] # id) => val'[o.p][id] = val[o.p][id]
       /\ (b.flag = 1 /\ hooks[o.p][2] = "ok") => cust'[o.p] = b.custom
  (* a load that fails changes nothing *)
  /\ (o.op \in {"load", "loadsaved"} /\ res'[1] = 1) => val' = val /\ cust' = cust
  (* the other instance is never touched *)
  /\ o.op # "new" => \A q \in P \ {o.p} : ids'[q] = ids[q] /\ val'[q] = val[q] /\ cust'[q] = cust[q]
=============================================================================
