------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* A parameter is what its builder was told, in whatever order: of what is *)
(* said twice the last counts, a default is limited to the range the       *)
(* parameter has in the end.  The builder can be told more after that and  *)
(* build more: what it built before stays as it is.  Numbers are in        *)
(* thousandths.                                                            *)
(***************************************************************************)
EXTENDS Ord
VARIABLES q, made, res
vars == <<q, made, res>>   \* what the builder was told, and the parameters it built
T == INSTANCE Text WITH p <- q, shown <- 0
Init == q = [k |-> ""] /\ made = <<>> /\ res = <<>>
(* flags are sets of the bits the host knows them by *)
Automate == 0
ReadOnly == 1
Hidden == 4
IsBypass == 16
(* d: the default asked for, if set; fmt: how values are shown, "" by default, "own" as the kind of parameter has it *)
New(o) == made' = <<>> /\ q' = IF o.k = "bare" THEN [k |-> o.k, id |-> o.id, name |-> o.name, short |-> o.name, unit |-> "", lo |-> 0, hi |-> 1000, set |-> FALSE, d |-> 0,
                                     steps |-> 0, flags |-> {Automate}, fmt |-> ""]
               ELSE LET m == T!Make(o) IN
                    [k |-> o.k, id |-> o.id, name |-> o.name, short |-> o.name, unit |-> m.unit, lo |-> m.lo, hi |-> m.hi, set |-> TRUE,
                     d |-> IF o.k = "attack" THEN 10000 ELSE IF o.k = "release" THEN 100000 ELSE IF "d" \in DOMAIN o THEN o.d ELSE m.def,
                     steps |-> m.steps, flags |-> IF o.k = "meter" THEN {ReadOnly} ELSE {Automate}, fmt |-> IF o.k = "plain" THEN "" ELSE "own"]
Limit(r, x) == IF r.lo < r.hi THEN Clamp(x, r.lo, r.hi) ELSE r.lo
Default(r) == IF r.set THEN Limit(r, r.d) ELSE r.lo
Say(o) == q' = CASE o.op = "short" -> [q EXCEPT !.short = o.s]
                 [] o.op = "unit" -> [q EXCEPT !.unit = o.s]
                 [] o.op = "range" -> [q EXCEPT !.lo = o.lo, !.hi = o.hi]
                 [] o.op = "default" -> [q EXCEPT !.set = TRUE, !.d = o.d]
                 [] o.op = "steps" -> [q EXCEPT !.steps = o.n]
                 [] o.op = "flags" -> [q EXCEPT !.flags = {o.bits[i] : i \in 1..Len(o.bits)}]
                 [] o.op = "toggle" -> [q EXCEPT !.lo = 0, !.hi = 1000, !.steps = 1, !.set = FALSE]
                 [] o.op = "readonly" -> [q EXCEPT !.flags = (@ \cup {ReadOnly}) \ {Automate}]
                 [] o.op = "hidden" -> [q EXCEPT !.flags = @ \cup {Hidden}]
                 [] o.op = "bypass" -> [q EXCEPT !.flags = @ \cup {IsBypass}]
                 [] o.op = "format" -> [q EXCEPT !.fmt = o.s]
(* a built parameter: v its value *)
Facts(r) == <<r.id, r.name, r.short, r.unit, r.lo, r.hi, Default(r), r.steps, SelectSeq(<<0, 1, 2, 3, 4, 15, 16>>, LAMBDA b : b \in r.flags), r.v>>
(* it has its default as its value *)
Build == made' = Append(made, [x \in DOMAIN q \cup {"v"} |-> IF x = "v" THEN Default(q) ELSE q[x]]) /\ res' = Facts(made'[Len(made')])
(* a value x of the range is shown as text: by a formatter of the user, which marks it, or the common one; and read back as y *)
Show(r, o) == /\ res' = <<>> /\ made' = made /\ r.lo <= o.x /\ o.x <= r.hi
              /\ IF r.fmt = "" THEN /\ \E t \in IF r.steps > 0 THEN T!Num(o.x, 1000, 0, "", "") ELSE T!Num(o.x, 10, 2, "", "") : o.text = t.t /\ Abs(o.y - Limit(r, t.d)) <= 1
                 ELSE o.text = r.fmt \o ToString(o.x) /\ o.y = o.x
              (* what neither of them reads *)
              /\ o.bad
Do(o) ==
  \/ o.op = "new" /\ New(o) /\ res' = <<>>
  \/ /\ q.k # ""
     /\ \/ o.op \in {"short", "unit", "range", "default", "steps", "flags", "toggle", "readonly", "hidden", "bypass", "format"} /\ made' = made /\ Say(o) /\ res' = <<>>
        \/ o.op = "build" /\ q' = q /\ Build
        \/ /\ o.op \in {"show", "set", "reformat", "facts"} /\ q' = q /\ o.i \in DOMAIN made
           /\ \/ o.op = "show" /\ made[o.i].fmt # "own" /\ Show(made[o.i], o)
              \/ o.op = "reformat" /\ made' = [made EXCEPT ![o.i].fmt = o.s] /\ res' = <<>>
              \/ o.op = "set" /\ made' = [made EXCEPT ![o.i].v = Limit(made[o.i], o.x)] /\ res' = <<made'[o.i].v>>
              \/ o.op = "facts" /\ made' = made /\ res' = Facts(made[o.i])
Invs == \A i \in DOMAIN made : LET r == made[i] IN r.lo <= r.hi => Default(r) \in r.lo..r.hi /\ r.v \in r.lo..r.hi
StepOK(o) == o.op # "new" => /\ q'.id = q.id /\ q'.name = q.name /\ Len(made') >= Len(made)
                             /\ \A i \in DOMAIN made : IF "i" \in DOMAIN o THEN o.i = i \/ made'[i] = made[i] ELSE made'[i] = made[i]
=============================================================================
