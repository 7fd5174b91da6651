----------------------------- MODULE Controller -----------------------------
(***************************************************************************)
(* What a plugin tells its host about itself: its parameters and buses,    *)
(* the text of a value and the value of a text, normalised and plain.      *)
(*                                                                         *)
(* Texts are sequences of characters (Unicode scalar values) on the        *)
(* plugin's side and sequences of 16-bit units (UTF-16) on the host's, in  *)
(* fields of 128 units of which the last is a zero; too long a text is cut *)
(* between characters. Normalised values are in 1/64; a parameter's plain  *)
(* range starts at a whole number and is 64 times a whole number wide.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES p, res
vars == <<p, res>>
Init == p = [made |-> FALSE] /\ res = <<>>

Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
RECURSIVE Utf16(_, _)
Utf16(s, room) == IF s = <<>> \/ Len(Units(Head(s))) > room THEN <<>>
                  ELSE Units(Head(s)) \o Utf16(Tail(s), room - Len(Units(Head(s))))
Field(s) == Utf16(s, 127)
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343
(* half a pair stands for nothing: the replacement character *)
RECURSIVE Chars(_)
Chars(u) == IF u = <<>> THEN <<>>
            ELSE IF High(Head(u)) /\ Len(u) > 1 /\ Low(u[2])
                 THEN <<65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)>> \o Chars(SubSeq(u, 3, Len(u)))
                 ELSE <<IF High(Head(u)) \/ Low(Head(u)) THEN 65533 ELSE Head(u)>> \o Chars(Tail(u))
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE (IF n >= 10 THEN Digits(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>
RECURSIVE Num(_, _)
Num(s, v) == IF s = <<>> THEN v ELSE Num(Tail(s), 10 * v + Head(s) - 48)
IsNum(s) == LET d == IF s # <<>> /\ Head(s) = 45 THEN Tail(s) ELSE s IN d # <<>> /\ Len(d) < 7 /\ \A i \in 1..Len(d) : d[i] \in 48..57
Number(s) == IF Head(s) = 45 THEN -Num(Tail(s), 0) ELSE Num(s, 0)
Clip(v) == IF v < 0 THEN 0 ELSE IF v > 64 THEN 64 ELSE v
Default(x) == Clip((x.def - x.min) \div x.w)

Create(o) == ~p.made /\ p' = [made |-> TRUE, pars |-> o.pars, buses |-> o.buses, val |-> [k \in DOMAIN o.pars |-> Default(o.pars[k])]] /\ res' = <<1>>
At(id) == {k \in DOMAIN p.pars : p.pars[k].id = id}
The(id) == CHOOSE k \in At(id) : TRUE
Info(o) ==
  IF o.i < 0 \/ o.i >= Len(p.pars) THEN res' = <<1>>
  ELSE LET x == p.pars[o.i + 1] IN
       /\ res' = <<0>>
       /\ o.got = [id |-> x.id, title |-> Field(x.title), short |-> Field(x.short), units |-> Field(x.units),
                   steps |-> x.steps, def |-> Default(x), unit |-> x.unit, flags |-> x.flags]
(* a value as text: the mark of the parameter and the plain value *)
Text(o) ==
  IF At(o.id) = {} THEN res' = <<1>>
  ELSE LET x == p.pars[The(o.id)] IN res' = <<0>> /\ o.got = Field(x.mark \o Digits(x.min + o.v * x.w))
(* and back *)
Parse(o) ==
  IF At(o.id) = {} THEN res' = <<1>>
  ELSE LET x == p.pars[The(o.id)]
           s == Chars(o.text)
           n == Len(x.mark)
           r == SubSeq(s, n + 1, Len(s)) IN
       IF Len(s) >= n /\ SubSeq(s, 1, n) = x.mark /\ IsNum(r)
       THEN res' = <<0>> /\ o.got = Clip((Number(r) - x.min) \div x.w)
       ELSE res' = <<1>>
Plain(o) == res' = <<IF At(o.id) = {} THEN o.v ELSE 64 * (p.pars[The(o.id)].min + o.v * p.pars[The(o.id)].w)>>
Norm(o) == res' = <<IF At(o.id) = {} THEN o.v ELSE (o.v - 64 * p.pars[The(o.id)].min) \div (64 * p.pars[The(o.id)].w)>>
Get(o) == res' = <<IF At(o.id) = {} THEN 0 ELSE p.val[The(o.id)]>>
Set(o) == /\ res' = <<IF At(o.id) = {} THEN 1 ELSE 0>>
          /\ p' = IF At(o.id) = {} THEN p ELSE [p EXCEPT !.val[The(o.id)] = Clip(o.v)]

(* buses: media 0 is audio and 1 events, direction 0 in and 1 out *)
Of(media, dir) == SelectSeq(p.buses, LAMBDA b : b.media = media /\ b.dir = dir)
BusInfo(o) ==
  LET l == Of(o.media, o.dir) IN
  IF o.i < 0 \/ o.i >= Len(l) THEN res' = <<1>>
  ELSE LET b == l[o.i + 1] IN
       res' = <<0>> /\ o.got = [media |-> b.media, dir |-> b.dir, chans |-> b.chans, name |-> Field(b.name), type |-> b.type, flags |-> b.active]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* as many speakers as the bus has channels; a single one is a mono one (bit 19), two are left and right *)
Arrangement(o) ==
  LET l == Of(0, o.dir) IN
  IF o.i < 0 \/ o.i >= Len(l) THEN res' = <<1>>
  ELSE LET n == l[o.i + 1].chans IN
       /\ res' = <<0>>
       /\ Len(o.got) = n
       /\ n = 1 => o.got = <<19>>
       /\ n = 2 => o.got = <<0, 1>>
(* the host is told of edits the plugin makes; those it makes itself it knows *)
Told == res' = <<0>>
(* what else a host asks while it sets a plugin up; 32-bit samples only, no view, no routing, and there is nothing of these it may not ask *)
Host(o) == res' = <<CASE o.what = "size" -> IF o.k % 2 = 0 THEN 0 ELSE 1
                      [] o.what = "routing" -> 3
                      [] OTHER -> 0>>
Do(o) ==
  \/ o.op = "create" /\ Create(o)
  \/ p.made /\ \/ o.op = "count" /\ UNCHANGED p /\ res' = <<Len(p.pars)>>
               \/ o.op = "info" /\ UNCHANGED p /\ Info(o)
               \/ o.op = "text" /\ UNCHANGED p /\ Text(o)
               \/ o.op = "parse" /\ UNCHANGED p /\ Parse(o)
               \/ o.op = "plain" /\ UNCHANGED p /\ Plain(o)
               \/ o.op = "norm" /\ UNCHANGED p /\ Norm(o)
               \/ o.op = "get" /\ UNCHANGED p /\ Get(o)
               \/ o.op = "set" /\ Set(o)
               \/ o.op = "buses" /\ UNCHANGED p /\ res' = <<Len(Of(o.media, o.dir))>>
               \/ o.op = "businfo" /\ UNCHANGED p /\ BusInfo(o)
               \/ o.op = "arrangement" /\ UNCHANGED p /\ Arrangement(o)
               \/ o.op = "handler" /\ UNCHANGED p /\ res' = <<0>>
               \/ o.op = "told" /\ UNCHANGED p /\ Told
               \/ o.op = "host" /\ UNCHANGED p /\ Host(o)
               \/ o.op = "arrange" /\ UNCHANGED p /\ res' = <<0>>
Invs == p.made => \A k \in DOMAIN p.val : p.val[k] \in 0..64
StepOK(o) == o.op \notin {"create", "set"} => p' = p
=============================================================================
