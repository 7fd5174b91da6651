-------------------------------- MODULE Gate --------------------------------
(***************************************************************************)
(* The noise gate: closed until the level exceeds the threshold, then its  *)
(* gain rises to one; when the level falls below the threshold less the    *)
(* hysteresis it stays open for the hold time and then falls to the range. *)
(*                                                                         *)
(* Gains and levels are in 1/2^20, decibels in halves, times in tenths of  *)
(* a sample, hold in samples.  cand holds every situation the gate may be  *)
(* in, given what came out; where a level lies within rounding of a        *)
(* threshold there is more than one.                                       *)
(***************************************************************************)
EXTENDS Fix
VARIABLES p, cand, hx, hy, gr, res
vars == <<p, cand, hx, hy, gr, res>>
Init == p = [sr |-> 0] /\ cand = {} /\ hx = 0 /\ hy = 0 /\ gr = 0 /\ res = <<>>
Tol == 4
Shut == Gain[p.range]
Closed(q) == [st |-> "closed", hc |-> 0, tg |-> Gain[q.range], v |-> Gain[q.range], un |-> 1]
New(sr) ==
  /\ p.sr = 0
  /\ p' = [sr |-> sr, thr |-> -80, hyst |-> 10, a |-> sr \div 100, r |-> sr, hold |-> sr \div 100, range |-> -160, hpf |-> 0]
  /\ cand' = {Closed(p')} /\ gr' = Gain[p'.range] /\ hx' = 0 /\ hy' = 0 /\ res' = <<>>
Set(n, x) ==
  /\ p.sr # 0 /\ n \in {"thr", "hyst", "a", "r", "hold", "range"}
  /\ p' = [p EXCEPT ![n] = IF n = "thr" THEN x ELSE IF n = "range" THEN Min2(x, 0) ELSE Max2(x, 0)]
  (* a new range holds at once when closed, and for the release under way *)
  /\ cand' = IF n = "range" THEN {IF c.st = "closed" THEN Closed(p') ELSE IF c.st = "release" THEN [c EXCEPT !.tg = Gain[p'.range]] ELSE c : c \in cand} ELSE cand
  /\ gr' = IF n = "range" /\ \A c \in cand : c.st = "closed" THEN Gain[p'.range] ELSE gr
  /\ res' = <<>> /\ UNCHANGED <<hx, hy>>
Filter(f) ==
  /\ p.sr # 0 /\ (f # 0 => hx = 0 /\ hy = 0)
  /\ p' = [p EXCEPT !.hpf = IF f = 0 THEN 0 ELSE Clamp(f, 20, p.sr \div 2)]
  /\ res' = <<>> /\ UNCHANGED <<cand, hx, hy, gr>>
Reset == p.sr # 0 /\ cand' = {Closed(p)} /\ hx' = 0 /\ hy' = 0 /\ gr' = Shut /\ res' = <<>> /\ UNCHANGED p

Wide == 1038090 \* 0.99
(* is a > b, as far as rounding tells *)
More(a, b, tol) == (IF a > b - tol THEN {TRUE} ELSE {}) \cup (IF a <= b + tol THEN {FALSE} ELSE {})
(* the situations after the level d (known within dt) is seen *)
Moves(c, d, dt) ==
  LET opens == More(d, Gain[p.thr], dt)
      below == More(Gain[p.thr - p.hyst], d, dt)
      stays == More(d, Gain[p.thr - p.hyst], dt)
      wide == More(c.v, Wide, Tol + c.un)
      shut == {~x : x \in More(c.v, c.tg + c.tg \div 100, 2 + c.un)} IN
  IF c.st = "closed" THEN {IF o THEN [c EXCEPT !.st = "attack", !.tg = One] ELSE c : o \in opens}
  ELSE IF c.st = "attack" THEN UNION {{IF w THEN [c EXCEPT !.st = "open"] ELSE IF b THEN [c EXCEPT !.st = "release", !.tg = Shut] ELSE c : b \in below} : w \in wide}
  ELSE IF c.st = "open" THEN {IF b THEN [c EXCEPT !.st = "hold", !.hc = p.hold] ELSE c : b \in below}
  ELSE IF c.st = "hold" THEN {IF s THEN [c EXCEPT !.st = "open"] ELSE IF c.hc > 0 THEN [c EXCEPT !.hc = @ - 1]
                              ELSE [c EXCEPT !.st = "release", !.tg = Shut] : s \in stays}
  ELSE UNION {{IF o THEN [c EXCEPT !.st = "attack", !.tg = One] ELSE IF s THEN [c EXCEPT !.st = "closed"] ELSE c : s \in shut} : o \in opens}
Glide(c) == [c EXCEPT !.v = IF c.v < c.tg THEN (IF p.a = 0 THEN c.tg ELSE Toward(c.tg, c.v, Exp1[p.a]))
                            ELSE IF c.v > c.tg THEN (IF p.r = 0 THEN c.tg ELSE Toward(c.tg, c.v, Exp1[p.r])) ELSE c.v]
(* what is seen of the gain, -1 for nothing *)
Seen(c, y) == IF y < 0 THEN {[c EXCEPT !.un = Min2(@ + 2, 60)]} ELSE IF Near(y, c.v, Tol + c.un) THEN {[c EXCEPT !.v = y, !.un = 0]} ELSE {}
Arrives(c) ==
  IF c.st = "attack" THEN {IF w THEN [c EXCEPT !.st = "open"] ELSE c : w \in More(c.v, Wide, Tol + c.un)}
  ELSE IF c.st = "release" THEN {IF w THEN c ELSE [c EXCEPT !.st = "closed"] : w \in More(c.v, c.tg + c.tg \div 100, 2 + c.un)}
  ELSE {c}
One1(S, d, dt, y) == UNION {UNION {UNION {Arrives(s) : s \in Seen(Glide(m), y)} : m \in Moves(c, d, dt)} : c \in S}
(* the level that is looked at: the sample, or the sample through the side-chain high-pass *)
HpNext(x) == LET a == Hp[p.sr * 100 + p.hpf] IN Mul(x - hx, (One + a) \div 2) + Mul(hy, a)
RECURSIVE Go(_, _, _, _, _, _, _)
Go(S, x1, y1, xs, zs, ys, i) ==
  IF S = {} \/ i > Len(xs) THEN <<S, x1, y1>>
  ELSE LET x == (IF zs = <<>> THEN xs[i] ELSE Max2(Abs(xs[i]), Abs(zs[i]))) * 1024
           a == Hp[p.sr * 100 + p.hpf]
           h == IF p.hpf = 0 THEN x ELSE Mul(x - x1, (One + a) \div 2) + Mul(y1, a) IN
       Go(One1(S, Abs(h), IF p.hpf = 0 THEN 1 ELSE 64, ys[i]), IF p.hpf = 0 THEN x1 ELSE x, IF p.hpf = 0 THEN y1 ELSE h, xs, zs, ys, i + 1)
(* a block: the gains ys that were applied (to both channels), then the state, whether open, and the reported reduction as a factor *)
Process(xs, zs, ys, st, open, red) ==
  /\ p.sr # 0 /\ Len(ys) = Len(xs)
  /\ LET r == Go(cand, hx, hy, xs, zs, ys, 1) IN
     cand' = {c \in r[1] : c.st = st} /\ hx' = r[2] /\ hy' = r[3]
  /\ cand' # {}
  /\ open = (st \in {"open", "hold"})
  /\ IF xs = <<>> THEN Near(red, gr, 2) /\ gr' = gr
     ELSE /\ \E c \in cand' : Near(red, c.v, Tol + c.un) \/ (red = One /\ c.v >= 1036573 - Tol - c.un)
          /\ gr' = red
  /\ res' = <<>> /\ UNCHANGED p
Do(o) ==
  \/ o.op = "new" /\ New(o.sr)
  \/ o.op = "set" /\ Set(o.n, o.x)
  \/ o.op = "filter" /\ Filter(o.f)
  \/ o.op = "reset" /\ Reset
  \/ o.op = "process" /\ Process(o.xs, o.zs, o.y, o.state, o.open, o.red)
Invs == p.sr # 0 => cand # {} /\ \A c \in cand : c.v >= 0 /\ c.v <= One + 2
(* nothing but sound and its own range moves the gain *)
StepOK(o) == o.op \in {"set", "filter"} => (o.op = "set" /\ o.n = "range") \/ cand' = cand
=============================================================================
