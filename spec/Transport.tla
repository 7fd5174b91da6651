------------------------------ MODULE Transport -----------------------------
(***************************************************************************)
(* Where in the music a block is, as a plugin asks for it: bars and beats, *)
(* the place within the beat, and how long a beat is.  Positions are in    *)
(* 1/64 of a quarter note, also before the start of the project (count-in).*)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES tr, res
vars == <<tr, res>>
Init == tr = [num |-> 0, den |-> 0, music |-> 0, bar |-> 0, tempo |-> 0, hasm |-> FALSE, hasb |-> FALSE, hass |-> FALSE, hast |-> FALSE] /\ res = <<>>
(* a position in quarter notes, in 1/256 of a beat; x \div y is the floor for y > 0 *)
Beats(q, den) == q * den
Known == tr.hasm /\ tr.hass /\ tr.num > 0 /\ tr.den > 0
Per == 256 * tr.num
Bars == Beats(tr.music, tr.den) \div Per
InBar == Beats(tr.music, tr.den) % Per
(* how far from the last beat, in 1/256 of it *)
Pos == IF tr.hasm /\ tr.hasb THEN Beats(tr.music - tr.bar, IF tr.hass /\ tr.den > 0 THEN tr.den ELSE 4) % 256 ELSE 0
(* samples of a beat at tempo t/4 beats per minute, in 1/64 of a sample *)
Spb(rate, t) == LET n == 240 * rate IN 64 * (n \div t) + ((64 * (n % t)) \div t)
Do(o) ==
  \/ o.op = "set" /\ tr' = o.tr /\ res' = <<>>
  \/ /\ UNCHANGED tr
     /\ \/ o.op = "bars" /\ res' = IF Known THEN <<Bars, InBar>> ELSE <<0, 0>>
        \/ o.op = "pos" /\ res' = <<Pos>>
        (* on a beat is near to one, before or after it *)
        \/ o.op = "on" /\ res' = <<IF Pos < o.thr \/ Pos > 256 - o.thr THEN 1 ELSE 0>>
        \/ o.op = "spb" /\ res' = <<>> /\ (IF tr.hast /\ tr.tempo > 0 THEN o.got - Spb(o.rate, tr.tempo) \in 0..1 ELSE o.got = 0)
Invs == Known => InBar \in 0..(Per - 1) /\ Bars * Per + InBar = Beats(tr.music, tr.den)
StepOK(o) == o.op = "pos" => res'[1] \in 0..255
=============================================================================
