------------------------------ MODULE Loudness ------------------------------
(***************************************************************************)
(* The loudness meter after ITU-R BS.1770-4, fed tones whose level in each *)
(* channel changes every 100 ms.                                           *)
(*                                                                         *)
(* Loudness is in 1/65536 decibels, levels of tones in decibels, Off for   *)
(* none.  The momentary loudness is the mean of the last four steps of     *)
(* 100 ms, the short-term one of the last thirty; every step ends a block  *)
(* of 400 ms, and the integrated loudness is the mean of the blocks that   *)
(* pass the gates: -70 LUFS, then 10 below the mean of those that did.     *)
(***************************************************************************)
EXTENDS Fix
VARIABLES p, hops, blocks, res
vars == <<p, hops, blocks, res>>
Init == p = [ch |-> 0] /\ hops = <<>> /\ blocks = <<>> /\ res = <<>>
NegInf == -536870912
Off == -200
Unit == 65536
Tol == 8000
(* weight of a channel, in decibels: left, right, centre, (LFE with six,) surround *)
Weight(c) == IF p.ch > 5 THEN (IF c = 4 THEN NegInf ELSE IF c \in {5, 6} THEN 97778 ELSE 0) ELSE IF p.ch > 2 /\ c >= 4 THEN 97778 ELSE 0
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN NegInf ELSE Max2(s[1], MaxOf(Tail(s)))
(* ten times the logarithm of the sum of the powers s, given in decibels, over n *)
Power(d) == IF d < -60 * Unit THEN 0 ELSE Amp(2 * d, 20)
Total(s, n) == LET m == MaxOf(s) IN
  IF m = NegInf THEN NegInf ELSE m + Db(SumSeq([i \in 1..Len(s) |-> IF s[i] = NegInf THEN 0 ELSE Power(s[i] - m)]) \div n, 20) \div 2
(* the level of a step: a tone of d decibels has half the power of a square, and what the weighting filter makes of it *)
Step1(ds) == Total([c \in 1..p.ch |-> IF ds[c] = Off \/ Weight(c) = NegInf THEN NegInf ELSE ds[c] * Unit + Weight(c) + KDb[p.tone] - 242571], 1)
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Over(s, n) == IF Len(s) < n THEN NegInf ELSE Total(Last(s, n), n)
Gate == -70 * Unit
Clear(s, x) == \A i \in 1..Len(s) : ~Near(s[i], x, 2 * Tol)
Gated(s) == SelectSeq(s, LAMBDA x : x >= Gate)
(* lowest and highest the integrated loudness may be: blocks at the relative gate may be in or out *)
Integrated(s) ==
  LET a == Gated(s) IN
  IF a = <<>> THEN <<NegInf, NegInf>>
  ELSE LET g == Total(a, Len(a)) - 10 * Unit
           surely == SelectSeq(a, LAMBDA x : x >= g + 2 * Tol)
           maybe == SelectSeq(a, LAMBDA x : x >= g - 2 * Tol) IN <<Total(maybe, Len(maybe)), Total(surely, Len(surely))>>
RangeOf(s) ==
  LET a == SortSeq(Gated(s), LAMBDA x, y : x < y)
      n == Len(a) IN IF n < 20 THEN 0 ELSE a[(n * 95) \div 100 + 1] - a[n \div 10 + 1]
Same(g, x) == IF x = NegInf THEN g = NegInf ELSE Near(g, x, Tol)
New(q) == p' = q /\ hops' = <<>> /\ blocks' = <<>> /\ res' = <<>>
Reset == p.ch > 0 /\ hops' = <<>> /\ blocks' = <<>> /\ res' = <<>> /\ UNCHANGED p
(* got: momentary, short-term, integrated loudness, loudness range *)
Tone(ds, g) ==
  LET h == Append(hops, Step1(ds))
      m == Over(h, 4)
      b == IF m = NegInf THEN blocks ELSE Append(blocks, m)
      i == Integrated(b) IN
  /\ p.ch > 0 /\ hops' = h /\ blocks' = b
  /\ Same(g[1], m) /\ Same(g[2], Over(h, 30))
  /\ Clear(b, Gate) => /\ IF i[1] = NegInf THEN g[3] = NegInf ELSE g[3] \in (i[1] - Tol)..(i[2] + Tol)
                       /\ Near(g[4], RangeOf(b), Tol)
  /\ res' = g /\ UNCHANGED p
(* the tone of the left channel alone, long enough for the filter to settle; got as before *)
Steady(d, g) == /\ p.ch > 0 /\ hops = <<>> /\ Near(g[1], d * Unit + KDb[p.tone] - 242571, Tol) /\ res' = g /\ UNCHANGED <<p, hops, blocks>>
(* a constant, after some time, is silence; got as before *)
Constant(g) == /\ p.ch > 0 /\ hops = <<>> /\ g[1] < -90 * Unit /\ res' = g /\ UNCHANGED <<p, hops, blocks>>
Do(o) == CASE o.op = "new" -> New([ch |-> o.ch, tone |-> o.tone])
           [] o.op = "reset" -> Reset
           [] o.op = "tone" -> Tone(o.ds, o.got)
           [] o.op = "steady" -> Steady(o.d, o.got)
           [] o.op = "constant" -> Constant(o.got)
Invs == Len(blocks) <= Len(hops)
StepOK(o) == o.op = "tone" => Len(hops') = Len(hops) + 1
=============================================================================
