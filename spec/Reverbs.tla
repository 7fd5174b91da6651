------------------------------ MODULE Reverbs ------------------------------
(***************************************************************************)
(* The reverbs and what they are made of: comb and all-pass filters with   *)
(* damping, Schroeder's network, Freeverb and the feedback delay network.  *)
(* Samples and settings are in 1/2^20.  A line [h, d] gives what was       *)
(* written to it d samples ago; h has the newest first.                    *)
(***************************************************************************)
EXTENDS Fix
VARIABLES s, res
vars == <<s, res>>
Init == s = [k |-> ""] /\ res = <<>>
Half == One \div 2
Unit(x) == Clamp(x, 0, One)
At(h, i) == IF i < Len(h) THEN h[i + 1] ELSE 0
Line(d) == [h |-> <<>>, d |-> d, z |-> 0]
Put(l, x) == [l EXCEPT !.h = <<x>> \o SubSeq(@, 1, Min2(Len(@), l.d + 6))]
Old(l) == At(l.h, l.d - 1)
Empty(l) == [l EXCEPT !.h = <<>>, !.z = 0]
\* a comb feeds its output back, damped by a one-pole low-pass with memory z
Damp(x) == Clamp(x, 0, 1038090)
Comb(l, x, fb, damp) == LET z == Mul(Old(l), One - damp) + Mul(l.z, damp) IN [Put(l, x + Mul(z, fb)) EXCEPT !.z = z]
(* an all-pass line gives - x and what it held *)
Pass(l, x, fb) == Put(l, x + Mul(Old(l), fb))
RECURSIVE Passes(_, _, _, _)
(* <<output, lines>> of all-passes in series *)
Passes(ls, x, fb, new) == IF ls = <<>> THEN <<x, new>> ELSE Passes(Tail(ls), Old(Head(ls)) - x, fb, Append(new, Pass(Head(ls), x, fb)))

\* --- Schroeder: four combs, then two all-passes ---
Sch(sr) == [k |-> "sch", room |-> Half, damp |-> Half, wet |-> 314573, dry |-> 734003, width |-> One,
            c |-> [i \in 1..4 |-> Line((<<297, 371, 411, 437>>[i] * sr) \div 10000)], a |-> [i \in 1..2 |-> Line((<<50, 17>>[i] * sr) \div 10000)]]
SchStep(x, mono) ==
  LET r == Passes(s.a, SumSeq([i \in 1..4 |-> Old(s.c[i])]) \div 4, Half, <<>>)
      n == [s EXCEPT !.c = [i \in 1..4 |-> Comb(@[i], mono, 293601 + Mul(734003, s.room), Damp(s.damp))], !.a = r[2]] IN
  <<[j \in 1..Len(x) |-> Mul(x[j], s.dry) + Mul(IF Len(x) = 1 THEN r[1] ELSE Mul(r[1], Half + s.width \div 2), s.wet)], n>>

\* --- Freeverb: on each side eight combs, then four all-passes; the right one's lines are longer by 23/44100 s; in its lines samples are in 1/2^24 ---
Tuning == <<1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617>>
PassTuning == <<556, 441, 341, 225>>
Free(div) == [k |-> "free", room |-> Half, damp |-> Half, wet |-> One \div 3, dry |-> 0, width |-> One, mode |-> 0,
              c |-> [i \in 1..8 |-> Line(Tuning[i] \div div)], a |-> [i \in 1..4 |-> Line(PassTuning[i] \div div)],
              c2 |-> [i \in 1..8 |-> Line((Tuning[i] + 23) \div div)], a2 |-> [i \in 1..4 |-> Line((PassTuning[i] + 23) \div div)]]
Frozen == s.mode >= Half
FreeStep(x) ==
  LET m == Mul(x[1] + x[Len(x)], 251658)
      fb == 734003 + Mul(293601, IF Frozen THEN One ELSE s.room)
      dp == IF Frozen THEN 0 ELSE Damp(s.damp)
      l == Passes(s.a, SumSeq([i \in 1..8 |-> Old(s.c[i])]), Half, <<>>)
      r == Passes(s.a2, SumSeq([i \in 1..8 |-> Old(s.c2[i])]), Half, <<>>)
      w1 == Mul(s.wet, Half + s.width \div 2)
      w2 == Mul(s.wet, Half - s.width \div 2)
      y == <<(Mul(l[1], w1) + Mul(r[1], w2)) \div 16 + Mul(x[1], s.dry), (Mul(r[1], w1) + Mul(l[1], w2)) \div 16 + Mul(x[Len(x)], s.dry)>> IN
  <<SubSeq(y, 1, Len(x)), [s EXCEPT !.c = [i \in 1..8 |-> Comb(@[i], m, fb, dp)], !.c2 = [i \in 1..8 |-> Comb(@[i], m, fb, dp)], !.a = l[2], !.a2 = r[2]]>>

\* --- feedback delay network of n lines ---
Primes == <<23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89>>
(* 1/sqrt(n) *)
Scale(n) == Sqrt30((1073741824 \div n) - 1)
Phases(n) == [i \in 1..n |-> ((i - 1) * One) \div n]
Fdn(n, sr) == [k |-> "fdn", sr |-> sr, decay |-> Half, damp |-> Half, diff |-> Half, mod |-> 0, wet |-> 314573, dry |-> 734003, ph |-> Phases(n),
               c |-> [i \in 1..n |-> Line(((sr \div 100) * Primes[((i - 1) % 16) + 1]) \div 23)]]
RECURSIVE Odd(_, _)
(* whether a and b have an odd number of binary digits in common *)
Odd(a, b) == IF a = 0 \/ b = 0 THEN FALSE ELSE (a % 2 = 1 /\ b % 2 = 1) # Odd(a \div 2, b \div 2)
(* sums over the lines weighted by a matrix with orthonormal rows: of signs for 4 and 8, else the reflection at the diagonal *)
Spread(y) == LET n == Len(y)
                 g == Scale(n) IN
             IF n \in {4, 8} THEN [i \in 1..n |-> Mul(SumSeq([j \in 1..n |-> IF Odd(i - 1, j - 1) THEN -y[j] ELSE y[j]]), g)]
             ELSE LET m == SumSeq(y) IN [i \in 1..n |-> y[i] - (2 * m) \div n]
FdnStep(x) ==
  LET n == Len(s.c)
      m == IF Len(x) = 1 THEN x[1] ELSE (x[1] + x[2]) \div 2
      moving == s.mod > 0
      d(i) == s.c[i].d * One + (IF moving THEN Mul(5 * s.mod, Sine(s.ph[i])) ELSE 0) - One
      y == [i \in 1..n |-> LET p == d(i)
                               f == p % One IN Mul(At(s.c[i].h, p \div One), One - f) + Mul(At(s.c[i].h, (p \div One) + 1), f)]
      sp == Spread(y)
      dec == 419430 + Mul(608174, s.decay)
      dp == Damp(s.damp)
      c == [i \in 1..n |-> LET v == Mul(m, Scale(n)) + Mul(Mul(y[i], One - s.diff) + Mul(sp[i], s.diff), dec)
                               z == Mul(v, One - dp) + Mul(s.c[i].z, dp) IN [Put(s.c[i], z) EXCEPT !.z = z]]
      w == Mul(SumSeq(y), Scale(n))
      side(i) == IF n >= 2 THEN Mul(c[i].z, 314573) ELSE 0 IN
  <<IF Len(x) = 1 THEN <<Mul(x[1], s.dry) + Mul(w, s.wet)>>
    ELSE <<Mul(x[1], s.dry) + Mul(w + side(1), s.wet), Mul(x[2], s.dry) + Mul(w + side(2), s.wet)>>,
    [s EXCEPT !.c = c, !.ph = IF moving THEN [i \in 1..n |-> (@[i] + Half \div s.sr) % One] ELSE @]>>

\* --- single filters ---
Single(o) == [k |-> o.k, fb |-> Half, damp |-> Half, c |-> <<Line(o.d)>>]
SingleStep(x) == CASE s.k = "comb" -> <<<<Old(s.c[1])>>, [s EXCEPT !.c = <<Comb(@[1], x[1], s.fb, Damp(s.damp))>>]>>
                   [] s.k = "pass" -> <<<<Old(s.c[1]) - x[1]>>, [s EXCEPT !.c = <<Pass(@[1], x[1], s.fb)>>]>>
                   [] s.k = "damp" -> LET z == Mul(x[1], One - Damp(s.damp)) + Mul(s.c[1].z, Damp(s.damp)) IN <<<<z>>, [s EXCEPT !.c[1].z = z]>>

Mono(x) == IF Len(x) = 1 THEN x[1] ELSE (x[1] + x[2]) \div 2
One1(x) == CASE s.k = "sch" -> SchStep(x, Mono(x)) [] s.k = "free" -> FreeStep(x) [] s.k = "fdn" -> FdnStep(x) [] s.k \in {"comb", "pass", "damp"} -> SingleStep(x)
Tol == CASE s.k = "sch" -> 128 [] s.k = "free" -> 128 [] s.k = "fdn" -> 256 [] s.k \in {"comb", "pass", "damp"} -> 256
New(o) == CASE o.k = "sch" -> Sch(o.d) [] o.k = "free" -> Free(o.d) [] o.k = "fdn" -> Fdn(o.n, o.d) [] o.k \in {"comb", "pass", "damp"} -> Single(o)
Sample(x, y) == LET r == One1(x) IN Len(y) = Len(x) /\ (\A j \in 1..Len(x) : Near(y[j], r[1][j], Tol)) /\ s' = r[2]
(* n samples of silence through empty lines *)
Idle(o) == Near(o.y, 0, 0) /\ s' = [s EXCEPT !.ph = IF s.mod > 0 THEN [i \in DOMAIN @ |-> (@[i] + ((o.n * (Half \div s.sr)) % One)) % One] ELSE @]
Reset == s' = [f \in DOMAIN s |-> IF f \in {"c", "c2", "a", "a2"} THEN [i \in DOMAIN s[f] |-> Empty(s[f][i])] ELSE IF f = "ph" THEN Phases(Len(s.c)) ELSE s[f]]
Set(o) == s' = [s EXCEPT ![o.f] = IF o.f = "fb" /\ s.k = "pass" THEN o.x ELSE Unit(o.x)]
(* presets: room (or decay), damping, width (or diffusion and modulation), wet, dry in hundredths *)
Presets == <<<<30, 75, 50, 0, 25, 75>>, <<60, 50, 75, 0, 35, 65>>, <<85, 30, 100, 0, 40, 60>>, <<95, 10, 100, 0, 50, 50>>>>
FdnPresets == <<<<20, 80, 70, 10, 25, 75>>, <<50, 50, 85, 15, 35, 65>>, <<80, 30, 90, 20, 40, 60>>, <<95, 10, 95, 25, 50, 50>>>>
Percent(x) == (x * One) \div 100
Preset(i) == s' = IF s.k = "free" THEN LET p == Presets[i] IN
                       [s EXCEPT !.room = Percent(p[1]), !.damp = Percent(p[2]), !.width = Percent(p[3]), !.wet = Percent(p[5]), !.dry = Percent(p[6])]
                  ELSE LET p == FdnPresets[i] IN
                       [s EXCEPT !.decay = Percent(p[1]), !.damp = Percent(p[2]), !.diff = Percent(p[3]), !.mod = Percent(p[4]), !.wet = Percent(p[5]), !.dry = Percent(p[6])]
Do(o) ==
  /\ res' = <<>>
  /\ \/ o.op = "new" /\ s' = New(o)
     \/ o.op = "set" /\ Set(o)
     \/ o.op = "preset" /\ Preset(o.n)
     \/ o.op = "reset" /\ Reset
     \/ o.op = "idle" /\ Idle(o)
     \/ o.op = "sample" /\ Sample(o.x, o.y)
Invs == s.k # "" => \A i \in DOMAIN s.c : Len(s.c[i].h) <= s.c[i].d + 7
StepOK(o) == o.op \in {"set", "preset"} => s'.c = s.c
=============================================================================
