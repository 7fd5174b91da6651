------------------------------ MODULE Distortion ------------------------------
(***************************************************************************)
(* Distortion: waveshaper, bit crusher, tube, tape, and the curves that    *)
(* stand alone.                                                            *)
(*                                                                         *)
(* Samples are in 1/1024 where they go in and in 1/2^20 where they come    *)
(* out; settings are in 1/64.  Each channel of a stateful effect has its   *)
(* own past; a past of <<>> is not known and nothing is compared until the *)
(* next reset.                                                             *)
(***************************************************************************)
EXTENDS Fix
VARIABLES d, past, res
vars == <<d, past, res>>
Init == d = [k |-> ""] /\ past = <<>> /\ res = <<>>
Dec(n) == IF n < 0 THEN -((500 - n * One) \div 1000) ELSE (n * One + 500) \div 1000 \* n thousandths
Part(v) == Clamp(v, 0, 64) * 16384
Bend(x) == IF x < 0 THEN -1 ELSE 1
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

\* --- curves ---
Lin(tab, x, w) == LET i == x \div w IN tab[i + 1] + ((tab[i + 2] - tab[i + 1]) * (x % w)) \div w
TanhP(x) == IF x >= 8 * One THEN One ELSE Lin(TanhT, x, 4096)
Tanh(x) == IF x < 0 THEN -TanhP(-x) ELSE TanhP(x)
(* 2/pi atan(pi/2 x) *)
AtanP(x) == LET y == Mul(x, 1647099) IN IF y <= One THEN Lin(AtanT, y, 1024) ELSE One - Lin(AtanT, Div(One, y), 1024)
(* the fold of x at thresholds of th: a triangle wave *)
Fold(x, th) == IF th <= 0 THEN 0 ELSE LET m == (x + th) % (4 * th) IN IF m <= 2 * th THEN m - th ELSE 3 * th - m
Sign(f, x) == IF x < 0 THEN -f ELSE f
Curve(c, x, asym) ==
  CASE c = "hard" -> Clamp(x, -One, One)
    [] c = "soft" -> Tanh(x)
    [] c = "saturate" -> Sign(AtanP(Abs(x)), x)
    [] c = "fold" -> Fold(x, One)
    [] c = "asym" -> Tanh(Mul(x, IF x >= 0 THEN One + asym ELSE One - asym))
    [] c = "sine" -> IF Abs(x) >= One THEN Bend(x) * One ELSE Sine(x \div 4)
    [] c = "exp" -> IF Abs(x) >= One THEN Bend(x) * One ELSE Sign(Lin(Exp3T, Abs(x), 1024), x)
    [] OTHER -> x

\* --- the stages of a tube ---
Even(x) == LET a == Abs(x)
               s == Mul(a, a)
               f == Mul(s, s) IN IF x >= 0 THEN a - Mul(s, Dec(100)) + Mul(f, Dec(50)) ELSE -(a - Mul(s, Dec(150)) + Mul(f, Dec(80)))
Odd(x) == LET c == Mul(Mul(x, x), x) IN x - Mul(c, Dec(150)) + Mul(Mul(Mul(x, x), c), Dec(50))
(* one to one up to 0.7, a third from 0.8 on, the slope falling evenly in between *)
Knee(x) == LET a == Abs(x)
               e == a - Dec(700) IN
           IF e <= 0 THEN x
           ELSE Sign(IF e < Dec(100) THEN a - (10 * Mul(e, e)) \div 3 ELSE Dec(700) + 69905 + (e - Dec(100)) \div 3, x)
TubeCurve(x) == Knee(Mul(Even(x), One - d.harm \div 2) + Mul(Odd(x), d.harm \div 2))
(* <<out, past>>; past: input and output of the hysteresis, state of emphasis and de-emphasis *)
Tube(h, x) ==
  LET hp == x - h[3]
      z == x + Mul(hp, d.warmth \div 2) + Mul(d.bias, Dec(100))
      diff == z - h[1]
      w == h[2] + Mul(z - h[2], One - Mul(d.hyst, IF diff > 0 THEN Dec(300) ELSE Dec(500)))
      de == h[4] + Mul(TubeCurve(w) - h[4], Dec(900) - Mul(d.warmth, Dec(600))) IN
  IF Abs(diff) \in 1..4 /\ Abs(z - h[2]) > 16 THEN <<0, <<>>>> \* rising or falling: too close to tell
  ELSE <<de, <<z, w, h[3] + Mul(hp, Dec(100) + Mul(d.warmth, Dec(400))), de>>>>

\* --- the stages of a tape ---
TapeCurve(x) ==
  LET y == x + 4 * Mul(x, d.sat)
      c == Clamp(y, -1914395, 1914395) IN
  Mul(Tanh(Mul(y, Dec(700))), Dec(800)) + Mul(Mul(c - Mul(Mul(Mul(c, c), c), Dec(100)), Dec(200)), d.sat)
(* past: emphasis, envelope, what was recorded lately (newest first), and bounds of the de-emphasis *)
FreshTape == [pre |-> 0, env |-> 0, ring |-> [i \in 1..12 |-> 0], lo |-> 0, hi |-> 0]
Tape(h, x) ==
  LET hp == x - h.pre
      z == x + Mul(hp, Mul(d.warmth, Dec(300)))
      env == h.env + Mul(Abs(z) - h.env, IF Abs(z) > h.env THEN Dec(10) ELSE Dec(100))
      c == IF env <= One \div 2 THEN z ELSE Mul(z, Div(One \div 2 + Div(env - One \div 2, 2 * One + 3 * d.comp), env))
      s == TapeCurve(c)
      moving == d.flutter >= Dec(10)
      ring == IF moving THEN <<s>> \o SubSeq(h.ring, 1, 11) ELSE h.ring
      reach == Mul(4 * One, d.flutter) - Mul(d.flutter, Dec(100)) \* 3.9 samples
      heard == IF moving THEN {ring[i] : i \in ((5 * One - reach) \div One)..((5 * One + reach) \div One + 1)} ELSE {s}
      hiss == Mul(d.sat, 105)
      cut == Dec(800) - d.warmth \div 2 IN
  [h EXCEPT !.pre = @ + Mul(hp, Dec(150) + Mul(d.warmth, Dec(100))), !.env = env, !.ring = ring,
            !.lo = @ + Mul(Least(heard) - hiss - @, cut), !.hi = @ + Mul(Most(heard) + hiss - @, cut)]

\* --- bit crusher ---
(* past: samples held so far, the sample held, state of the anti-aliasing filter, how well the sample held is known *)
Hold(h, x) ==
  IF d.factor = 4 THEN <<x, h, 0>>
  ELSE LET f == IF d.alias THEN h[3] + Mul(x - h[3], AliasT[d.factor]) ELSE h[3]
           in == IF d.alias THEN f ELSE x
           last == IF h[1] = 0 THEN in ELSE h[2]
           e == IF h[1] # 0 THEN h[4] ELSE IF d.alias THEN 16 ELSE 0
           n == h[1] + 1 IN <<last, <<IF 4 * n >= d.factor THEN 0 ELSE n, last, f, e>>, e>>
Pow2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152>>
QStep(b) == Pow2[21 - b] \* one quantisation step with b bits
Round(x, s) == IF x < 0 THEN -((-x + s \div 2) \div s) ELSE (x + s \div 2) \div s
Quant(x, b) == Clamp(Round(x, QStep(b)) * QStep(b), -One, One)
Mixed(y, x) == Mul(Mul(y, d.mix) + Mul(x, One - d.mix), d.out)
(* y is what a sample x that is v (within e) when held becomes *)
CrushOk(y, x, v, e) ==
  LET s == IF d.bits <= 20 THEN QStep(d.bits) ELSE 1
      whole == d.mix = One /\ d.out = One IN
  IF d.bits >= 32 THEN Near(y, Mixed(v, x), 24)
  ELSE IF d.bits > 16 THEN Near(y, Mixed(Clamp(v, -One, One), x), 24 + 3 * s)
  ELSE IF d.dither = "none" THEN (whole => y % s = 0) /\ y >= Mixed(Quant(v - e, d.bits), x) - 6 /\ y <= Mixed(Quant(v + e, d.bits), x) + 6
  ELSE /\ whole => y % s = 0
       /\ y >= Mixed(Clamp(v - s - s \div 2 - e, -One, One), x) - 6 /\ y <= Mixed(Clamp(v + s + s \div 2 + e, -One, One), x) + 6

\* --- histories ---
Fresh(k) == CASE k = "shaper" -> 0 [] k = "crusher" -> <<0, 0, 0, 0>> [] k = "tube" -> <<0, 0, 0, 0>> [] k = "tape" -> FreshTape
New(k) ==
  /\ k \in {"shaper", "crusher", "tube", "tape"} /\ res' = <<>> /\ past' = <<Fresh(k), Fresh(k)>>
  /\ d' = CASE k = "shaper" -> [k |-> k, mix |-> One, out |-> One, curve |-> "soft", drive |-> One, asym |-> 0]
            [] k = "crusher" -> [k |-> k, mix |-> One, out |-> One, bits |-> 16, factor |-> 4, alias |-> TRUE, dither |-> "none"]
            [] k = "tube" -> [k |-> k, mix |-> One, out |-> One, warmth |-> One \div 2, harm |-> One \div 2, bias |-> 0, hyst |-> Dec(100)]
            [] k = "tape" -> [k |-> k, mix |-> One, out |-> One, sat |-> One \div 2, comp |-> One \div 2, flutter |-> 0, warmth |-> One \div 2]
Set(f, v) ==
  /\ d.k # "" /\ f \in DOMAIN d /\ res' = <<>> /\ UNCHANGED past
  /\ d' = [d EXCEPT ![f] = CASE f = "out" -> Clamp(v, 0, 128) * 16384
                             [] f \in {"asym", "bias"} -> Clamp(v, -64, 64) * 16384
                             [] f = "drive" -> Clamp(v, 64, 6400) * 16384
                             [] f = "bits" -> Clamp(v, 1, 32)
                             [] f = "factor" -> Clamp(v, 4, 400)
                             [] f \in {"curve", "alias", "dither"} -> v
                             [] OTHER -> Part(v)]
(* <<agrees, past>> *)
One1(h, x, y) ==
  CASE d.k = "shaper" -> <<Near(y, Mixed(Curve(d.curve, Mul(x, d.drive), d.asym), x), 16), h>>
    [] d.k = "crusher" -> LET r == Hold(h, x) IN <<CrushOk(y, x, r[1], r[3]), r[2]>>
    [] d.k = "tube" -> IF h = <<>> THEN <<TRUE, h>> ELSE LET r == Tube(h, x) IN <<r[2] = <<>> \/ Near(y, Mixed(r[1], x), 96), r[2]>>
    [] d.k = "tape" -> LET r == Tape(h, x) IN <<y >= Mixed(r.lo, x) - 96 /\ y <= Mixed(r.hi, x) + 96, r>>
RECURSIVE Run(_, _, _)
Run(h, xs, ys) ==
  IF xs = <<>> THEN <<TRUE, h>>
  ELSE LET r == One1(h, Head(xs) * 1024, Head(ys)) IN IF r[1] = TRUE THEN Run(r[2], Tail(xs), Tail(ys)) ELSE <<FALSE, h>>
(* one or two channels of the same length *)
Process(xs, ys) ==
  /\ d.k # "" /\ res' = <<>> /\ UNCHANGED d /\ Len(ys) = Len(xs) /\ \A i \in 1..Len(xs) : Len(ys[i]) = Len(xs[i])
  /\ LET r == [i \in 1..Len(xs) |-> Run(past[i], xs[i], ys[i])] IN
     /\ \A i \in 1..Len(xs) : r[i][1] = TRUE
     /\ past' = [i \in 1..2 |-> IF i <= Len(xs) THEN r[i][2] ELSE past[i]]
Reset == d.k # "" /\ past' = <<Fresh(d.k), Fresh(d.k)>> /\ res' = <<>> /\ UNCHANGED d
(* dither is even: n equal samples at a quantisation level come out at that level on average, a half or a quarter of them off by a step *)
Even1(b, kind, mean, off) == /\ b \in 3..12 /\ kind \in {"white", "tri"} /\ res' = <<>> /\ UNCHANGED <<d, past>>
                             /\ Abs(mean) * 10 <= QStep(b) /\ Near(off * 10, (QStep(b) \div 4) * (IF kind = "white" THEN 20 ELSE 10), QStep(b))
\* --- curves that stand alone ---
RECURSIVE Cheb(_, _, _, _)
Cheb(x, a, b, n) == IF n = 0 THEN a ELSE Cheb(x, b, Mul(2 * b, x) - a, n - 1)
RECURSIVE Poly(_, _)
Poly(x, c) == IF c = <<>> THEN 0 ELSE Head(c) * 65536 + Mul(Poly(x, Tail(c)), x)
Fn(o) ==
  /\ res' = <<>> /\ UNCHANGED <<d, past>>
  /\ LET x == o.x * 1024 IN
     CASE o.f = "sigmoid" -> Near(o.y, Tanh(Mul(x, Clamp(o.v * 16384, Dec(100), 10 * One)) \div 2), 8)
       [] o.f = "poly" -> Near(o.y, Poly(x, o.c), 32)
       [] o.f = "cheb" -> Near(o.y, Cheb(x, One, x, o.v), 64)
       [] o.f = "steps" -> Near(o.y, IF o.v <= 1 THEN 0 ELSE LET n == Round((o.x + 1024) * (o.v - 1), 2048) IN Round(2 * n * One, o.v - 1) - One, 1)
       [] o.f = "fold" -> o.y = Fold(x, o.v * 16384)
       [] o.f = "gate" -> o.y = IF Abs(x) < o.v * 16384 THEN 0 ELSE x
Do(o) ==
  \/ o.op = "new" /\ New(o.k)
  \/ o.op = "set" /\ Set(o.f, o.v)
  \/ o.op = "reset" /\ Reset
  \/ o.op = "process" /\ Process(o.xs, o.y)
  \/ o.op = "even" /\ Even1(o.b, o.kind, o.mean, o.off)
  \/ o.op = "fn" /\ Fn(o)
Invs == d.k = "crusher" => \A c \in 1..2 : 4 * past[c][1] < 400
StepOK(o) == (o.op = "set" => past' = past) /\ (o.op = "process" => d' = d)

\* --- what the curves are for: they keep the sign, rise with the input and stay within full scale; folds do not leave the threshold ---
Grid == {i * 32768 : i \in -96..96}
Curves == {"hard", "soft", "saturate", "asym", "sine", "exp"}
ASSUME \A c \in Curves : \A x \in Grid : LET y == Curve(c, x, 40 * 16384) IN
         /\ Abs(y) <= One /\ (x > 0 => y > 0) /\ (x = 0 => y = 0) /\ (x < 0 => y < 0)
         /\ y <= Curve(c, x + 32768, 40 * 16384)
ASSUME \A x \in Grid : \A th \in 1..20 : Abs(Fold(x, th * 65536)) <= th * 65536 /\ (Abs(x) <= th * 65536 => Fold(x, th * 65536) = x)
ASSUME \A x \in Grid : Knee(x) <= Knee(x + 32768) /\ Even(x) <= Even(x + 32768) + 4 /\ Odd(x) <= Odd(x + 32768) + 4
ASSUME \A b \in 1..16 : \A x \in Grid : Abs(x) <= One => 2 * Abs(Quant(x, b) - x) <= QStep(b)
=============================================================================
