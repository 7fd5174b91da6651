----------------------------- MODULE Modulation -----------------------------
(***************************************************************************)
(* The modulation effects: tremolo, ring modulator, chorus, flanger,       *)
(* phaser, modulated delay line and automatic panner.                      *)
(*                                                                         *)
(* Samples and settings are in 1/2^20, phases of low-frequency oscillators *)
(* in 1/(25*2^20) of a cycle (so that their lowest rate of 0.01 Hz is a    *)
(* whole increment), delays in 1/2^20 samples.  A history h of a delay line   *)
(* has the newest sample first; before it was silence.                     *)
(*                                                                         *)
(* What an effect gives for the next sample depends on its settings, its   *)
(* phase and its history; each sample is a step, and blocks are sequences  *)
(* of them.                                                                *)
(***************************************************************************)
EXTENDS Fix
VARIABLES s, res
vars == <<s, res>>
Init == s = [k |-> ""] /\ res = <<>>
Half == One \div 2
Quarter == One \div 4
Cycle == 25 * One
(* an increment of x/2^20 cycles a sample, limited to between 0.01 and top Hz *)
Rate(x, top) == LET sc == s.sr \div 8192 IN
                IF 25 * x * sc < 32 THEN 32 \div sc
                ELSE IF x * sc > top * 128 THEN 25 * ((top * 128) \div sc) ELSE 25 * x
Wave(w, ph) ==
  CASE w = "sine" -> Sine(ph)
    [] w = "saw" -> 2 * ph - One
    [] w = "square" -> IF ph < Half THEN One ELSE -One
    [] w = "triangle" -> IF ph < Half THEN 4 * ph - One ELSE 3 * One - 4 * ph
Lfo(w, ph) == Wave(w, (ph % Cycle) \div 25)
Next(ph, inc) == (ph + inc) % Cycle
At(h, i) == IF i < Len(h) THEN h[i + 1] ELSE 0
(* the sample d/2^20 ago *)
Ago(h, d) == LET i == d \div One
                 f == d % One IN Mul(At(h, i), One - f) + Mul(At(h, i + 1), f)
Keep(x, h) == <<x>> \o SubSeq(h, 1, Min2(Len(h), 500))
Mix(dry, wet) == Mul(dry, One - s.mix) + Mul(wet, s.mix)
(* a delay d moved by m of a depth, at least low *)
Moved(d, depth, m, low) == Max2(low, d + Mul(depth, m))
(* n tenths of a millisecond *)
Ms10(n, sr) == CASE sr = 8192 -> n * 858993 + (n * 459) \div 1000 [] sr = 16384 -> n * 1717986 + (n * 918) \div 1000 [] sr = 32768 -> n * 3435973 + (n * 837) \div 1000

\* --- tremolo: a gain between 1 - depth and 1 ---
NewTrem(sr) == s' = [k |-> "trem", sr |-> sr, inc |-> (5 * 128 * 25 * 8192) \div sr, ph |-> 0, w |-> "sine", depth |-> Half, harm |-> FALSE,
                     stereo |-> FALSE, off |-> 0, smooth |-> FALSE, gl |-> One, gr |-> One]
(* smoothing forgets within 5 ms *)
Coef == CASE s.sr = 8192 -> 1023286 [] s.sr = 32768 -> 1042195 [] s.sr = 65536 -> 1045381
GainOf(l) == One - Mul(s.depth, IF s.harm THEN Abs(l) ELSE (One - l) \div 2)
Smoothed(g, v) == IF s.smooth THEN Toward(g, v, Coef) ELSE g
RECURSIVE Trem(_, _, _, _, _)
(* <<outputs, phase, gains>> *)
Trem(x, ph, gl, gr, ys) ==
  IF x = <<>> THEN <<ys, ph, gl, gr>>
  ELSE LET a == Smoothed(GainOf(Lfo(s.w, ph)), gl)
           b == Smoothed(GainOf(Lfo(s.w, IF s.stereo THEN ph + 25 * s.off ELSE ph)), gr)
           c == Head(x) IN
       IF Len(c) = 1 THEN Trem(Tail(x), Next(ph, s.inc), a, gr, Append(ys, <<Mul(c[1], a)>>))
       ELSE Trem(Tail(x), Next(ph, s.inc), a, b, Append(ys, <<Mul(c[1], a), Mul(c[2], b)>>))

\* --- ring modulator: times a carrier ---
NewRing == s' = [k |-> "ring", sr |-> 8192, inc |-> 440 * 128, lfo |-> FALSE, linc |-> 64 * 25, lph |-> 0,
                     ldepth |-> 104858, ph |-> 0, w |-> "sine", mix |-> Half, fuzz |-> 0, slop |-> 0]
RECURSIVE Ring(_, _, _, _, _)
(* <<outputs, phase, phase of the oscillator, how uncertain the phase is, uncertainty of each>> *)
Ring(x, ph, lph, fuzz, ys) ==
  IF x = <<>> THEN <<ys, ph, lph, fuzz>>
  ELSE LET inc == IF s.lfo THEN s.inc + Mul(Mul(s.inc, s.ldepth), Lfo("sine", lph)) ELSE s.inc
           c == Wave(s.w, ph)
           y == [i \in 1..Len(Head(x)) |-> Mix(Head(x)[i], Mul(Head(x)[i], c))]
           f == IF s.lfo THEN fuzz + 4 ELSE fuzz + s.slop
           jump == \/ s.w = "square" /\ (Abs(ph - Half) <= fuzz)
                   \/ s.w \in {"square", "saw"} /\ (ph <= fuzz \/ ph >= One - fuzz) IN
       Ring(Tail(x), (ph + inc) % One, IF s.lfo THEN Next(lph, s.linc) ELSE lph, f,
            Append(ys, <<y, IF fuzz = 0 THEN 16 ELSE IF jump THEN 3 * One ELSE 16 + 8 * fuzz>>))

\* --- chorus: voices of delays, each moved by its own oscillator ---
NewChorus(sr) == s' = [k |-> "chorus", sr |-> sr, inc |-> (64 * 25 * 8192) \div sr, ph |-> <<0, Cycle \div 2>>, depth |-> Ms10(20, sr),
                       delay |-> Ms10(200, sr), mix |-> Half, fb |-> 0, spread |-> One, hl |-> <<>>, hr |-> <<>>, wl |-> 0, wr |-> 0]
Voices(n) == [v \in 1..n |-> ((v - 1) * Cycle) \div n]
(* where voice v of n is panned, as an angle in cycles: an eighth is the middle *)
Angle(v, n) == ((((2 * v - n - 1) * s.spread) \div (2 * (n - 1))) + Half) \div 4
PanL(v, n) == IF n = 1 THEN One ELSE Sine(Quarter + Angle(v, n)) \div n
PanR(v, n) == IF n = 1 THEN One ELSE Sine(Angle(v, n)) \div n
RECURSIVE Chorus(_, _, _, _, _, _, _)
Chorus(x, ph, hl, hr, wl, wr, ys) ==
  IF x = <<>> THEN <<ys, ph, hl, hr, wl, wr>>
  ELSE LET c == Head(x)
           r0 == c[Len(c)]
           l == Keep(c[1] + Mul(wl, s.fb), hl)
           r == Keep(r0 + Mul(wr, s.fb), hr)
           n == Len(ph)
           d == [v \in 1..n |-> Moved(s.delay, s.depth, Lfo("sine", ph[v]), One)]
           yl == SumSeq([v \in 1..n |-> Mul(Ago(l, d[v]), PanL(v, n))])
           yr == SumSeq([v \in 1..n |-> Mul(Ago(r, d[v]), PanR(v, n))]) IN
       Chorus(Tail(x), [v \in 1..n |-> Next(ph[v], s.inc)], l, r, yl, yr, Append(ys, <<Mix(c[1], yl), Mix(r0, yr)>>))

\* --- flanger: one delay with feedback; on the right the echo is inverted ---
NewFlanger(sr) == s' = [k |-> "flanger", sr |-> sr, inc |-> (64 * 25 * 8192) \div sr, ph |-> 0, depth |-> Ms10(20, sr),
                        delay |-> Ms10(50, sr), mix |-> Half, fb |-> Half, manual |-> FALSE, pos |-> Half, h |-> <<>>, w |-> 0]
RECURSIVE Flanger(_, _, _, _, _)
Flanger(x, ph, h, w, ys) ==
  IF x = <<>> THEN <<ys, ph, h, w>>
  ELSE LET c == Head(x)
           g == Keep(Clamp(c[1] + Mul(w, s.fb), -One, One), h)
           y == Ago(g, Moved(s.delay, s.depth, IF s.manual THEN 2 * s.pos - One ELSE Lfo("triangle", ph), 104858))
           o == IF Len(c) = 1 THEN <<Mix(c[1], y)>> ELSE <<Mix(c[1], y), Mix(c[2], -y)>> IN
       Flanger(Tail(x), IF s.manual THEN ph ELSE Next(ph, s.inc), g, y, Append(ys, o))

\* --- phaser: all-pass stages of one frequency, moved between two ---
(* frequencies are in 1/16 Hz *)
NewPhaser(sr) == s' = [k |-> "phaser", sr |-> sr, inc |-> (64 * 25 * 8192) \div sr, ph |-> 0, depth |-> Half, center |-> 16000, lo |-> 12000, hi |-> 20000,
                       mix |-> Half, fb |-> Half, st |-> <<0, 0, 0, 0>>, w |-> 0]
Swept(q) == LET r == Mul(q.center, q.depth) \div 2 IN [q EXCEPT !.lo = Max2(320, q.center - r), !.hi = Min2(q.sr * 4, q.center + r)]
(* the coefficient at f/4096 Hz: f/sr of half a cycle as an angle *)
Coefficient(f) == LET x == f \div (s.sr \div 128)
                      si == Sine(x)
                      co == Sine(x + Quarter) IN
                  IF co >= si THEN Div(co - si, co + si) ELSE -Div(si - co, co + si)
(* m = -One..One of the way from lo to hi, in octaves *)
Between(lo, hi, m) == LET a == Db(lo, 0)
                          b == Db(hi, 0) IN Amp(a + Mul(b - a, (m + One) \div 2), 8)
RECURSIVE Stages(_, _, _, _)
Stages(x, st, a, new) ==
  IF st = <<>> THEN <<x, new>>
  ELSE LET y == Mul(x, a) + Head(st) IN Stages(y, Tail(st), a, Append(new, x - Mul(y, a)))
RECURSIVE Phaser(_, _, _, _, _)
Phaser(x, ph, st, w, ys) ==
  IF x = <<>> THEN <<ys, ph, st, w>>
  ELSE LET c == Head(x)
           r == Stages(Clamp(c[1] + Mul(w, s.fb), -One, One), st, Coefficient(Between(s.lo, s.hi, Lfo("sine", ph))), <<>>)
           o == IF Len(c) = 1 THEN <<Mix(c[1], r[1])>> ELSE <<Mix(c[1], r[1]), Mix(c[2], -r[1])>> IN
       Phaser(Tail(x), Next(ph, s.inc), r[2], r[1], Append(ys, o))

\* --- modulated delay line ---
NewMod(sr) == s' = [k |-> "mod", sr |-> sr, inc |-> (64 * 25 * 8192) \div sr, ph |-> 0, depth |-> Ms10(50, sr), delay |-> Ms10(100, sr), h |-> <<>>]
RECURSIVE Modded(_, _, _, _)
Modded(x, ph, h, ys) ==
  IF x = <<>> THEN <<ys, ph, h>>
  ELSE Modded(Tail(x), Next(ph, s.inc), Keep(Head(x)[1], h),
              Append(ys, <<Ago(h, Moved(s.delay, s.depth, Lfo("sine", ph), One) - One)>>))

\* --- automatic panner: gains by a law and where the oscillator is ---
NewPan(law) == s' = [k |-> "pan", law |-> law, sr |-> 8192, inc |-> 0, ph |-> 0, depth |-> One]
Gains(p) == LET a == (p + One) \div 8
                cp == <<Sine(Quarter + a), Sine(a)>>
                b == One - Mul(One - Mul(p, p), 166724) IN
            CASE s.law = 0 -> <<(One - p) \div 2, (One + p) \div 2>>
              [] s.law = 1 -> cp
              [] s.law = 2 -> <<Mul(cp[1], b), Mul(cp[2], b)>>
Panned(x) == [i \in 1..Len(x) |-> LET g == Gains(Mul(Sine(((s.ph + (i - 1) * s.inc) % Cycle) \div 25), s.depth)) IN <<Mul(x[i][1], g[1]), Mul(x[i][1], g[2])>>]

\* --- settings ---
New(o) == CASE o.k = "trem" -> NewTrem(o.sr) [] o.k = "ring" -> NewRing [] o.k = "chorus" -> NewChorus(o.sr) [] o.k = "flanger" -> NewFlanger(o.sr)
            [] o.k = "phaser" -> NewPhaser(o.sr) [] o.k = "mod" -> NewMod(o.sr) [] o.k = "pan" -> NewPan(o.law)
Unit(x) == Clamp(x, 0, One)
SetRate(x) == CASE s.k \in {"trem", "flanger"} -> [s EXCEPT !.inc = Rate(x, 20)]
                [] s.k \in {"chorus", "phaser"} -> [s EXCEPT !.inc = Rate(x, 10)]
                [] s.k = "ring" -> [s EXCEPT !.linc = Rate(x, 20)]
                [] s.k = "pan" -> [s EXCEPT !.inc = 25 * x]
SetDepth(x) == CASE s.k = "trem" -> [s EXCEPT !.depth = Unit(x)]
                 [] s.k = "ring" -> [s EXCEPT !.ldepth = Unit(x)]
                 [] s.k = "phaser" -> Swept([s EXCEPT !.depth = Unit(x)])
                 [] s.k \in {"chorus", "flanger"} -> [s EXCEPT !.depth = Clamp(x, 0, Ms10(100, s.sr))]
                 [] s.k = "pan" -> [s EXCEPT !.depth = x]
(* a delay line starts anew with a new delay *)
SetDelay(x) == CASE s.k = "chorus" -> [s EXCEPT !.delay = Clamp(x, Ms10(10, s.sr), Ms10(500, s.sr)), !.hl = <<>>, !.hr = <<>>, !.wl = 0, !.wr = 0]
                 [] s.k = "flanger" -> [s EXCEPT !.delay = Clamp(x, Ms10(1, s.sr), Ms10(100, s.sr)), !.h = <<>>, !.w = 0]
                 [] s.k = "mod" -> [s EXCEPT !.delay = x]
SetVoices(n) == [s EXCEPT !.ph = Voices(Clamp(n, 1, 4)), !.hl = <<>>, !.hr = <<>>, !.wl = 0, !.wr = 0]
SetFeedback(x) == [s EXCEPT !.fb = IF s.k = "chorus" THEN Clamp(x, 0, Half) ELSE Clamp(x, -1038090, 1038090)]
SetStages(n) == LET m == Clamp(n - (n % 2), 2, 8) IN Swept([s EXCEPT !.st = [i \in 1..m |-> 0]])
SetRange(lo, hi) == LET a == Clamp(lo, 320, s.sr * 4)
                        b == Max2(a + 1600, Min2(s.sr * 8, hi)) IN [s EXCEPT !.lo = a, !.hi = b, !.center = (a + b) \div 2]
Reset == CASE s.k = "trem" -> [s EXCEPT !.ph = 0, !.gl = One, !.gr = One]
           [] s.k = "ring" -> [s EXCEPT !.ph = 0, !.lph = 0, !.fuzz = 0]
           [] s.k = "chorus" -> SetVoices(Len(s.ph))
           [] s.k = "flanger" -> [s EXCEPT !.ph = 0, !.h = <<>>, !.w = 0]
           [] s.k = "phaser" -> [s EXCEPT !.ph = 0, !.st = [i \in DOMAIN @ |-> 0], !.w = 0]
           [] s.k = "mod" -> [s EXCEPT !.ph = 0, !.h = <<>>]
           [] s.k = "pan" -> [s EXCEPT !.ph = 0]

\* --- what comes out for inputs x, each of one or two channels ---
Same(y, z, tol) == Len(y) = Len(z) /\ \A i \in 1..Len(y) : Len(y[i]) = Len(z[i]) /\ \A j \in 1..Len(y[i]) : Near(y[i][j], z[i][j], tol)
(* a shift of the read position by the error of the sine moves the sample *)
Loose == 64 + s.depth \div 65536
(* what comes back comes with its error *)
Echoes == IF Abs(s.fb) > 800000 THEN 12 ELSE 2
Run(x, y, short) ==
  CASE s.k = "trem" -> LET r == Trem(x, s.ph, s.gl, s.gr, <<>>) IN
                       Same(y, r[1], 256) /\ s' = [s EXCEPT !.ph = r[2], !.gl = r[3], !.gr = r[4]]
    [] s.k = "ring" -> LET r == Ring(x, s.ph, s.lph, s.fuzz, <<>>) IN
                       /\ Len(y) = Len(x) /\ \A i \in 1..Len(x) : Same(<<y[i]>>, <<r[1][i][1]>>, r[1][i][2])
                       /\ s' = [s EXCEPT !.ph = r[2], !.lph = r[3], !.fuzz = r[4]]
    [] s.k = "chorus" -> LET r == Chorus(x, s.ph, s.hl, s.hr, s.wl, s.wr, <<>>) IN
                         Same(y, r[1], 2 * Loose) /\ s' = [s EXCEPT !.ph = r[2], !.hl = r[3], !.hr = r[4], !.wl = r[5], !.wr = r[6]]
    [] s.k = "flanger" -> LET r == Flanger(x, s.ph, s.h, s.w, <<>>) IN
                          Same(y, r[1], 2 * Echoes * Loose) /\ s' = [s EXCEPT !.ph = r[2], !.h = r[3], !.w = r[4]]
    [] s.k = "phaser" -> LET r == Phaser(x, s.ph, s.st, s.w, <<>>) IN
                         Same(y, r[1], Echoes * (512 + 8 * ((s.sr * 16) \div Min2(s.lo, s.hi)))) /\ s' = [s EXCEPT !.ph = r[2], !.st = r[3], !.w = r[4]]
    [] s.k = "mod" -> LET r == Modded(x, s.ph, s.h, <<>>) IN
                      Same(y, r[1], Loose) /\ s' = [s EXCEPT !.ph = r[2], !.h = r[3]]
    [] s.k = "pan" -> LET m == Len(x) - Max2(short[1], short[2]) IN  \* the shorter output ends it
                      /\ Same(SubSeq(y, 1, m), Panned(SubSeq(x, 1, m)), 256) /\ \A i \in (m + 1)..Len(x) : y[i] = <<0, 0>>
                      /\ s' = [s EXCEPT !.ph = (@ + m * s.inc) % Cycle]
Do(o) ==
  /\ res' = <<>>
  /\ \/ o.op = "new" /\ New(o)
     \/ o.op = "rate" /\ s' = SetRate(o.x)
     \/ o.op = "depth" /\ s' = SetDepth(o.x)
     \/ o.op = "modlfo" /\ s' = [s EXCEPT !.inc = 25 * o.x, !.depth = o.d]
     \/ o.op = "wave" /\ s' = [s EXCEPT !.w = o.w]
     \/ o.op = "harm" /\ s' = [s EXCEPT !.harm = o.on]
     \/ o.op = "tremwave" /\ s' = [s EXCEPT !.w = o.w, !.smooth = (o.w = "square")]
     \/ o.op = "stereo" /\ s' = [s EXCEPT !.stereo = o.on]
     \/ o.op = "offset" /\ s' = [s EXCEPT !.off = Unit(o.x)]
     \/ o.op = "smooth" /\ s' = [s EXCEPT !.smooth = o.on]
     \/ o.op = "gain" /\ Near(o.g, s.gl, 256) /\ UNCHANGED s
     \/ o.op = "carrier" /\ s' = IF o.x < 13 THEN [s EXCEPT !.inc = 13, !.slop = 1] ELSE [s EXCEPT !.inc = Min2(o.x, Half), !.slop = 0]
     \/ o.op = "lfo" /\ s' = [s EXCEPT !.lfo = o.on]
     \/ o.op = "mix" /\ s' = [s EXCEPT !.mix = Unit(o.x)]
     \/ o.op = "feedback" /\ s' = SetFeedback(o.x)
     \/ o.op = "spread" /\ s' = [s EXCEPT !.spread = Unit(o.x)]
     \/ o.op = "voices" /\ s' = SetVoices(o.n)
     \/ o.op = "delay" /\ s' = SetDelay(o.x)
     \/ o.op = "manual" /\ s' = [s EXCEPT !.manual = o.on]
     \/ o.op = "position" /\ s' = [s EXCEPT !.pos = Unit(o.x)]
     \/ o.op = "center" /\ s' = Swept([s EXCEPT !.center = Clamp(o.x, 1600, 64000)])
     \/ o.op = "range" /\ s' = SetRange(o.x, o.hi)
     \/ o.op = "stages" /\ s' = SetStages(o.n)
     \/ o.op = "reset" /\ s' = Reset
     \/ o.op = "run" /\ Run(o.x, o.y, IF s.k = "pan" THEN o.short ELSE <<>>)
(* the dry signal is never delayed and nothing is louder than it may be *)
Invs == /\ s.k = "trem" => s.gl \in 0..One /\ s.gr \in 0..One
        /\ s.k = "phaser" => Len(s.st) \in {2, 4, 6, 8}
        /\ s.k = "chorus" => Len(s.ph) \in 1..4
StepOK(o) == o.op \notin {"new", "run", "reset", "voices"} /\ s.k # "" => s'.ph = s.ph
=============================================================================
