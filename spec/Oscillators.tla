----------------------------- MODULE Oscillators -----------------------------
(***************************************************************************)
(* Sound sources: the plain oscillators, the band-limited ones, the        *)
(* low-frequency oscillator and the coloured noises.                       *)
(*                                                                         *)
(* Phases, increments and samples are in 1/2^20.  A phase advances by the  *)
(* increment with every sample and wraps; the waveform is a function of    *)
(* the phase.  Noise is a function of the white noise w it is made from.   *)
(***************************************************************************)
EXTENDS Fix
VARIABLES s, res
vars == <<s, res>>
Init == s = [k |-> ""] /\ res = <<>>
Half == One \div 2
Wrap(x) == x % One

\* --- plain oscillators ---
Wave(w, ph, width) ==
  CASE w = "sine" -> Sine(ph)
    [] w = "saw" -> 2 * ph - One
    [] w = "square" -> IF ph < Half THEN One ELSE -One
    [] w = "pulse" -> IF ph < width THEN One ELSE -One
    [] w = "triangle" -> IF ph < Half THEN 4 * ph - One ELSE 3 * One - 4 * ph
Tol(w) == IF w = "sine" THEN 8 ELSE IF w \in {"square", "pulse"} THEN 0 ELSE 2
NewOsc(sr) == s' = [k |-> "osc", sr |-> sr, inc |-> (440 * (One \div 8192)) \div (sr \div 8192), ph |-> 0] /\ res' = <<>>
Osc(w, width, ys) ==
  /\ s.k = "osc" /\ res' = <<>>
  /\ \A i \in 1..Len(ys) : Near(ys[i], Wave(w, Wrap(s.ph + (i - 1) * s.inc), width), Tol(w))
  /\ s' = [s EXCEPT !.ph = Wrap(@ + Len(ys) * s.inc)]

\* --- band-limited: the first m harmonics of an impulse per cycle, and their integral ---
M(inc) == Half \div inc
RECURSIVE Cosines(_, _)
Cosines(ph, k) == IF k = 0 THEN 0 ELSE Sine(k * ph + One \div 4) + Cosines(ph, k - 1)
Impulse(ph, inc) == (One + 2 * Cosines(ph, M(inc))) \div (2 * M(inc) + 1)
Mean(inc) == One \div (2 * M(inc) + 1)
NewBlit(k) == s' = [k |-> k, sr |-> 8192, inc |-> 440 * 128, ph |-> 0, int |-> 0] /\ res' = <<>>
Blit(ys) ==
  /\ s.k = "blit" /\ res' = <<>>
  /\ \A i \in 1..Len(ys) : Near(ys[i], Impulse(Wrap(s.ph + (i - 1) * s.inc), s.inc), 16)
  /\ s' = [s EXCEPT !.ph = Wrap(@ + Len(ys) * s.inc)]
(* the sawtooth is the integral of the impulses less their mean, slowly forgotten, as -2 inc / mean of it *)
Leak == 1047527
RECURSIVE Saw(_, _, _)
Saw(ph, int, ys) ==
  IF ys = <<>> THEN <<TRUE, int>>
  ELSE LET n == Mul(int, Leak) + Impulse(ph, s.inc) - Mean(s.inc)
           g == 2 * s.inc * (2 * M(s.inc) + 1)
           y == Mul(n, g)
           (* the integral as it comes out *)
           o == IF Head(ys) < 0 THEN Div(-Head(ys), g) ELSE -Div(Head(ys), g) IN
       IF Near(Head(ys), -y, 64) THEN Saw(Wrap(ph + s.inc), o, Tail(ys)) ELSE <<FALSE, int>>
BlSaw(ys) ==
  /\ s.k = "blsaw" /\ res' = <<>>
  /\ LET r == Saw(s.ph, s.int, ys) IN r[1] = TRUE /\ s' = [s EXCEPT !.ph = Wrap(@ + Len(ys) * s.inc), !.int = r[2]]

\* --- low-frequency oscillator at 1024 samples per second ---
NewLfo == s' = [k |-> "lfo", inc |-> 1024, ph |-> 0, w |-> "sine", depth |-> One, off |-> 0, sync |-> FALSE, sp |-> 0, exact |-> TRUE,
               cnt |-> 0, cur |-> 0, known |-> TRUE] /\ res' = <<>>
Period == IF s.exact THEN One \div s.inc ELSE 102400
(* f in 1/64 Hz, limited to 0.01 and 20 Hz; 0.01 Hz is no whole increment *)
LfoFreq(f) == s' = [s EXCEPT !.inc = IF f < 1 THEN 10 ELSE Min2(f, 1280) * 16, !.exact = (f >= 1)]
LfoWave(w) == s' = IF w = "random" THEN [s EXCEPT !.w = w, !.cnt = 0, !.known = FALSE] ELSE [s EXCEPT !.w = w]
LfoOut(x) == Clamp(Mul(x, s.depth) + s.off, -One, One)
(* random values are held for a period and lie between -1 and 1 *)
RECURSIVE Held(_, _, _, _, _)
Held(ys, i, cnt, cur, known) ==
  IF i > Len(ys) THEN <<TRUE, cnt, cur, known>>
  ELSE LET new == cnt >= Period IN
       IF new THEN IF ys[i] >= LfoOut(-One) - 2 /\ ys[i] <= LfoOut(One) + 2 /\ (known /\ s.off = 0 /\ s.depth > 65536 => ys[i] # cur)
                   THEN Held(ys, i + 1, 1, ys[i], TRUE) ELSE <<FALSE, cnt, cur, known>>
       ELSE IF (known => Near(ys[i], cur, 2)) /\ ys[i] >= LfoOut(-One) - 2 /\ ys[i] <= LfoOut(One) + 2 THEN Held(ys, i + 1, cnt + 1, ys[i], TRUE)
       ELSE <<FALSE, cnt, cur, known>>
(* what comes out, and the phase afterwards *)
Lfo(ys, ph) ==
  /\ s.k = "lfo" /\ res' = <<>>
  /\ LET slack == IF s.exact THEN 0 ELSE Len(ys) + 2
         after == Wrap(s.ph + Len(ys) * s.inc)
         h == Held(ys, 1, s.cnt, s.cur, s.known) IN
     /\ ph >= 0 /\ ph < One /\ (Near(ph, after, slack) \/ (slack > 0 /\ Abs(ph - after) >= One - slack))
     /\ IF s.w = "random" THEN h[1] = TRUE /\ s' = [s EXCEPT !.ph = ph, !.cnt = h[2], !.cur = h[3], !.known = h[4]]
        ELSE /\ \A i \in 1..Len(ys) :
                  LET at == Wrap(s.ph + (i - 1) * s.inc) IN
                  \/ Near(ys[i], LfoOut(Wave(s.w, at, 0)), Tol(s.w) + 2 + 4 * slack)
                  \/ slack > 0 /\ (at % Half <= slack \/ at % Half >= Half - slack) \* at a jump
             /\ s' = [s EXCEPT !.ph = ph]

\* --- noise ---
NewNoise(k) == s' = [k |-> "noise", c |-> k, row |-> <<0, 0, 0, 0>>, i |-> 0, brown |-> 0, blue |-> 0, violet |-> 0] /\ res' = <<>>
Zeros(n) == IF n % 2 = 1 THEN 1 ELSE IF n % 4 = 2 THEN 2 ELSE IF n % 8 = 4 THEN 3 ELSE 4
(* the next sample of state q from the white samples ws: <<state, sample, samples used>> *)
Next1(q, ws) ==
  CASE q.c = "white" -> <<q, ws[1], 1>>
    [] q.c = "brown" -> LET b == Clamp(Mul(q.brown + ws[1] \div 16, 1045430), -One, One) IN <<[q EXCEPT !.brown = b], b, 1>>
    [] q.c = "blue" -> <<[q EXCEPT !.blue = ws[1]], (ws[1] - q.blue) \div 2, 1>>
    [] q.c = "violet" -> LET b == (ws[1] - q.blue) \div 2 IN <<[q EXCEPT !.blue = ws[1], !.violet = b], (b - q.violet) \div 4, 1>>
    [] q.c = "pink" -> LET i == (q.i + 1) % 16
                           r == IF i = 0 THEN q.row ELSE [q.row EXCEPT ![Zeros(i)] = ws[1]]
                           n == IF i = 0 THEN 1 ELSE 2 IN
                       <<[q EXCEPT !.i = i, !.row = r], Clamp((SumSeq(r) + ws[n]) \div 20, -One, One), n>>
RECURSIVE Noises(_, _, _)
Noises(q, ws, ys) ==
  IF ys = <<>> THEN <<TRUE, q>>
  ELSE LET r == Next1(q, ws) IN
       IF Near(Head(ys), r[2], 6) THEN Noises(IF q.c = "brown" THEN [r[1] EXCEPT !.brown = Head(ys)] ELSE r[1], SubSeq(ws, r[3] + 1, Len(ws)), Tail(ys)) ELSE <<FALSE, q>>
(* ys were made from the white noise ws *)
Noise(ws, ys) ==
  /\ s.k = "noise" /\ res' = <<>>
  /\ \A i \in 1..Len(ws) : ws[i] >= -One /\ ws[i] <= One
  /\ LET r == Noises(s, ws, ys) IN r[1] = TRUE /\ s' = r[2]

(* 100000 samples of a source, random anew on every run: white noise is even between -1 and 1, the other normal with a deviation of 0.3.
   m has the least and the greatest of them, the mean, mean square, mean products with the last and the last but one, the shares beyond 0.3 and 0.6.
   The bounds are more than six deviations wide. *)
Stats(o) ==
  LET m == o.m IN
  /\ UNCHANGED s /\ res' = <<>> /\ o.n = 100000
  /\ \A i \in {3, 5, 6} : Abs(m[i]) <= 14000
  /\ IF o.c \in {"gauss", "gaussbuf"}
     THEN /\ m[1] < -One /\ m[1] > -3 * One /\ m[2] > One /\ m[2] < 3 * One
          /\ Near(m[4], 94372, 2800) /\ Near(m[7], 332721, 10000) /\ Near(m[8], 47710, 4300)
     ELSE /\ m[1] >= -One /\ m[1] < -One + 2000 /\ m[2] <= One /\ m[2] > One - 2000
          /\ Near(m[4], One \div 3, 7000) /\ Near(m[7], 734003, 9500) /\ Near(m[8], 419430, 10000)

Do(o) ==
  \/ o.op = "stats" /\ Stats(o)
  \/ o.op = "osc" /\ NewOsc(o.sr)
  \/ o.op = "blit" /\ NewBlit("blit")
  \/ o.op = "blsaw" /\ NewBlit("blsaw")
  \/ o.op = "lfo" /\ NewLfo
  \/ o.op = "noise" /\ NewNoise(o.c)
  \/ o.op = "inc" /\ s.k \in {"osc", "blit", "blsaw"} /\ (s.k # "osc" => o.x > 0) /\ s' = [s EXCEPT !.inc = o.x] /\ res' = <<>>
  \/ o.op = "freq" /\ s.k = "lfo" /\ LfoFreq(o.x) /\ res' = <<>>
  \/ o.op = "wave" /\ s.k = "lfo" /\ LfoWave(o.w) /\ res' = <<>>
  \/ o.op = "depth" /\ s.k = "lfo" /\ s' = [s EXCEPT !.depth = Clamp(o.x, 0, 64) * 16384, !.known = FALSE] /\ res' = <<>>
  \/ o.op = "offset" /\ s.k = "lfo" /\ s' = [s EXCEPT !.off = Clamp(o.x, -64, 64) * 16384, !.known = FALSE] /\ res' = <<>>
  \/ o.op = "enable" /\ s.k = "lfo" /\ s' = [s EXCEPT !.sync = o.on, !.sp = Clamp(o.x, 0, One)] /\ res' = <<>>
  \/ o.op = "sync" /\ s.k = "lfo" /\ s' = (IF s.sync THEN [s EXCEPT !.ph = Wrap(s.sp)] ELSE s) /\ res' = <<>>
  \/ o.op = "phase" /\ s.k \in {"osc", "lfo"} /\ s' = [s EXCEPT !.ph = Wrap(o.x)] /\ res' = <<>>
  \/ o.op = "reset" /\ s.k \in {"osc", "lfo", "noise"} /\ res' = <<>>
     /\ s' = (IF s.k = "osc" THEN [s EXCEPT !.ph = 0] ELSE IF s.k = "lfo" THEN [s EXCEPT !.ph = 0, !.cnt = 0, !.known = FALSE]
              ELSE [s EXCEPT !.row = <<0, 0, 0, 0>>, !.i = 0, !.brown = 0, !.blue = 0, !.violet = 0])
  \/ o.op = "color" /\ s.k = "noise" /\ s' = [s EXCEPT !.c = o.c] /\ res' = <<>>
  \/ o.op = "run" /\ \/ Osc(o.w, o.width, o.y)
                     \/ s.k = "blit" /\ Blit(o.y)
                     \/ BlSaw(o.y)
                     \/ s.k = "lfo" /\ Lfo(o.y, o.ph)
                     \/ s.k = "noise" /\ Noise(o.ws, o.y)
Invs == s.k \in {"osc", "blit", "blsaw", "lfo"} => s.ph >= 0 /\ s.ph < One
StepOK(o) == o.op \in {"run", "reset"} => s'.k = s.k
=============================================================================
