------------------------------ MODULE Spectrum ------------------------------
(***************************************************************************)
(* The Fourier transform with its windows, correlation by it, and the      *)
(* spectrum analyzer: frames of size samples every hop samples, averaged   *)
(* in one of four ways, and the questions asked of the result.             *)
(*                                                                         *)
(* Samples are small integers, everything else is in 1/2^20.  out is what  *)
(* the analyzer last showed; it is compared with the transform of the      *)
(* frames and then taken as seen, so that errors do not add up.            *)
(***************************************************************************)
EXTENDS Fix
VARIABLES kind, p, buf, out, avg, res
vars == <<kind, p, buf, out, avg, res>>
Init == kind = "" /\ p = [size |-> 1] /\ buf = <<>> /\ out = <<>> /\ avg = <<>> /\ res = <<>>
Inf == 536870912
Win(n, i) == WinT[p.win * 1000 + n * 20 + i]
(* sin and cos of k/n of a cycle *)
Sin(k, n) == LET y == ((k % n) * 1024) \div n IN SinT[y]
Cos(k, n) == Sin(4 * k + n, 4 * n)
(* bin k of the transform of n complex samples, a frame shorter than n goes on in silence *)
Re(xs, n, k) == SumSeq([i \in 1..Min2(n, Len(xs)) |-> LET s == Win(n, i - 1) IN
   Mul(xs[i][1] * s, Cos(k * (i - 1), n)) + Mul(xs[i][2] * s, Sin(k * (i - 1), n))])
Im(xs, n, k) == SumSeq([i \in 1..Min2(n, Len(xs)) |-> LET s == Win(n, i - 1) IN
   Mul(xs[i][2] * s, Cos(k * (i - 1), n)) - Mul(xs[i][1] * s, Sin(k * (i - 1), n))])
Real(xs) == [i \in 1..Len(xs) |-> <<xs[i], 0>>]
Tol == 120
New(q) == kind' = "fft" /\ p' = q /\ buf' = <<>> /\ out' = <<>> /\ avg' = <<>> /\ res' = <<>>
Transform(xs, g) ==
  /\ kind = "fft" /\ Len(g) = p.size
  /\ \A k \in 1..p.size : Near(g[k][1], Re(xs, p.size, k - 1), Tol) /\ Near(g[k][2], Im(xs, p.size, k - 1), Tol)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* magnitude m and phase a (in cycles) of the bin re, im *)
IsPolar(m, a, re, im) ==
  /\ m >= 0 /\ Near(Mul(m, Sine((a + 2 * One + 262144) % One)), re, Tol + m \div 65536) /\ Near(Mul(m, Sine((a + 2 * One) % One)), im, Tol + m \div 65536)
(* got: magnitudes, phases, decibels, powers *)
Forward(xs, g) ==
  /\ kind = "fft" /\ Len(g) = p.size \div 2 + 1
  /\ \A k \in 1..Len(g) : /\ IsPolar(g[k][1], g[k][2], Re(Real(xs), p.size, k - 1), Im(Real(xs), p.size, k - 1))
                          /\ g[k][1] > 4096 => Near(g[k][3], Db(g[k][1], 20), 2000)
                          /\ g[k][1] < 16 => g[k][3] < -90 * 65536
                          /\ g[k][1] < 20 * One => Near(g[k][4], 16 * Mul(g[k][1], g[k][1] \div 16), 200 + g[k][1] \div 2048)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* the real part of the way back; bins beyond the end are empty *)
Inverse(xs, g) ==
  /\ kind = "fft" /\ Len(g) = p.size
  /\ \A i \in 1..p.size : Near(g[i], SumSeq([k \in 1..Min2(p.size, Len(xs)) |->
        Mul(xs[k][1] * One, Cos((k - 1) * (i - 1), p.size)) - Mul(xs[k][2] * One, Sin((k - 1) * (i - 1), p.size))]) \div p.size, Tol)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* there and back again *)
Back(xs, g) == /\ kind = "fft" /\ p.win = 0 /\ Len(g) = p.size
               /\ \A i \in 1..p.size : Near(g[i], IF i <= Len(xs) THEN xs[i] * One ELSE 0, 2)
               /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* the sum of a[i] b[i + lag], from the most negative lag on *)
Cross(a, b, g) ==
  /\ LET n == Len(a) IN
     /\ Len(g) = 2 * n - 1
     /\ \A j \in 1..2 * n - 1 : Near(g[j], One * SumSeq([i \in 1..n |-> IF i + j - n \in 1..n THEN a[i] * b[i + j - n] ELSE 0]), 4)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
Hann(xs, g) ==
  /\ LET n == Len(xs) IN
     /\ Len(g) = n
     /\ \A i \in 1..n : Near(g[i], xs[i] * WinT[1000 + n * 20 + i - 1], 20)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>

(* ---- the analyzer ---- *)
Analyzer(q) ==
  /\ kind' = "spec" /\ buf' = <<>> /\ out' = Const(q.size \div 2 + 1, 0) /\ avg' = <<>> /\ res' = <<>>
  /\ p' = q @@ [hop |-> q.size \div 2, mode |-> 0, smooth |-> 943718, keep |-> 0, lo |-> 20, hi |-> q.sr \div 2]
Bins == p.size \div 2 + 1
Set(n, x) == /\ kind = "spec"
             /\ p' = [p EXCEPT ![n] = IF n = "hop" /\ x \notin 1..p.size THEN @ ELSE x]
             /\ res' = <<>> /\ UNCHANGED <<kind, buf, out, avg>>
Averaging(m, n) ==
  /\ kind = "spec" /\ p' = [p EXCEPT !.mode = m, !.keep = IF m # 0 /\ n > 0 THEN n ELSE @]
  /\ avg' = (IF m # 0 /\ n > 0 THEN <<>> ELSE avg) /\ res' = <<>> /\ UNCHANGED <<kind, buf, out>>
Range(lo, hi) == /\ kind = "spec" /\ p' = [p EXCEPT !.lo = Max2(0, lo), !.hi = Min2(p.sr \div 2, hi)]
                 /\ res' = <<>> /\ UNCHANGED <<kind, buf, out, avg>>
Reset == /\ kind = "spec" /\ buf' = <<>> /\ out' = Const(Bins, 0) /\ avg' = <<>> /\ res' = <<>> /\ UNCHANGED <<kind, p>>
(* the magnitude of re + i im, up to 64 *)
Mag(re, im) == LET a == re \div 2048  \* in 1/2^9
                   b == im \div 2048
                   r == Root(a * a + b * b, 0, 32768)
                   d == a * a + b * b - r * r IN r * 2048 + (d * 2048) \div (2 * r + 1)
Mags(f) == [k \in 1..Bins |-> Mag(Re(Real(f), p.size, k - 1), Im(Real(f), p.size, k - 1))]
(* the frames that xs completes: <<frame, ...>> and what is left over *)
RECURSIVE Frames(_, _, _)
Frames(b, xs, fs) ==
  IF Len(b) + Len(xs) < p.size THEN <<fs, b \o xs>>
  ELSE LET k == p.size - Len(b)
           f == b \o SubSeq(xs, 1, k) IN Frames(SubSeq(f, p.hop + 1, p.size), SubSeq(xs, k + 1, Len(xs)), Append(fs, f))
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
(* one more frame of magnitudes m on <<out, avg>> *)
Show(s, m) ==
  LET o == s[1]
      a == Last(Append(s[2], m), p.keep) IN
  CASE p.mode = 0 -> <<m, s[2]>>
    [] p.mode = 1 -> <<[k \in 1..Bins |-> m[k] + Mul(o[k] - m[k], p.smooth)], s[2]>>
    [] p.mode = 2 -> IF p.keep = 0 THEN s ELSE <<[k \in 1..Bins |-> SumSeq([j \in 1..Len(a) |-> a[j][k]]) \div Len(a)], a>>
    [] p.mode = 3 -> <<[k \in 1..Bins |-> Max2(o[k], m[k])], s[2]>>
RECURSIVE ShowAll(_, _)
ShowAll(s, fs) == IF fs = <<>> THEN s ELSE ShowAll(Show(s, Mags(Head(fs))), Tail(fs))
(* got: <<whether there is a new spectrum>>, the spectrum *)
Process(xs, g) ==
  LET f == Frames(buf, xs, <<>>)
      s == ShowAll(<<out, avg>>, f[1]) IN
  /\ kind = "spec" /\ buf' = f[2] /\ avg' = s[2]
  /\ g[1] = (f[1] # <<>>) /\ Len(g[2]) = Bins
  /\ \A k \in 1..Bins : Near(g[2][k], s[1][k], 4200)
  /\ out' = g[2]
  /\ res' = g /\ UNCHANGED <<kind, p>>
(* bins of the range: from the one lo lies in to the one hi lies in *)
LoBin == (p.lo * p.size) \div p.sr
HiBin == Min2((p.hi * p.size) \div p.sr, Bins - 1)
InRange == IF LoBin > HiBin THEN <<>> ELSE [i \in 1..(HiBin - LoBin + 1) |-> out[LoBin + i]]
ShowDb(d, v) == IF v > 4096 THEN Near(d, Db(v, 20), 2000) ELSE IF v < 16 THEN d < -90 * 65536 ELSE TRUE
AskRange(g) == /\ kind = "spec" /\ g[1] = InRange /\ Len(g[2]) = Len(InRange)
               /\ \A i \in 1..Len(InRange) : ShowDb(g[2][i], InRange[i])
               /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
AskDb(g) == kind = "spec" /\ Len(g) = Bins /\ (\A k \in 1..Bins : ShowDb(g[k], out[k])) /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* got: frequency and magnitude of the greatest bin of the range, the first of them *)
AskPeak(g) ==
  /\ kind = "spec"
  /\ \E k \in 0..Bins - 1 :
       /\ g[1] * p.size = k * p.sr
       /\ IF \A i \in 1..Len(InRange) : InRange[i] = 0 THEN g[2] = 0 /\ k = 0
          ELSE k \in LoBin..HiBin /\ g[2] = out[k + 1] /\ \A i \in 1..Len(InRange) : InRange[i] <= g[2] + 1
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
Sq(v) == 16 * Mul(v, v \div 16)
(* got in 1/2^10 *)
AskBand(lo, hi, g) ==
  LET a == Max2(0, (lo * p.size) \div p.sr)
      b == Min2(Bins - 1, (hi * p.size) \div p.sr)
      sum == SumSeq([i \in 1..Max2(0, b - a + 1) |-> Sq(out[a + i]) \div 1024]) IN
  /\ kind = "spec" /\ Near(g, sum, 100 + sum \div 1000)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* got: for each centre the root of the mean square over the octave around it *)
AskOctaves(cs, g) ==
  LET Low(c) == CHOOSE b \in 0..200 : 2 * b * b * p.sr * p.sr <= c * c * p.size * p.size /\ 2 * (b + 1) * (b + 1) * p.sr * p.sr > c * c * p.size * p.size
      High(c) == CHOOSE b \in 0..400 : b * b * p.sr * p.sr <= 2 * c * c * p.size * p.size /\ (b + 1) * (b + 1) * p.sr * p.sr > 2 * c * c * p.size * p.size IN
  /\ kind = "spec" /\ Len(g) = Len(cs)
  /\ \A i \in 1..Len(cs) :
       LET a == Low(cs[i])
           b == Min2(Bins - 1, High(cs[i]))
           n == b - a + 1 IN
       IF n <= 0 THEN g[i] = 0
       ELSE LET m == SumSeq([j \in 1..n |-> Sq(out[a + j])]) \div n IN Near(Sq(g[i]), m, 2000 + m \div 500)
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* got: the frequency of a bin, the bin of a frequency *)
AskBins(k, f, g) == /\ g[1] * p.size = k * p.sr /\ g[2] = (f * p.size) \div p.sr
                    /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
(* got: centres of the bands of an octave, or of a third, around 1000 Hz within 20 Hz to 20 kHz, in hundredths; octaves rounded to two digits below *)
AskBands(third, g) ==
  /\ res' = g /\ UNCHANGED <<kind, p, buf, out, avg>>
  /\ IF third THEN /\ \E i \in 1..Len(g) : g[i] = 100000
                   /\ \A i \in 1..Len(g) : g[i] >= 2000 /\ g[i] <= 2000000
                   /\ \A i \in 1..Len(g) - 1 : Near(g[i + 1], g[i] + ((g[i] * 26) \div 100), 2 + g[i] \div 800)
                   /\ \A i \in 1..Len(g) - 3 : Near(g[i + 3], 2 * g[i], 2)
                   /\ g[1] * 100 < 2000 * 126 /\ (g[Len(g)] \div 1000) * 126 > 200000
     ELSE g = <<3150, 6300, 12500, 25000, 50000, 100000, 200000, 400000, 800000, 1600000>>
Do(o) == CASE o.op = "fft" -> New([size |-> o.size, win |-> o.win, sr |-> o.sr])
           [] o.op = "transform" -> Transform(o.xs, o.got)
           [] o.op = "forward" -> Forward(o.xs, o.got)
           [] o.op = "inverse" -> Inverse(o.xs, o.got)
           [] o.op = "back" -> Back(o.xs, o.got)
           [] o.op = "cross" -> Cross(o.a, o.b, o.got)
           [] o.op = "hann" -> Hann(o.xs, o.got)
           [] o.op = "analyzer" -> Analyzer([size |-> o.size, win |-> o.win, sr |-> o.sr])
           [] o.op = "set" -> Set(o.n, o.x)
           [] o.op = "averaging" -> Averaging(o.m, o.n)
           [] o.op = "freqs" -> Range(o.lo, o.hi)
           [] o.op = "reset" -> Reset
           [] o.op = "process" -> Process(o.xs, o.got)
           [] o.op = "range" -> AskRange(o.got)
           [] o.op = "db" -> AskDb(o.got)
           [] o.op = "peak" -> AskPeak(o.got)
           [] o.op = "band" -> AskBand(o.lo, o.hi, o.got)
           [] o.op = "bands" -> AskBands(o.third, o.got)
           [] o.op = "octaves" -> AskOctaves(o.cs, o.got)
           [] o.op = "bins" -> AskBins(o.k, o.f, o.got)
Invs == kind = "spec" => /\ Len(buf) < p.size /\ Len(out) = Bins /\ \A k \in 1..Bins : out[k] >= 0
StepOK(o) == o.op \notin {"fft", "analyzer", "process", "reset"} => out' = out
=============================================================================
