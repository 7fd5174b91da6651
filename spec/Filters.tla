------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* The filters: biquads by type, frequency, quality and gain, the state-   *)
(* variable filter with its outputs, mixes and morphing, and the blockers  *)
(* of constant offsets.  Each channel has its own past.                    *)
(*                                                                         *)
(* Samples and coefficients are in 1/2^20, quality in quarters, gain in    *)
(* even decibels, frequencies are numbers in the tables.  A biquad is      *)
(* compared one step at a time: its past is the samples that went in and   *)
(* those that came out.                                                    *)
(***************************************************************************)
EXTENDS Fix
VARIABLES f, past, res
vars == <<f, past, res>>
Init == f = [k |-> ""] /\ past = <<>> /\ res = <<>>
Frac(a, c) == IF a < 0 THEN -Div(-a, c) ELSE Div(a, c)

\* --- biquads: b0 b1 b2 a0 a1 a2 by the bilinear transform of the analogue prototypes ---
Coef(t, w, q4, g) ==
  LET s == SinW[w]
      c == CosW[w]
      al == (2 * s) \div q4
      A == Gain[g]
      r == 2 * Mul(Gain[g \div 2], al)
      up == A + One
      dn == A - One IN
  CASE t = "lowpass" -> <<(One - c) \div 2, One - c, (One - c) \div 2, One + al, -2 * c, One - al>>
    [] t = "highpass" -> <<(One + c) \div 2, -(One + c), (One + c) \div 2, One + al, -2 * c, One - al>>
    [] t = "bandpass" -> <<al, 0, -al, One + al, -2 * c, One - al>>
    [] t = "notch" -> <<One, -2 * c, One, One + al, -2 * c, One - al>>
    [] t = "allpass" -> <<One - al, -2 * c, One + al, One + al, -2 * c, One - al>>
    [] t = "peak" -> <<One + Mul(al, A), -2 * c, One - Mul(al, A), One + Frac(al, A), -2 * c, One - Frac(al, A)>>
    [] t = "lowshelf" -> <<Mul(A, up - Mul(dn, c) + r), 2 * Mul(A, dn - Mul(up, c)), Mul(A, up - Mul(dn, c) - r),
                           up + Mul(dn, c) + r, -2 * (dn + Mul(up, c)), up + Mul(dn, c) - r>>
    [] t = "highshelf" -> <<Mul(A, up + Mul(dn, c) + r), -2 * Mul(A, dn + Mul(up, c)), Mul(A, up + Mul(dn, c) - r),
                            up - Mul(dn, c) + r, 2 * (dn - Mul(up, c)), up - Mul(dn, c) - r>>
Normal(k) == <<Frac(k[1], k[4]), Frac(k[2], k[4]), Frac(k[3], k[4]), Frac(k[5], k[4]), Frac(k[6], k[4])>>
Quiet == <<0, 0, 0, 0>> \* x1 x2 y1 y2
NewBiquad(n) == f' = [k |-> "biquad", n |-> n, c |-> <<0, 0, 0, 0, 0>>] /\ past' = [i \in 1..n |-> Quiet] /\ res' = <<>>
Design(t, w, q4, g) == f.k = "biquad" /\ f' = [f EXCEPT !.c = Normal(Coef(t, w, q4, g))] /\ res' = <<>> /\ UNCHANGED past
(* six coefficients in sixteenths *)
Raw(k) == f.k = "biquad" /\ f' = [f EXCEPT !.c = Normal([i \in 1..6 |-> k[i] * 65536])] /\ res' = <<>> /\ UNCHANGED past
Tol(y) == 24 + Abs(y) \div 65536
RECURSIVE Bi(_, _, _)
(* <<agrees, past>>; what is too loud to compute with is not compared until the next reset *)
Bi(h, xs, ys) ==
  IF xs = <<>> \/ h = <<>> THEN <<TRUE, h>>
  ELSE LET x == Head(xs) * 1024
           c == f.c
           y == Mul(x, c[1]) + Mul(h[1], c[2]) + Mul(h[2], c[3]) - Mul(h[3], c[4]) - Mul(h[4], c[5]) IN
       IF Abs(y) > 60 * One THEN <<TRUE, <<>>>>
       ELSE IF Near(y, Head(ys), Tol(y)) THEN Bi(<<x, h[1], Head(ys), h[3]>>, Tail(xs), Tail(ys)) ELSE <<FALSE, h>>

\* --- the state-variable filter ---
(* hp = x - k bp - lp, and each integrator is trapezoidal: its output is its state plus g times its input, *)
(* and its state grows by twice that.  past: bp + g hp and lp + g bp after the last sample. *)
NewSvf(n, multi) == f' = [k |-> "svf", n |-> n, g |-> 0, q |-> 0, multi |-> multi, mode |-> 0] /\ past' = [i \in 1..n |-> <<0, 0>>] /\ res' = <<>>
Tune(w, q4) == f.k = "svf" /\ f' = [f EXCEPT !.g = IF w = 0 THEN @ ELSE TanW[w], !.q = IF q4 = 0 THEN @ ELSE (4 * One) \div q4] /\ res' = <<>> /\ UNCHANGED past
(* o: low, high, band, notch *)
SvfOk(h, x, o) ==
  /\ Near(o[2], x - Mul(o[3], f.q) - o[1], 24) /\ Near(o[4], x - Mul(o[3], f.q), 24)
  /\ Near(o[3], h[1] + Mul(o[2], f.g), 24 + f.g \div 32768) /\ Near(o[1], h[2] + Mul(o[3], f.g), 24 + f.g \div 32768)
SvfNext(o) == <<o[3] + Mul(o[2], f.g), o[1] + Mul(o[3], f.g)>>
(* the kinds of output: one of the four, a mix in sixteenths of low, high, band, notch, or the morph between low, band, high, notch and low *)
Morph == <<1, 3, 2, 4, 1>>
Out(m, mix, o) ==
  CASE m = "low" -> o[1]
    [] m = "high" -> o[2]
    [] m = "band" -> o[3]
    [] m = "notch" -> o[4]
    [] m = "mixed" -> SumSeq([i \in 1..4 |-> (o[i] \div 16) * mix[i] + ((o[i] % 16) * mix[i]) \div 16])
    [] m = "morph" -> LET i == f.mode \div 16
                          j == f.mode % 16
                          a == o[Morph[i + 1]]
                          b == o[Morph[i + 2]] IN a + ((b - a) \div 16) * j + (((b - a) % 16) * j) \div 16
RECURSIVE Sv(_, _, _, _, _, _)
Sv(h, xs, os, ys, m, mix) ==
  IF xs = <<>> THEN <<TRUE, h>>
  ELSE IF SvfOk(h, Head(xs) * 1024, Head(os)) /\ Near(Head(ys), Out(m, mix, Head(os)), 24) THEN Sv(SvfNext(Head(os)), Tail(xs), Tail(os), Tail(ys), m, mix) ELSE <<FALSE, h>>

\* --- blockers of a constant offset ---
NewDc(n, fr, sr) == f' = [k |-> "dc", n |-> n, sr |-> sr, r |-> Clamp(DcR[(sr \div 100) * 1000 + fr], 943718, 1047527)] /\ past' = [i \in 1..n |-> <<0, 0>>] /\ res' = <<>>
NewSimple(sr) == f' = [k |-> "dc", n |-> 1, sr |-> sr, r |-> DcR[(sr \div 100) * 1000 + 10]] /\ past' = <<<<0, 0>>>> /\ res' = <<>>
Cutoff(fr) == f.k = "dc" /\ f' = [f EXCEPT !.r = Clamp(DcR[(f.sr \div 100) * 1000 + fr], 943718, 1047527)] /\ res' = <<>> /\ UNCHANGED past
RECURSIVE Dc(_, _, _)
Dc(h, xs, ys) ==
  IF xs = <<>> THEN <<TRUE, h>>
  ELSE LET x == Head(xs) * 1024
           y == x - h[1] + Mul(h[2], f.r) IN
       IF Near(y, Head(ys), 8) THEN Dc(<<x, Head(ys)>>, Tail(xs), Tail(ys)) ELSE <<FALSE, h>>

Same(xs, ys) == \A i \in 1..Len(xs) : ys[i] = xs[i] * 1024
(* the buffers bs went through channels ch, ch + 1, ...; ys came out; those without a channel are left as they are *)
Process(ch, bs, ys, os, m, mix) ==
  /\ f.k # "" /\ res' = <<>> /\ UNCHANGED f
  /\ \A i \in 1..Len(bs) : Len(ys[i]) = Len(bs[i])
  /\ LET r == [i \in 1..Len(bs) |-> IF ch + i > f.n THEN <<Same(bs[i], ys[i]), <<>>>>
                                   ELSE IF f.k = "biquad" THEN Bi(past[ch + i], bs[i], ys[i])
                                   ELSE IF f.k = "dc" THEN Dc(past[ch + i], bs[i], ys[i])
                                   ELSE Sv(past[ch + i], bs[i], os[i], ys[i], m, mix)] IN
     /\ \A i \in 1..Len(bs) : r[i][1] = TRUE
     /\ past' = [c \in 1..f.n |-> IF c > ch /\ c <= ch + Len(bs) THEN r[c - ch][2] ELSE past[c]]
Reset == f.k # "" /\ past' = [c \in 1..f.n |-> IF f.k = "biquad" THEN Quiet ELSE <<0, 0>>] /\ res' = <<>> /\ UNCHANGED f
Do(o) ==
  \/ o.op = "biquad" /\ NewBiquad(o.n)
  \/ o.op = "svf" /\ NewSvf(o.n, o.multi)
  \/ o.op = "dc" /\ NewDc(o.n, o.f, o.sr)
  \/ o.op = "simple" /\ NewSimple(o.sr)
  \/ o.op = "design" /\ Design(o.t, o.w, o.q, o.g)
  \/ o.op = "raw" /\ Raw(o.c)
  \/ o.op = "tune" /\ Tune(o.w, o.q)
  \/ o.op = "mode" /\ f.k = "svf" /\ f.multi /\ f' = [f EXCEPT !.mode = o.x % 64] /\ res' = <<>> /\ UNCHANGED past
  \/ o.op = "cutoff" /\ Cutoff(o.f)
  \/ o.op = "reset" /\ Reset
  \/ o.op = "process" /\ Process(o.ch, o.bs, o.y, o.os, o.m, o.mix)
(* designed filters are stable: their poles lie within the unit circle *)
Invs == f.k = "biquad" => Abs(f.c[5]) <= One /\ Abs(f.c[4]) <= One + f.c[5] + 8
(* settings leave the past alone, and nothing but a reset or sound touches it *)
StepOK(o) == (o.op \in {"design", "raw", "tune", "mode", "cutoff"} => past' = past) /\ (o.op \in {"process", "reset"} => f' = f)
=============================================================================
