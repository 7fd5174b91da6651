---------------------------- MODULE Interpolation ----------------------------
(***************************************************************************)
(* Values between samples: linear, cubic, windowed-sinc and Lanczos        *)
(* interpolation, resampling, the all-pass fractional delay, smoothing.    *)
(*                                                                         *)
(* Samples are in 1/64, positions between them in 1/16, ratios in 1/16,    *)
(* results in 1/2^20.                                                      *)
(***************************************************************************)
EXTENDS Fix
VARIABLES ap, res
vars == <<ap, res>>
Init == ap = <<0, 0>> /\ res = <<>>
S(x) == x * 16384
(* a + n/m of the way to c, in 1/2^20 *)
Part(a, c, n, m) == S(a) + (S(c - a) \div m) * n + ((S(c - a) % m) * n) \div m
LinOk(y, a, c, n, m) == Near(y, Part(a, c, n, m), 2)
(* the cubic through b and c whose slopes there are those of the lines a-c and b-e: Hermite basis with f in 1/16, in 1/2^20 *)
Cubic(a, b, c, e, f) ==
  LET h00 == 2 * f * f * f - 3 * 16 * f * f + 4096
      h10 == f * f * f - 2 * 16 * f * f + 256 * f
      h01 == 3 * 16 * f * f - 2 * f * f * f
      h11 == f * f * f - 16 * f * f IN \* all times 4096
  (h00 * 2 * b + h10 * (c - a) + h01 * 2 * c + h11 * (e - b)) * 2
CubicOk(y, a, b, c, e, f) == Near(y, Cubic(a, b, c, e, f), 2)
Cosine(x) == Sine(x + One \div 4)
(* sin(pi x) / (pi x), x # 0 in 1/2^20 *)
Sinc(x) == LET a == Abs(x)
               w == Sine(a \div 2)
               p == 3 * a + Mul(a, 148471) IN IF a < 32768 THEN One - Mul(p, p) \div 6 ELSE IF w >= 0 THEN Div(w, p) ELSE -Div(-w, p)
(* the weight of a sample x 16ths away *)
Blackman(x, h) == LET c == (Abs(x) * 32768) \div h IN 440402 + Mul(Cosine(c), 524288) + Mul(Cosine(2 * c), 83886)
Weight(kind, x, n) ==
  IF x = 0 THEN One
  ELSE IF kind = "sinc" THEN LET h == n \div 2 IN IF Abs(x) >= 16 * h THEN 0 ELSE Mul(Sinc(x * 65536), Blackman(x, h))
  ELSE IF Abs(x) >= 16 * n THEN 0 ELSE Mul(Sinc(x * 65536), Sinc((x * 65536) \div n))
Size(kind, n) == IF kind = "sinc" THEN (IF n < 2 THEN 2 ELSE n) ELSE IF n < 1 THEN 2 ELSE n
(* samples that far away from position i + f/16 of b count; there are none outside b *)
Windowed(kind, b, i, f, n) == LET m == Size(kind, n) IN SumSeq([j \in 1..Len(b) |-> Mul(Weight(kind, 16 * (j - 1 - i) - f, m), S(b[j]))])
Count(b, r, cap, edge) == Cardinality({j \in 0..(cap - 1) : 16 * j < (Len(b) - edge) * r})
LinearAt(y, b, r, j) == LET p == (16 * j) \div r IN Near(y, Part(b[p + 1], b[p + 2], (16 * j) % r, r), 8)
(* resampling with a cubic needs two neighbours on each side and is linear where it has fewer; ratios in powers of two there *)
CubicAt(y, b, r, j) ==
  LET p == (16 * j) \div r
      f == (((16 * j) % r) * 16) \div r IN
  IF p >= 1 /\ p < Len(b) - 2 THEN CubicOk(y, b[p], b[p + 1], b[p + 2], b[p + 3], f) ELSE LinearAt(y, b, r, j)
(* the output beyond what was written keeps its value 7 *)
ResampleOk(o) ==
  LET none == Len(o.b) < (IF o.cubic THEN 4 ELSE 1) \/ o.r <= 0
      n == IF none THEN 0 ELSE Count(o.b, o.r, o.cap, IF o.cubic THEN 2 ELSE 1) IN
  /\ res' = n /\ Len(o.y) = o.cap
  /\ \A j \in 0..(o.cap - 1) : IF j >= n THEN o.y[j + 1] = 7 * One ELSE IF o.cubic THEN CubicAt(o.y[j + 1], o.b, o.r, j) ELSE LinearAt(o.y[j + 1], o.b, o.r, j)
(* y = a x + x1 - a y1 with a = (1 - f)/(1 + f); ap is x1 and y1 *)
RECURSIVE Ap(_, _, _, _)
Ap(h, xs, fs, ys) ==
  IF xs = <<>> THEN <<TRUE, h>>
  ELSE LET a == Div(16 - Head(fs), 16 + Head(fs))
           x == S(Head(xs)) IN
       IF Near(Head(ys), Mul(x, a) + h[1] - Mul(h[2], a), 8) THEN Ap(<<x, Head(ys)>>, Tail(xs), Tail(fs), Tail(ys)) ELSE <<FALSE, h>>
Do(o) ==
  \/ o.op = "linear" /\ LinOk(o.y, o.a, o.b, o.f, 16) /\ res' = <<>> /\ UNCHANGED ap
  \/ o.op = "cubic" /\ CubicOk(o.y, o.a, o.b, o.c, o.e, o.f) /\ CubicOk(o.h, o.a, o.b, o.c, o.e, o.f) /\ res' = <<>> /\ UNCHANGED ap
  \/ o.op = "window" /\ Near(o.y, Windowed(o.k, o.b, o.i, o.f, o.n), 16 * (10 + Len(o.b))) /\ res' = <<>> /\ UNCHANGED ap
  \/ o.op = "resample" /\ ResampleOk(o) /\ UNCHANGED ap
  \/ o.op = "smooth" /\ Len(o.y) = Len(o.b) /\ (\A j \in 1..Len(o.b) : LinOk(o.y[j], o.b[j], o.a, o.f, 16)) /\ res' = <<>> /\ UNCHANGED ap
  \/ o.op = "allpass" /\ Len(o.y) = Len(o.b) /\ res' = <<>> /\ (LET r == Ap(ap, o.b, o.fs, o.y) IN r[1] = TRUE /\ ap' = r[2])
  \/ o.op = "reset" /\ ap' = <<0, 0>> /\ res' = <<>>
Invs == TRUE
StepOK(o) == o.op \notin {"allpass", "reset"} => ap' = ap

\* --- interpolation meets the samples, and windows weigh equal samples as one (in the middle of enough of them) ---
ASSUME \A a, b, c, e \in {-64, 5, 64} : Cubic(a, b, c, e, 0) = S(b) /\ Cubic(a, b, c, e, 16) = S(c) /\ \A f \in 0..16 : Cubic(b, b, b, b, f) = S(b)
ASSUME \A a \in {-9, 0, 7}, k \in {-4, 0, 11}, f \in 0..16 : Cubic(a - k, a, a + k, a + 2 * k, f) = Part(a, a + k, f, 16)
ASSUME \A i \in 0..9 : \A kind \in {"sinc", "lanczos"} : Windowed(kind, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>, i, 0, 4) = S(i + 1)
ASSUME \A f \in 0..15 : Near(Windowed("sinc", [i \in 1..20 |-> 64], 10, f, 16), One, 2048) /\ Near(Windowed("lanczos", [i \in 1..20 |-> 64], 10, f, 3), One, 16384)
=============================================================================
