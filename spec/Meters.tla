------------------------------- MODULE Meters -------------------------------
(***************************************************************************)
(* Level meters: peak with hold and decay, RMS over a window, balance and  *)
(* width of a stereo signal.                                               *)
(*                                                                         *)
(* Samples are in tenths; levels in 1/2^20, decibels in 1/65536.  The peak *)
(* meter's decay halves its level every p.half samples.  hc holds the      *)
(* numbers of samples the held peak may have left, of which there is more  *)
(* than one only where a block's peak ties with a decayed one.             *)
(***************************************************************************)
EXTENDS Fix
VARIABLES kind, p, peak, hold, hc, win, pl, pr, res
vars == <<kind, p, peak, hold, hc, win, pl, pr, res>>
Init == kind = "" /\ p = [x |-> 0] /\ peak = 0 /\ hold = 0 /\ hc = {0} /\ win = <<>> /\ pl = 0 /\ pr = 0 /\ res = <<>>
Inf == 536870912
Tenth(x) == (x * One) \div 10
(* 20 log10 of a level *)
DbOK(d, v, tol) == IF v = 0 THEN TRUE ELSE IF v < 256 THEN d < -55 * 65536 ELSE Near(d, Db(v, 20), tol + 600000 \div v)
New(k, q) == /\ kind' = k /\ p' = q /\ peak' = 0 /\ hold' = 0 /\ hc' = {0} /\ win' = <<>> /\ pl' = 0 /\ pr' = 0 /\ res' = <<>>
SetP(n, x) == kind = "peak" /\ p' = [p EXCEPT ![n] = x] /\ res' = <<>> /\ UNCHANGED <<kind, peak, hold, hc, win, pl, pr>>
Reset == kind \in {"peak", "rms"} /\ peak' = 0 /\ hold' = 0 /\ hc' = {0} /\ win' = <<>> /\ pl' = 0 /\ pr' = 0 /\ res' = <<>> /\ UNCHANGED <<kind, p>>

RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN 0 ELSE Max2(Abs(s[1]), MaxAbs(Tail(s)))
(* 2 to the -n/half *)
Decay(n) == LET k == n \div p.half
                f == ((n % p.half) * 256) \div p.half IN
            IF f = 0 THEN Shift(One, -k) ELSE Shift(AmpT[256 - f], -(k + 1))
(* got: peak, hold, their decibels *)
Peak(xs, g) ==
  LET b == Tenth(MaxAbs(xs))
      d == Mul(peak, Decay(Len(xs)))
      n == Len(xs) IN
  /\ kind = "peak"
  /\ Near(g[1], Max2(b, d), 8)
  /\ peak' = g[1]
  /\ LET takes == b >= hold - 1 /\ g[2] \in (b - 1)..(b + 1)
         keeps == b <= hold + 1 /\ \E c \in hc : IF c - n <= 0 THEN g[2] = g[1] ELSE g[2] = hold
         left == {c - n : c \in {c \in hc : IF c - n <= 0 THEN g[2] = g[1] ELSE g[2] = hold}} IN
     /\ takes \/ keeps
     /\ hc' = (IF takes THEN {p.hold} ELSE {}) \cup (IF keeps THEN {Max2(0, c) : c \in left} ELSE {})
  /\ hold' = g[2]
  /\ (g[1] = 0 => g[3] <= 0) /\ DbOK(g[3], g[1], 200) /\ DbOK(g[4], g[2], 200)
  /\ (g[1] = 0 /\ peak = 0 /\ b = 0 => g[3] = -Inf)
  /\ res' = g /\ UNCHANGED <<kind, p, win, pl, pr>>
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
SumSq(s) == SumSeq(SeqMap(s, LAMBDA x : x * x))
(* v is the square root of m, both in 1/2^20, v up to 1 *)
RootOK(v, m) == LET q == v \div 32 IN v >= 0 /\ Abs(q * q - m * 1024) <= 2 * q + 3073
(* got: the root of the mean square, its decibels; a window of silence is silent *)
Rms(xs, g) ==
  LET w == Last(win \o xs, p.size) IN
  /\ kind = "rms" /\ win' = w
  /\ IF w = <<>> THEN g = <<0, -Inf>>
     ELSE RootOK(g[1], Div(SumSq(w), 100 * Len(w))) /\ DbOK(g[2], g[1], 4000) /\ (g[1] = 0 => g[2] < -100 * 65536)
  /\ res' = g /\ UNCHANGED <<kind, p, peak, hold, hc, pl, pr>>

C95 == 996147
(* b is the part of the difference, all of two powers *)
RatioOK(b, x, y) == x + y < 4096 \/ (Abs(b) <= One /\ Near(Mul(x + y, b), y - x, 300))
HalfDb(x, y) == (Db(x, 20) - Db(y, 20)) \div 2
Mean(s, n) == Div(SumSeq(s), n)
(* got: the balance (-1 left, 1 right), in decibels *)
Balance(xs, ys, g) ==
  LET n == Len(xs)
      a == Toward(Mean(SeqMap(xs, LAMBDA x : x * x), 100 * n), pl, C95)
      b == Toward(Mean(SeqMap(ys, LAMBDA x : x * x), 100 * n), pr, C95) IN
  /\ kind = "balance"
  /\ IF n = 0 THEN pl' = pl /\ pr' = pr ELSE pl' = a /\ pr' = b
  /\ RatioOK(g[1], pl', pr')
  /\ (p.l = 0 /\ \A i \in 1..n : xs[i] = 0) => (IF p.r = 0 /\ \A i \in 1..n : ys[i] = 0 THEN g[1] = 0 /\ g[2] = 0 ELSE g[1] = One /\ g[2] = Inf)
  /\ (p.r = 0 /\ \A i \in 1..n : ys[i] = 0) => (p.l = 0 /\ \A i \in 1..n : xs[i] = 0) \/ (g[1] = -One /\ g[2] = -Inf)
  /\ (pl' > 16384 /\ pr' > 16384) => Near(g[2], HalfDb(pr', pl'), 4000)
  /\ p' = [p EXCEPT !.l = IF \A i \in 1..n : xs[i] = 0 THEN @ ELSE 1, !.r = IF \A i \in 1..n : ys[i] = 0 THEN @ ELSE 1]
  /\ res' = g /\ UNCHANGED <<kind, peak, hold, hc, win>>
(* got: the width (0 mono, 1 one channel only), in decibels *)
Width(xs, ys, g) ==
  LET n == Len(xs)
      m == [i \in 1..n |-> (xs[i] + ys[i]) * (xs[i] + ys[i])]
      s == [i \in 1..n |-> (xs[i] - ys[i]) * (xs[i] - ys[i])]
      a == Toward(Mean(m, 400 * n), pl, C95)
      b == Toward(Mean(s, 400 * n), pr, C95)
      q == g[1] \div 256 IN
  /\ kind = "width"
  /\ IF n = 0 THEN pl' = pl /\ pr' = pr ELSE pl' = a /\ pr' = b
  /\ p' = [p EXCEPT !.l = IF \A i \in 1..n : m[i] = 0 THEN @ ELSE 1, !.r = IF \A i \in 1..n : s[i] = 0 THEN @ ELSE 1]
  /\ p'.r = 0 => (g[1] = 0 /\ g[2] = -Inf)
  /\ (p'.l = 0 /\ p'.r = 1) => (g[1] = Inf /\ g[2] = Inf)
  /\ (pl' > 16384 /\ pr' > 16384 /\ pr' < 32 * pl') => LET d == Div(pr', pl') IN
       /\ Near((q * q) \div 16, d, q \div 4 + 64 + d \div 256)
       /\ Near(g[2], HalfDb(pr', pl'), 4000)
  /\ (pl' > 16384 /\ pr' < pl') => g[1] \in 0..One + 4096
  /\ res' = g /\ UNCHANGED <<kind, peak, hold, hc, win>>

Do(o) == CASE o.op = "new" -> New(o.kind, IF o.kind = "peak" THEN [hold |-> o.hold, half |-> o.half]
                                          ELSE IF o.kind = "rms" THEN [size |-> o.size] ELSE [l |-> 0, r |-> 0])
           [] o.op = "set" -> SetP(o.n, o.x)
           [] o.op = "reset" -> Reset
           [] o.op = "peak" -> Peak(o.xs, o.got)
           [] o.op = "rms" -> Rms(o.xs, o.got)
           [] o.op = "balance" -> Balance(o.xs, o.ys, o.got)
           [] o.op = "width" -> Width(o.xs, o.ys, o.got)
(* a held peak is never below the level; the window never grows beyond its size *)
Invs == kind = "peak" => hold >= peak - 2
StepOK(o) == kind = "rms" => Len(win') <= p.size
=============================================================================
