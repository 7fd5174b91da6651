----------------------------- MODULE BufferStats -----------------------------
(***************************************************************************)
(* What the debugging aids say of an audio buffer: its level, DC, clipping *)
(* and samples that are no numbers; how two buffers differ; and how one is *)
(* drawn and listed.  Samples are in 1/o.scale, 1/64 where there is none.  *)
(***************************************************************************)
EXTENDS Fix
VARIABLES n, res
vars == <<n, res>>
Init == n = 0 /\ res = <<>>
NaN == 999999
Numbers(b) == SelectSeq(b, LAMBDA x : x # NaN)
NaNs(b) == Len(b) - Len(Numbers(b))
RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN 0 ELSE Max2(Abs(s[1]), MaxAbs(Tail(s)))
(* where the sign changes from one number to the next; zero counts as positive *)
Crossings(b) == LET s == Numbers(b) IN Cardinality({i \in 2..Len(s) : (s[i - 1] < 0) # (s[i] < 0)})
(* from 0.99 on; in 1/65536 nothing of ours gets there *)
Clipped(b, scale) == IF scale # 64 THEN 0 ELSE Len(SelectSeq(Numbers(b), LAMBDA x : Abs(x) >= 64))
Squares(b) == SumSeq([i \in 1..Len(b) |-> IF b[i] = NaN THEN 0 ELSE b[i] * b[i]])
Bit(b) == IF b THEN 1 ELSE 0
(* below a ten thousandth *)
Silent(b, scale) == IF b = <<>> THEN FALSE ELSE IF scale = 64 THEN Squares(b) = 0 ELSE Squares(b) * 10000 < Len(b) * 429497
(* r is, in 1/1024, the root of x over m *)
IsRms(r, x, m) == IF m = 0 THEN r = 0 ELSE LET s == (x * 1024) \div m
                                              q == r \div 32 IN
   Max2(q - 1, 0) * Max2(q - 1, 0) <= s + 1 /\ s <= (q + 2) * (q + 2)
Analyze(o) ==
  LET b == o.b
      num == Numbers(b) IN
  /\ res' = <<MaxAbs(num), Bit(Clipped(b, o.scale) > 0), Clipped(b, o.scale), Bit(Silent(b, o.scale)), Bit(NaNs(b) > 0), NaNs(b), Crossings(b)>>
  /\ IsRms(o.rms, Squares(b), Len(b))
  /\ IF b = <<>> THEN o.dc = 0 ELSE Near(o.dc * Len(b), SumSeq(num) * 1024, Len(b))
(* kinds of complaints: 1 no numbers, 2 clipping, 3 DC above a hundredth, 4 peak above one *)
Complaints(b) ==
  LET num == Numbers(b)
      dc == SumSeq(num) IN
  (IF NaNs(b) > 0 THEN <<<<1, NaNs(b)>>>> ELSE <<>>) \o (IF Clipped(b, 64) > 0 THEN <<<<2, Clipped(b, 64)>>>> ELSE <<>>)
  \o (IF b # <<>> /\ Abs(dc) * 100 > 64 * Len(b) THEN <<<<3, (dc * 1000) \div (64 * Len(b))>>>> ELSE <<>>)
  \o (IF MaxAbs(num) > 64 THEN <<<<4, (MaxAbs(num) * 1000) \div 64>>>> ELSE <<>>)
Check(o) == LET c == Complaints(o.b) IN
  /\ Len(o.got) = Len(c)
  /\ \A i \in 1..Len(c) : o.got[i][1] = c[i][1] /\ (IF c[i][1] <= 2 THEN o.got[i][2] = c[i][2] ELSE Near(o.got[i][2], c[i][2], 1))
  /\ res' = <<>>
(* the same as lines of the log: samples, peak, RMS, DC, silence, how many lines of information; clipped samples; no numbers *)
Stats(o) ==
  LET b == o.b
      num == Numbers(b)
      g == o.got IN
  /\ Len(g) = 8
  /\ g[1] = Len(b)
  /\ Near(g[2] * 64, MaxAbs(num) * 1000, 64)
  /\ LET q == (g[3] * 8192) \div 125 IN \E d \in -2..2 : IsRms(Max2(q + 32 * d, 0), Squares(b), Len(b))
  /\ IF b = <<>> THEN g[4] = 0 ELSE Near(g[4], (SumSeq(num) * 15625) \div Len(b), 2)
  /\ g[5] = Bit(Silent(b, 64)) /\ g[6] = 5 + g[5]
  /\ g[7] = Clipped(b, 64) /\ g[8] = NaNs(b)
  /\ res' = <<>>
(* what is no number differs from everything; from another of them as well *)
Apart(x, y) == IF x = NaN \/ y = NaN THEN NaN ELSE Abs(x - y)
Compare(o) ==
  IF Len(o.a) # Len(o.b) THEN res' = <<0, Len(o.a), Len(o.b)>>
  ELSE LET d == [i \in 1..Len(o.a) |-> Apart(o.a[i], o.b[i])]
           far == {i \in 1..Len(d) : d[i] > o.tol}
           num == SelectSeq(d, LAMBDA x : x > o.tol /\ x # NaN) IN
       IF far = {} THEN res' = <<1>>
       ELSE /\ Len(o.got) = 7 /\ res' = o.got
            /\ o.got[1] = 2 /\ o.got[2] = Cardinality(far) /\ o.got[3] = Len(o.a)
            /\ Near(o.got[4] * Len(o.a), 1000 * Cardinality(far), Len(o.a))
            /\ o.got[7] = o.tol
            /\ (Len(num) = Cardinality(far)) =>
                  /\ o.got[5] = MaxAbs(num)
                  /\ o.got[6] = (CHOOSE i \in far : d[i] = MaxAbs(num) /\ \A j \in far : d[j] = d[i] => j >= i) - 1
                  /\ Near(o.avg * Len(num), SumSeq(num) * 64, Len(num))
Toward0(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
(* a column for each group of samples, as high as their mean; the peak of the buffers drawn is one or zero *)
Draw(o) ==
  LET w == IF o.width <= 0 THEN 80 ELSE o.width
      len == Len(o.b)
      g == Max2(1, len \div w)
      cols == Min2(w, (len + g - 1) \div g)
      sum(i) == SumSeq(SubSeq(o.b, (i - 1) * g + 1, Min2(len, i * g)))
      cnt(i) == Min2(len, i * g) - (i - 1) * g
      h(i) == Toward0(sum(i) * 20, 64 * cnt(i)) IN
  res' = IF len = 0 THEN <<<<-1>>>> ELSE IF MaxAbs(o.b) = 0 THEN <<<<-2>>>>
         ELSE <<<<1000>>>> \o [i \in 1..cols |-> <<Max2(h(i), 0), Max2(-h(i), 0), 1, 41>>]
(* the place of a sample on a bar of 20 *)
Bar(x) == Min2(19, ((Clamp(x, -64, 64) + 64) * 20) \div 128)
Dump(o) ==
  LET len == Len(o.b)
      m == IF o.max <= 0 \/ o.max > len THEN len ELSE o.max IN
  res' = IF len = 0 THEN <<<<-1>>>>
         ELSE <<<<len, m>>>> \o [i \in 1..m |-> <<i - 1, o.b[i], o.b[i], Bar(o.b[i]), 20>>] \o (IF m < len THEN <<<<-2, len - m>>>> ELSE <<>>)
Do(o) == /\ n' = n + 1
         /\ CASE o.op = "analyze" -> Analyze(o)
              [] o.op = "check" -> Check(o)
              [] o.op = "stats" -> Stats(o)
              [] o.op = "compare" -> Compare(o)
              [] o.op = "print" -> Draw(o)
              [] o.op = "dump" -> Dump(o)
Invs == n >= 0
StepOK(o) == n' > n
=============================================================================
