----------------------------- MODULE StereoImage -----------------------------
(***************************************************************************)
(* How the two channels of a signal go together: the correlation meter     *)
(* and the phase scope.                                                    *)
(*                                                                         *)
(* Samples are in quarters; results in 1/2^20 (angles in 1/2^20 of a       *)
(* quarter turn).  w holds the last samples of both channels, oldest       *)
(* first; hc the numbers of samples the worst correlation seen may still   *)
(* be held, of which there is more than one only where two of them tie.    *)
(***************************************************************************)
EXTENDS Fix
VARIABLES kind, p, w, corr, worst, hc, res
vars == <<kind, p, w, corr, worst, hc, res>>
Init == kind = "" /\ p = [x |-> 0] /\ w = <<>> /\ corr = 0 /\ worst = One /\ hc = {0} /\ res = <<>>
New(k, q) == kind' = k /\ p' = q /\ w' = <<>> /\ corr' = 0 /\ worst' = One /\ hc' = {0} /\ res' = <<>>
Set(n, x) == /\ kind # "" /\ p' = [p EXCEPT ![n] = x] /\ res' = <<>> /\ UNCHANGED <<kind, w, corr, worst, hc>>
Reset == kind # "" /\ w' = <<>> /\ corr' = 0 /\ worst' = One /\ hc' = {0} /\ res' = <<>> /\ UNCHANGED <<kind, p>>
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Left(s) == [i \in 1..Len(s) |-> s[i][1]]
Right(s) == [i \in 1..Len(s) |-> s[i][2]]
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
(* n^2 times the covariance *)
Cov(a, b) == Len(a) * Dot(a, b) - SumSeq(a) * SumSeq(b)
(* the correlation of the samples s; a silent channel goes with a silent one only *)
Corr(s) ==
  LET a == Left(s)
      b == Right(s)
      va == Cov(a, a)
      vb == Cov(b, b)
      c == Cov(a, b) IN
  IF va = 0 \/ vb = 0 THEN (IF va = vb THEN One ELSE 0)
  ELSE LET q == Min2(One, Div(Abs(c) * 2048, Sqrt30(va * vb * 4096))) IN IF c < 0 THEN -q ELSE q
Tol == 600
(* which of the five descriptions fits a correlation: 0 in phase ... 4 out of phase *)
Status(c) == IF c > 943718 THEN 0 ELSE IF c > 524288 THEN 1 ELSE IF c > -524288 THEN 2 ELSE IF c > -943718 THEN 3 ELSE 4
(* got: the averaged correlation, the worst, the description, the mono compatibility *)
Correlate(xs, g) ==
  LET v == Last(w \o xs, p.size)
      full == Len(v) = p.size
      now == Corr(v)
      n == Len(xs) IN
  /\ kind = "corr" /\ w' = v
  /\ IF ~full THEN g[1] = corr /\ g[2] = worst /\ UNCHANGED <<corr, worst, hc>>
     ELSE /\ Near(g[1], (corr * p.avg + now * (8 - p.avg)) \div 8, Tol)
          /\ corr' = g[1] /\ worst' = g[2]
          /\ LET takes == now <= worst + Tol /\ Near(g[2], now, Tol)
                 left == {c - n : c \in {c \in hc : IF c - n <= 0 THEN g[2] = g[1] ELSE g[2] = worst}}
                 keeps == now >= worst - Tol /\ left # {} IN
             /\ takes \/ keeps
             /\ hc' = (IF takes THEN {p.hold} ELSE {}) \cup (IF keeps THEN {Max2(0, c) : c \in left} ELSE {})
  /\ g[1] \in -One..One /\ g[3] \in {Status(g[1] - 1), Status(g[1]), Status(g[1] + 1)}
  /\ Near(g[4], (g[1] + One) \div 2, 1)
  /\ res' = g /\ UNCHANGED <<kind, p>>
(* blocks of different lengths are no signal *)
Ragged(g) == kind # "" /\ res' = g /\ g = <<>> /\ UNCHANGED <<kind, p, w, corr, worst, hc>>

(* ---- the scope: w holds <<left, right, x, y, brightness>> ---- *)
Half == 741455 \* 2^20 / sqrt 2
Point(a) == LET x == a[1] * p.scale * 65536   \* quarters times quarters
                y == a[2] * p.scale * 65536 IN
            IF p.mode = 1 THEN <<a[1], a[2], Mul(x, Half) - Mul(y, Half), Mul(x, Half) + Mul(y, Half), One>> ELSE <<a[1], a[2], x, y, One>>
(* the new points are bright, the old ones fade *)
Scope(xs) ==
  /\ kind = "scope"
  /\ w' = Last([i \in 1..Len(w) |-> [w[i] EXCEPT ![5] = Mul(@, p.decay)]] \o [i \in 1..Len(xs) |-> Point(xs[i])], p.size)
  /\ res' = <<>> /\ UNCHANGED <<kind, p, corr, worst, hc>>
Points(g) ==
  /\ kind = "scope" /\ Len(g) = Len(w)
  /\ \A i \in 1..Len(w) : Near(g[i][1], w[i][3], 3) /\ Near(g[i][2], w[i][4], 3) /\ Near(g[i][3], w[i][5], 10)
  /\ res' = g /\ UNCHANGED <<kind, p, w, corr, worst, hc>>
(* y/x for 0 <= y <= x as an angle, in quarter turns *)
Atan(y, x) == LET q == Div(y, x)
                  i == q \div 1024 IN AtanT[i + 1] + ((AtanT[i + 2] - AtanT[i + 1]) * (q % 1024)) \div 1024
Angle1(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE IF y <= x THEN Atan(y, x) ELSE One - Atan(x, y)
(* AtanT is 2/pi of the arcus tangens: an eighth of a turn is One/2 *)
Angle(x, y) == LET a == Angle1(Abs(x), Abs(y))
                   b == IF x < 0 THEN 2 * One - a ELSE a IN IF y < 0 THEN -b ELSE b
(* the square root of a sum of squares of quarters *)
Radius(n) == Sqrt30(n * 65536) * 32   \* sqrt(n/2^14) * 2^20 * 2^5 = sqrt(n)/4 * 2^20
Polar(g) ==
  /\ kind = "scope" /\ Len(g) = Len(w)
  /\ \A i \in 1..Len(w) : /\ Near(g[i][1], (Radius(w[i][1] * w[i][1] + w[i][2] * w[i][2]) * p.scale) \div 4, 200)
                          /\ Near(g[i][2], Angle(w[i][1], w[i][2]), 40)
                          /\ Near(g[i][3], w[i][5], 10)
  /\ res' = g /\ UNCHANGED <<kind, p, w, corr, worst, hc>>
RECURSIVE MaxR(_)
MaxR(s) == IF s = <<>> THEN 0 ELSE Max2(s[1][1] * s[1][1] + s[1][2] * s[1][2], MaxR(Tail(s)))
Quarter == 411775  \* pi/8 in 1/2^20
(* got: the averages of mid and side, the width, the greatest radius, the angle, the concentration *)
Stats(g) ==
  LET n == Len(w)
      m == SumSeq([i \in 1..n |-> Abs(w[i][1] + w[i][2])])
      s == SumSeq([i \in 1..n |-> Abs(w[i][1] - w[i][2])])
      v == SelectSeq(w, LAMBDA a : a[1] # 0 \/ a[2] # 0)
      k == Len(v)
      as == [i \in 1..k |-> Angle(v[i][1], v[i][2])]
      mean == SumSeq(as) \div k
      (* the mean distance squared, in quarter turns, divided by 4 *)
      var == SumSeq([i \in 1..k |-> Mul(as[i] - mean, (as[i] - mean) \div 4)]) \div k
      dev == 2 * Sqrt30(Min2(var, One - 1) * 1024)
      (* the deviation in radians, divided by 4 *)
      rad == Mul(dev, Quarter) IN
  /\ kind = "scope"
  /\ IF n = 0 THEN g = <<0, 0, 0, 0, 0, 0>>
     ELSE /\ Near(g[1], (m * 131072) \div n, 2) /\ Near(g[2], (s * 131072) \div n, 2)
          /\ IF m = 0 THEN g[3] = 0 ELSE Near(g[3], Div(s, m), 2)
          /\ Near(g[4], Radius(MaxR(w)), 200)
          /\ IF k = 0 THEN g[5] = 0 /\ g[6] = 0
             ELSE Near(g[5], mean, 40) /\ Near(g[6], Div(One \div 4, (One \div 4) + rad), 1200 + (IF var < 4096 THEN 60000 ELSE 0))
  /\ res' = g /\ UNCHANGED <<kind, p, w, corr, worst, hc>>
Do(o) == CASE o.op = "new" -> New(o.kind, IF o.kind = "corr" THEN [size |-> o.size, hold |-> o.hold, avg |-> o.avg]
                                          ELSE [size |-> o.size, mode |-> o.mode, decay |-> 996147, scale |-> 4])
           [] o.op = "set" -> Set(o.n, IF o.n = "decay" THEN o.x * 131072 ELSE o.x)
           [] o.op = "reset" -> Reset
           [] o.op = "corr" -> Correlate(o.xs, o.got)
           [] o.op = "ragged" -> Ragged(o.got)
           [] o.op = "scope" -> Scope(o.xs)
           [] o.op = "points" -> Points(o.got)
           [] o.op = "polar" -> Polar(o.got)
           [] o.op = "stats" -> Stats(o.got)
Invs == kind = "corr" => corr \in -One..One /\ worst \in -One..One /\ hc # {}
StepOK(o) == o.op \in {"points", "polar", "stats", "ragged"} => w' = w
=============================================================================
