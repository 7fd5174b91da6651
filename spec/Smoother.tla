------------------------------ MODULE Smoother ------------------------------
(***************************************************************************)
(* Smoothed parameters managed by id, plus bare smoothers.                 *)
(* Plain values are counted in units of 2^-20; a parameter's plain value   *)
(* for the normalised v/64 is lo + k * v.                                  *)
(*   lin  moves by an equal step per call and lands on the target after    *)
(*        rate calls; exp covers (64 - rate)/64 of the way per call and    *)
(*        lands when closer than the threshold; log moves by equal ratios  *)
(*        and lands after rate calls, with a thousandth in place of less.  *)
(***************************************************************************)
EXTENDS Ord
VARIABLES sm, res
vars == <<sm, res>>
U == 1048576
DefThr == 105      \* 0.0001 in units, rounded up: |d| < DefThr
Init == sm = <<>> /\ res = <<>>
Put(f, x, y) == (x :> y) @@ f
Has(i) == i \in DOMAIN sm

(* bare: a smoother without a parameter (k = 0); starts at 0 *)
New(i, kind, rate, lo, k, v, bare) ==
  /\ sm' = Put(sm, i, [kind |-> kind, rate |-> rate, lo |-> lo, k |-> k, v |-> v, bare |-> bare,
                       cur |-> IF bare THEN 0 ELSE (lo + k * v) * U, tgt |-> IF bare THEN 0 ELSE (lo + k * v) * U,
                       step |-> 0, left |-> 0, p0 |-> -1, from |-> 0, act |-> FALSE, thr |-> DefThr, on |-> TRUE])
  /\ res' = <<>>

Retarget(s, t) ==
  IF Abs(t - s.tgt) < s.thr THEN s
  ELSE [s EXCEPT !.tgt = t, !.act = TRUE, !.left = Max2(s.rate, 1), !.p0 = -1, !.from = s.cur,
                 !.step = IF s.kind = "lin" /\ s.rate > 0 THEN (t - s.cur) \div s.rate ELSE 0]
Jump(s, x) == [s EXCEPT !.cur = x, !.tgt = x, !.act = FALSE]

(* one call of the smoother; y is the value a log smoother produced *)
Adv(s, y) ==
  IF ~s.act THEN s
  ELSE CASE s.kind = "lin" ->
              LET c == s.cur + s.step IN
              IF s.step = 0 \/ (s.step > 0 /\ c >= s.tgt) \/ (s.step < 0 /\ c <= s.tgt)
              THEN [s EXCEPT !.cur = s.tgt, !.act = FALSE] ELSE [s EXCEPT !.cur = c]
         [] s.kind = "exp" ->
              LET d == s.tgt - s.cur
                  c == s.cur + IF s.rate = 0 THEN d ELSE (d \div 64) * (64 - s.rate) + ((d % 64) * (64 - s.rate)) \div 64 IN
              IF Abs(s.tgt - c) < s.thr THEN [s EXCEPT !.cur = s.tgt, !.act = FALSE] ELSE [s EXCEPT !.cur = c]
         [] s.kind = "log" -> [s EXCEPT !.cur = y, !.left = @ - 1, !.p0 = s.cur, !.act = (y # s.tgt)]
(* three values with equal ratios, each a unit off at most *)
Least == 1049      \* a thousandth
Halves == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
Even(a, b, c) == LET k == Halves[CHOOSE k \in DOMAIN Halves : Max2(a, c) \div Halves[k] < 32768 /\ (k = 1 \/ Max2(a, c) \div Halves[k - 1] >= 32768)]
                     x == a \div k
                     y == b \div k
                     z == c \div k IN Abs((y * y) - (x * z)) <= x + z + 2 * y + 2
LogOK(s, y) ==
  s.kind = "log" =>
    IF ~s.act THEN y = s.cur
    ELSE /\ Min2(s.cur, s.tgt) <= y /\ y <= Max2(s.cur, s.tgt)
         /\ s.left <= 0 => y = s.tgt     \* one call of slack for rounding
         /\ (s.left > 1 /\ Abs(s.tgt - s.from) > 64 * s.rate /\ Max2(s.from, s.tgt) > Least) => y # s.tgt
         /\ (s.p0 >= 0 /\ s.left > 0 /\ (y # s.tgt \/ y >= Least)) => Even(Max2(s.p0, Least), s.cur, y)

(* bare smoothers *)
SetTarget(i, t) == sm' = [sm EXCEPT ![i] = Retarget(@, t)] /\ res' = <<>>
Reset(i, x) == sm' = [sm EXCEPT ![i] = Jump(@, x)] /\ res' = <<>>
Next(i, y) == LET s == sm[i] IN
  /\ LogOK(s, y)
  /\ sm' = [sm EXCEPT ![i] = Adv(s, y)]
  /\ res' = <<sm'[i].cur, IF sm'[i].act THEN 1 ELSE 0>>
(* a buffer of n values: the callback sees successive values *)
RECURSIVE Run(_, _, _)
Run(s, ys, k) == IF k > Len(ys) THEN <<TRUE, <<>>, s>>
                 ELSE LET t == Adv(s, ys[k])
                          r == Run(t, ys, k + 1) IN <<LogOK(s, ys[k]) /\ r[1], <<t.cur>> \o r[2], r[3]>>
(* ys: the values a log smoother produced *)
Process(i, n, ys) == LET r == Run(sm[i], IF sm[i].kind = "log" THEN ys ELSE [k \in 1..n |-> 0], 1) IN
                     /\ r[1] = TRUE /\ Len(r[2]) = n /\ res' = r[2] /\ sm' = [sm EXCEPT ![i] = r[3]]
Thr(i, t) == sm' = [sm EXCEPT ![i].thr = t] /\ res' = <<>>
(* a rate given as a time of us microseconds at a sample rate, together a whole number of samples *)
Time(i, sr, us) == /\ sm[i].kind # "exp" /\ (sr * us) % 1000000 = 0
                   /\ sm' = [sm EXCEPT ![i].rate = (sr * us) \div 1000000] /\ res' = <<>>
(* exponential smoothing leaves a thousandth of the way after the time it was given, and the root of that after half of it *)
Fall(o) == /\ UNCHANGED sm /\ res' = <<>>
           /\ LET len == (o.sr * o.us) \div 1000000 IN IF o.n = len THEN Abs(o.y - 1048) <= 3 ELSE 2 * o.n = len /\ Abs(o.y - 33155) <= 40
Rate(i, r) == sm' = [sm EXCEPT ![i].rate = r] /\ res' = <<>>

(* smoothed parameters *)
Plain(s) == (s.lo + s.k * s.v) * U
Follow(s) == IF s.on THEN Retarget(s, Plain(s)) ELSE s
SetV(i, x) == sm' = (IF Has(i) THEN [sm EXCEPT ![i] = Follow([@ EXCEPT !.v = Clamp(x, 0, 64)])] ELSE sm) /\ res' = <<>>
(* the plain value p is on the grid of the range, or outside *)
SetP(i, p) == LET s == sm[i]
                  v == IF p <= s.lo THEN 0 ELSE IF p >= s.lo + 64 * s.k THEN 64 ELSE (p - s.lo) \div s.k IN
              sm' = [sm EXCEPT ![i] = Follow([@ EXCEPT !.v = v])] /\ res' = <<>>
Get(i, y) ==
  IF ~Has(i) THEN res' = <<0>> /\ UNCHANGED sm
  ELSE LET s == sm[i] IN
       /\ s.on => LogOK(s, y)
       /\ sm' = [sm EXCEPT ![i] = IF s.on THEN Adv(s, y) ELSE s]
       /\ res' = <<IF s.on THEN sm'[i].cur ELSE Plain(s)>>
All == sm' = [i \in DOMAIN sm |-> IF ~sm[i].bare /\ sm[i].on THEN Adv(sm[i], 0) ELSE sm[i]] /\ res' = <<>>
Enable(i, b) == sm' = (IF ~Has(i) THEN sm
                       ELSE [sm EXCEPT ![i] = IF b /\ @.on THEN @ ELSE [Jump(@, Plain(@)) EXCEPT !.on = b]]) /\ res' = <<>>
Value(i) == res' = <<sm[i].v>> /\ UNCHANGED sm

Bare(i) == Has(i) /\ sm[i].bare
Par(i) == Has(i) /\ ~sm[i].bare
Do(o) ==
  \/ o.op = "new" /\ New(o.i, o.kind, o.rate, o.lo, o.k, o.v, o.bare)
  \/ o.op = "target" /\ Bare(o.i) /\ SetTarget(o.i, o.x)
  \/ o.op = "reset" /\ Bare(o.i) /\ Reset(o.i, o.x)
  \/ o.op = "next" /\ Bare(o.i) /\ Next(o.i, o.y)
  \/ o.op = "process" /\ Bare(o.i) /\ Process(o.i, o.n, o.ys)
  \/ o.op = "thr" /\ Bare(o.i) /\ Thr(o.i, o.x)
  \/ o.op = "rate" /\ Has(o.i) /\ Rate(o.i, o.r)
  \/ o.op = "time" /\ Par(o.i) /\ Time(o.i, o.sr, o.us)
  \/ o.op = "fall" /\ Fall(o)
  \/ o.op = "setv" /\ ~Bare(o.i) /\ SetV(o.i, o.x)
  \/ o.op = "setp" /\ Par(o.i) /\ SetP(o.i, o.p)
  \/ o.op = "get" /\ ~Bare(o.i) /\ Get(o.i, o.y)
  \/ o.op = "all" /\ All
  \/ o.op = "enable" /\ ~Bare(o.i) /\ Enable(o.i, o.b)
  \/ o.op = "value" /\ Par(o.i) /\ Value(o.i)

(* not smoothing means being there; a smoothed parameter heads for its parameter *)
Invs == \A i \in DOMAIN sm : LET s == sm[i] IN
  /\ ~s.act => s.cur = s.tgt
  /\ (~s.bare /\ s.on) => Abs(s.tgt - Plain(s)) < s.thr
(* never past the target, never a jump before landing *)
Dist(s) == Abs(s.tgt - s.cur)
StepOK(o) ==
  /\ o.op \in {"next", "get", "all", "process"} => \A i \in DOMAIN sm :
        /\ Dist(sm'[i]) <= Dist(sm[i])
        /\ sm'[i].tgt = sm[i].tgt
        /\ Min2(sm[i].cur, sm[i].tgt) <= sm'[i].cur /\ sm'[i].cur <= Max2(sm[i].cur, sm[i].tgt)
  /\ o.op \in {"setv", "setp", "target", "rate", "time", "thr"} => \A i \in DOMAIN sm : sm'[i].cur = sm[i].cur
=============================================================================
