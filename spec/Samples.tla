------------------------------ MODULE Samples -------------------------------
(***************************************************************************)
(* Operations on sample buffers: the memory m holds samples in units of    *)
(* 1/4096, a window [a, n] is the slice of n samples starting at a.  Gains *)
(* are in 1/16.  Every operation writes its destination window's common    *)
(* prefix with its sources and nothing else.  Source and destination may   *)
(* be the same window.  Results that no finite number of bits can hold are *)
(* recorded (o.y) and bounded instead of computed.                         *)
(***************************************************************************)
EXTENDS Ord
VARIABLES m, res
vars == <<m, res>>
Init == m = <<>> /\ res = <<>>
One == 4096

Mul(v, g) == (v * g) \div 16
Exact(v, g) == (v * g) % 16 = 0
In(w) == w.n >= 0 /\ w.a >= 1 /\ w.a + w.n - 1 <= Len(m)
Same(u, v) == u.a = v.a
Apart(u, v) == u.a + u.n <= v.a \/ v.a + v.n <= u.a
OkPair(d, s) == In(d) /\ In(s) /\ (Same(d, s) \/ Apart(d, s))
At(w, i) == m[w.a + i - 1]
Min3(a, b, c) == Min2(a, Min2(b, c))
(* the first n samples of window w become F(1..n); the rest of memory stays *)
Put(w, n, F(_)) == [i \in 1..Len(m) |-> IF i >= w.a /\ i < w.a + n THEN F(i - w.a + 1) ELSE m[i]]
Put2(w, v, n, F(_), G(_)) == [i \in 1..Len(m) |->
  IF i >= w.a /\ i < w.a + n THEN F(i - w.a + 1) ELSE IF i >= v.a /\ i < v.a + n THEN G(i - v.a + 1) ELSE m[i]]
W(x) == m' = x /\ res' = <<>>
Q(x) == res' = x /\ UNCHANGED m
AllExact(w, n, g) == \A i \in 1..n : Exact(At(w, i), g)

Mem(vals) == m' = vals /\ res' = <<>>
Dump == Q(m)

Clear(d) == In(d) /\ W(Put(d, d.n, LAMBDA i : 0))
Copy(d, s) == OkPair(d, s) /\ W(Put(d, Min2(d.n, s.n), LAMBDA i : At(s, i)))
AddScaled(d, s, g) == OkPair(d, s) /\ LET n == Min2(d.n, s.n) IN
  AllExact(s, n, g) /\ W(Put(d, n, LAMBDA i : At(d, i) + Mul(At(s, i), g)))
Scale(d, g) == In(d) /\ AllExact(d, d.n, g) /\ W(Put(d, d.n, LAMBDA i : Mul(At(d, i), g)))
ScaleTo(s, g, d) == OkPair(d, s) /\ LET n == Min2(d.n, s.n) IN
  AllExact(s, n, g) /\ W(Put(d, n, LAMBDA i : Mul(At(s, i), g)))
(* a*(1-g) + b*g *)
Blend(a, b, g, d) == OkPair(d, a) /\ OkPair(d, b) /\ LET n == Min3(a.n, b.n, d.n) IN
  /\ AllExact(a, n, 16 - g) /\ AllExact(b, n, g)
  /\ W(Put(d, n, LAMBDA i : Mul(At(a, i), 16 - g) + Mul(At(b, i), g)))
Clip(d, lim) == In(d) /\ W(Put(d, d.n, LAMBDA i : Clamp(At(d, i), -lim, lim)))
RECURSIVE MaxAbs(_, _)
MaxAbs(w, i) == IF i > w.n THEN 0 ELSE Max2(Abs(At(w, i)), MaxAbs(w, i + 1))
Peak(w) == In(w) /\ Q(<<MaxAbs(w, 1)>>)
RECURSIVE SumSq(_, _)
SumSq(w, i) == IF i > w.n THEN 0 ELSE (At(w, i) \div 256) * (At(w, i) \div 256) + SumSq(w, i + 1)
(* r is the root mean square in 1/256, rounded down *)
Rms(w, r) == /\ In(w) /\ \A i \in 1..w.n : At(w, i) % 256 = 0 /\ Abs(At(w, i)) <= 32 * 256
             /\ IF w.n = 0 THEN r = 0
                ELSE LET q == 256 * SumSq(w, 1) IN (r <= 1 \/ (r - 1) * (r - 1) * w.n <= q) /\ q <= (r + 2) * (r + 2) * w.n
             /\ Q(<<r>>)
(* linear fade from g to h over the window; the step must be exact *)
Fade(d, g, h) == In(d) /\
  IF d.n <= 1 THEN AllExact(d, d.n, g) /\ W(Put(d, d.n, LAMBDA i : Mul(At(d, i), g)))
  ELSE /\ (16 * (h - g)) % (d.n - 1) = 0
       /\ LET G(i) == 16 * g + ((16 * (h - g)) \div (d.n - 1)) * (i - 1) IN
          /\ \A i \in 1..d.n : (At(d, i) * G(i)) % 256 = 0
          /\ W(Put(d, d.n, LAMBDA i : (At(d, i) * G(i)) \div 256))
(* sums: every source adds its own length, the destination is overwritten *)
RECURSIVE SumAt(_, _, _, _)
SumAt(ss, gs, i, k) == IF k > Len(ss) THEN 0
  ELSE (IF i <= ss[k].n THEN Mul(At(ss[k], i), IF k <= Len(gs) THEN gs[k] ELSE 16) ELSE 0) + SumAt(ss, gs, i, k + 1)
Sum(ss, gs, d) ==
  /\ In(d) /\ \A k \in 1..Len(ss) : In(ss[k]) /\ Apart(ss[k], d) /\ AllExact(ss[k], ss[k].n, IF k <= Len(gs) THEN gs[k] ELSE 16)
  /\ IF ss = <<>> THEN W(m) ELSE W(Put(d, d.n, LAMBDA i : SumAt(ss, gs, i, 1)))

(* soft clipping: unchanged inside the threshold, same sign and bounded outside *)
SoftClip(kind, d, lim, y) ==
  /\ In(d) /\ Len(y) = d.n
  /\ \A i \in 1..d.n : LET x == At(d, i) IN
       /\ Abs(x) <= lim => y[i] = x
       /\ Abs(x) > lim => /\ (x > 0 => y[i] >= 0) /\ (x < 0 => y[i] <= 0)
                          /\ IF kind = "dsp" THEN Abs(y[i]) <= One + 1 /\ Abs(y[i]) >= lim ELSE Abs(y[i]) <= lim + 1
       /\ kind = "dsp" => \A j \in 1..d.n : x <= At(d, j) => y[i] <= y[j]
  /\ W(Put(d, d.n, LAMBDA i : y[i]))

(* stereo placement *)
PanTo(s, p, dl, dr) ==     \* linear law, p in -16..16
  /\ In(s) /\ In(dl) /\ In(dr) /\ Apart(dl, dr) /\ Apart(s, dr) /\ Apart(s, dl)
  /\ LET n == Min3(s.n, dl.n, dr.n) IN
     /\ \A i \in 1..n : (At(s, i) * (16 - p)) % 32 = 0 /\ (At(s, i) * (16 + p)) % 32 = 0
     /\ W(Put2(dl, dr, n, LAMBDA i : (At(s, i) * (16 - p)) \div 32, LAMBDA i : (At(s, i) * (16 + p)) \div 32))
Stereo(l, r, dl, dr) == /\ In(l) /\ In(r) /\ In(dl) /\ In(dr)
                        /\ (Same(l, dl) \/ Apart(l, dl)) /\ (Same(r, dr) \/ Apart(r, dr))
                        /\ Apart(l, dr) /\ Apart(r, dl) /\ Apart(dl, dr) /\ Apart(l, r)
Min4(a, b, c, d) == Min2(Min2(a, b), Min2(c, d))
StereoPan(l, r, p, dl, dr) ==      \* linear law: only the far channel is turned down
  /\ Stereo(l, r, dl, dr)
  /\ LET n == Min4(l.n, r.n, dl.n, dr.n) IN
     /\ \A i \in 1..n : (At(l, i) * (16 - p)) % 32 = 0 /\ (At(r, i) * (16 + p)) % 32 = 0
     /\ W(Put2(dl, dr, n, LAMBDA i : IF p > 0 THEN (At(l, i) * (16 - p)) \div 32 ELSE At(l, i),
                          LAMBDA i : IF p < 0 THEN (At(r, i) * (16 + p)) \div 32 ELSE At(r, i)))
Balance(l, r, b, dl, dr) ==
  /\ Stereo(l, r, dl, dr)
  /\ LET n == Min4(l.n, r.n, dl.n, dr.n)
         gl == IF b > 0 THEN 16 - b ELSE 16
         gr == IF b < 0 THEN 16 + b ELSE 16 IN
     /\ AllExact(l, n, gl) /\ AllExact(r, n, gr)
     /\ W(Put2(dl, dr, n, LAMBDA i : Mul(At(l, i), gl), LAMBDA i : Mul(At(r, i), gr)))
Width(l, r, w, dl, dr) ==
  /\ Stereo(l, r, dl, dr)
  /\ LET n == Min4(l.n, r.n, dl.n, dr.n)
         A(i) == 16 * (At(l, i) + At(r, i))
         B(i) == w * (At(l, i) - At(r, i)) IN
     /\ \A i \in 1..n : (A(i) + B(i)) % 32 = 0 /\ (A(i) - B(i)) % 32 = 0
     /\ W(Put2(dl, dr, n, LAMBDA i : (A(i) + B(i)) \div 32, LAMBDA i : (A(i) - B(i)) \div 32))

(* gains of the panning laws, in 1/4096: y = <<left, right>> at p and at -p *)
PanGains(law, p, y) ==
  /\ Abs(y[1] - y[4]) <= 1 /\ Abs(y[2] - y[3]) <= 1               \* mirror image
  /\ \A i \in 1..4 : y[i] \in 0..(One + 1)
  /\ p = -16 => Abs(y[2]) <= 1
  /\ p = 16 => Abs(y[1]) <= 1
  /\ law = 0 => y[1] = (16 - p) * 128 /\ y[2] = (16 + p) * 128
  (* constant power: l*l + r*r = 1 *)
  /\ law = 1 => Abs(y[1] * y[1] + y[2] * y[2] - One * One) <= 4 * One
  (* balanced: 0.841 of that at the center *)
  /\ law = 2 => LET c == One - (16 * (256 - p * p) * 159) \div 1000 IN Abs(y[1] * y[1] + y[2] * y[2] - c * c) <= 4 * One
  /\ (p > 0 => y[2] >= y[1]) /\ (p < 0 => y[1] >= y[2])
  /\ Q(y)
(* equal-power crossfade of a and b at position g: power of the gains is 1 *)
EqualPower(g, y) ==
  /\ Abs(y[1] * y[1] + y[2] * y[2] - One * One) <= 4 * One
  /\ y[1] \in -1..(One + 1) /\ y[2] \in -1..(One + 1)
  /\ (g = 0 => y[1] = One /\ Abs(y[2]) <= 1) /\ (g = 16 => Abs(y[1]) <= 1 /\ y[2] = One)
  /\ (g = 8 => Abs(y[1] - y[2]) <= 1)
  /\ Q(y)
(* decibels: x and x2 in 1/1000 dB; y = <<there and back of x, order of the linear values, zero?>> *)
Decibels(x, x2, y) ==
  /\ Abs(y[1] - (IF x <= -200000 THEN -200000 ELSE x)) <= 20
  /\ y[2] = (IF x <= -200000 /\ x2 <= -200000 THEN 0 ELSE IF x < x2 THEN -1 ELSE IF x > x2 THEN 1 ELSE 0)
  /\ y[3] = (x <= -200000)
  /\ (x = 0 => y[4] = One) /\ (x = -6021 => Abs(y[4] - One \div 2) <= 1) /\ (x = 20000 => Abs(y[4] - 10 * One) <= 4)
  /\ Q(y)

Do(o) ==
  \/ o.op = "mem" /\ Mem(o.v)
  \/ o.op = "dump" /\ Dump
  \/ o.op = "clear" /\ Clear(o.d)
  \/ o.op = "copy" /\ Copy(o.d, o.s)
  \/ o.op = "add" /\ AddScaled(o.d, o.s, 16)
  \/ o.op = "addscaled" /\ AddScaled(o.d, o.s, o.g)
  \/ o.op = "scale" /\ Scale(o.d, o.g)
  \/ o.op = "scaleto" /\ ScaleTo(o.s, o.g, o.d)
  \/ o.op = "mix" /\ Blend(o.s, o.s2, o.g, o.d)
  \/ o.op = "drywet" /\ Blend(o.d, o.s2, o.g, o.d)
  \/ o.op = "clip" /\ Clip(o.d, o.lim)
  \/ o.op = "peak" /\ Peak(o.d)
  \/ o.op = "rms" /\ Rms(o.d, o.y)
  \/ o.op = "fade" /\ Fade(o.d, o.g, o.h)
  \/ o.op = "sum" /\ Sum(o.ss, o.gs, o.d)
  \/ o.op = "softclip" /\ SoftClip(o.k, o.d, o.lim, o.y)
  \/ o.op = "pan" /\ PanTo(o.s, o.p, o.d, o.d2)
  \/ o.op = "panstereo" /\ StereoPan(o.s, o.s2, o.p, o.d, o.d2)
  \/ o.op = "balance" /\ Balance(o.s, o.s2, o.p, o.d, o.d2)
  \/ o.op = "width" /\ Width(o.s, o.s2, o.g, o.d, o.d2)
  \/ o.op = "pangains" /\ PanGains(o.law, o.p, o.y)
  \/ o.op = "equalpower" /\ EqualPower(o.g, o.y)
  \/ o.op = "db" /\ Decibels(o.x, o.x2, o.y)
Invs == TRUE
(* only destination windows are written, and never past their end *)
Dest(o) == CASE o.op \in {"clear", "copy", "add", "addscaled", "scale", "scaleto", "mix", "drywet", "clip", "fade", "sum", "softclip"}
                  -> (o.d.a)..(o.d.a + o.d.n - 1)
             [] o.op \in {"pan", "panstereo", "balance", "width"}
                  -> (o.d.a)..(o.d.a + o.d.n - 1) \cup (o.d2.a)..(o.d2.a + o.d2.n - 1)
             [] OTHER -> {}
StepOK(o) == o.op # "mem" => /\ Len(m') = Len(m)
                             /\ \A i \in 1..Len(m) : i \in Dest(o) \/ m'[i] = m[i]
=============================================================================
