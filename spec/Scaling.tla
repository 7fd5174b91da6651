------------------------------- MODULE Scaling -------------------------------
(***************************************************************************)
(* Mapping normalized parameters to ranges and back, by lines, powers and  *)
(* steps, and smoothing what comes out.                                    *)
(*                                                                         *)
(* Ends of ranges are in 1/64, normalized values in 1/1024 (in 1/256 or as *)
(* powers of two where powers are taken), results in 1/2^20.               *)
(***************************************************************************)
EXTENDS Fix
VARIABLES p, res
vars == <<p, res>>
Init == p = [c |-> 0] /\ res = <<>>
R(x) == x * 16384
Line(n, a, b) == R(a) + (R(b - a) \div 1024) * n + ((R(b - a) % 1024) * n) \div 1024
(* 2^(n/256) in 1/2^20 *)
Two(n) == Shift(AmpT[n % 256], n \div 256)
(* from a to a 2^k *)
Expo(n, a, k) == Mul(R(a), Two(n * k))
Tol(y) == 4 + Abs(y) \div 131072
Frac(a, c) == IF (a < 0) = (c < 0) THEN Div(Abs(a), Abs(c)) ELSE -Div(Abs(a), Abs(c))
Round(x, s) == IF x < 0 THEN -((-x + s \div 2) \div s) ELSE (x + s \div 2) \div s
(* on one of the steps, and no other is nearer; x in 1/1024 *)
Nearest(y, x, steps) == LET k == Round(y * (steps - 1), One) IN Near(y, Round(k * One, steps - 1), 2) /\ 2 * Abs(x * (steps - 1) - 1024 * k) <= 1024
Fn(o) ==
  /\ res' = <<>> /\ UNCHANGED p
  /\ CASE o.f = "scale" -> Near(o.y, Line(o.x, o.a, o.b), 2)
       [] o.f \in {"unscale", "unline"} -> IF o.a = o.b THEN o.y = 0 ELSE Near(o.y, Frac(o.x - o.a, o.b - o.a), 2)
       [] o.f = "exp" -> Near(o.y, Expo(o.x, o.a, o.k), Tol(o.y)) \* x in 1/256
       [] o.f = "expline" -> Near(o.y, Line(o.x, o.a, o.b), 2) \* no powers through zero
       [] o.f = "unexp" -> Near(o.y, IF o.k = 0 THEN 0 ELSE Frac(o.x, 256 * o.k), 4) \* the value is a 2^(x/256)
       [] o.f = "clamp" -> o.y = R(Clamp(o.x, o.a, o.b))
       [] o.f = "curve" -> Near(o.y, IF o.x < 0 THEN R(o.a) ELSE R(o.a) + Mul(R(o.b - o.a), Two(-16 * o.x * o.k)), 4 + Abs(o.b - o.a) \div 32) \* 2^-x (or 0) to the k/16
       [] o.f = "skew" -> Near(o.y, IF o.x < 0 THEN 0 ELSE Two(-((256 * o.x * 4) \div o.k)), 4) \* 2^-x (or 0) to the 4/k
       [] o.f = "quantize" -> IF o.k <= 1 THEN o.y = o.x * 1024 ELSE Nearest(o.y, o.x, o.k)
       [] o.f = "tobi" -> o.y = 2048 * o.x - One
       [] o.f = "touni" -> o.y = 512 * o.x + One \div 2
(* an exponential approach: the time constant is n/10 samples *)
New(n) == p' = [c |-> Exp1[n], v |-> 0, t |-> 0] /\ res' = <<>>
Target(x) == p.c # 0 /\ p' = [p EXCEPT !.t = x * 1024] /\ res' = <<>>
Jump(x) == p.c # 0 /\ p' = [p EXCEPT !.v = x * 1024, !.t = x * 1024] /\ res' = <<>>
RECURSIVE Run(_, _)
Run(v, ys) == IF ys = <<>> THEN <<TRUE, v>> ELSE IF Near(Head(ys), Toward(p.t, v, p.c), 4) THEN Run(Head(ys), Tail(ys)) ELSE <<FALSE, v>>
Process(ys) == p.c # 0 /\ res' = <<>> /\ LET r == Run(p.v, ys) IN r[1] = TRUE /\ p' = [p EXCEPT !.v = r[2]]
(* the value and whether it still moves *)
Current == p.c # 0 /\ UNCHANGED p /\ \E moving \in (IF p.v = p.t THEN {FALSE} ELSE IF Abs(p.v - p.t) >= 2 THEN {TRUE} ELSE BOOLEAN) : res' = <<p.v, moving>>
Do(o) ==
  \/ o.op = "fn" /\ Fn(o)
  \/ o.op = "smooth" /\ New(o.n)
  \/ o.op = "target" /\ Target(o.x)
  \/ o.op = "jump" /\ Jump(o.x)
  \/ o.op = "process" /\ Process(o.y)
  \/ o.op = "current" /\ Current
Invs == TRUE
StepOK(o) == o.op \in {"fn", "current"} => p' = p

\* --- maps meet both ends, and powers are what they are for whole exponents ---
ASSUME \A a, b \in {-640, 0, 64, 1000} : Line(0, a, b) = R(a) /\ Line(1024, a, b) = R(b)
ASSUME \A k \in -4..4 : Expo(0, 64, k) = One /\ (k >= 0 => Expo(256, 64, k) = Shift(One, k)) /\ Near(Mul(Expo(128, 64, k), Expo(128, 64, k)), Shift(One, k), 32)
=============================================================================
