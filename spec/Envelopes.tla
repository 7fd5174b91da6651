------------------------------ MODULE Envelopes ------------------------------
(***************************************************************************)
(* Envelope generators and envelope detectors, one sample at a time.       *)
(* Values are in 1/2^20, times in tenths of a sample, input samples in     *)
(* 1/1024 * 2^-g.  v is the last value that came out; a sample is accepted *)
(* when it is the specified step from the last one (within rounding).      *)
(* The stage an ADSR envelope is in follows from what came out; what is    *)
(* left of a detector's hold time is only known up to a set.               *)
(***************************************************************************)
EXTENDS Fix
VARIABLES kind, p, stage, v, hcs, win, res
vars == <<kind, p, stage, v, hcs, win, res>>
Init == kind = "none" /\ p = [sr |-> 0] /\ stage = "idle" /\ v = 0 /\ hcs = {0} /\ win = <<>> /\ res = <<>>

Tol == 4
Defaults(k, sr, mode) ==
  IF k = "adsr" THEN [sr |-> sr, a |-> sr \div 10, d |-> sr, r |-> 3 * sr, s |-> 734003]
  ELSE IF k = "detect" THEN [sr |-> sr, a |-> sr \div 100, r |-> sr, h |-> sr \div 100, mode |-> mode, type |-> "linear", w |-> (sr * 3) \div 1000]
  ELSE [sr |-> sr, a |-> sr \div 10, r |-> sr]
New(k, sr, mode) ==
  /\ kind = "none" /\ kind' = k /\ p' = Defaults(k, sr, mode)
  /\ win' = IF k = "detect" THEN Const(p'.w, 0) ELSE <<>>
  /\ res' = <<>> /\ UNCHANGED <<stage, v, hcs>>
(* generators do not go below a millisecond, detectors not below a tenth of one *)
Shortest == IF kind \in {"adsr", "ar"} THEN p.sr \div 100 ELSE p.sr \div 1000
Time(x) == Max2(x, Shortest)
Set(n, x) ==
  /\ kind # "none" /\ n \in DOMAIN p
  /\ p' = [p EXCEPT ![n] = IF n \in {"a", "d", "r"} THEN Time(x) ELSE IF n = "s" THEN Clamp(x, 0, One) ELSE IF n \in {"h", "w"} THEN Max2(x, IF n = "w" THEN 1 ELSE 0) ELSE x]
  /\ win' = IF n = "w" /\ p'.w # p.w THEN Const(p'.w, 0) ELSE win
  /\ res' = <<>> /\ UNCHANGED <<kind, stage, v, hcs>>
SetAll(a, d, s, r) ==
  /\ kind = "adsr" /\ p' = [p EXCEPT !.a = Time(a), !.d = Time(d), !.s = Clamp(s, 0, One), !.r = Time(r)]
  /\ res' = <<>> /\ UNCHANGED <<kind, stage, v, hcs, win>>
SetTimes(a, r) ==
  /\ kind = "detect" /\ p' = [p EXCEPT !.a = Time(a), !.r = Time(r)]
  /\ res' = <<>> /\ UNCHANGED <<kind, stage, v, hcs, win>>
(* mode and type of a detector; a window is not carried over into another stretch of RMS detection *)
SetMode(m) ==
  /\ kind = "detect" /\ (m = "rms" /\ p.mode # "rms" => \A i \in 1..Len(win) : win[i] = 0)
  /\ p' = [p EXCEPT !.mode = m] /\ res' = <<>> /\ UNCHANGED <<kind, stage, v, hcs, win>>
SetType(ty) == kind = "detect" /\ p' = [p EXCEPT !.type = ty] /\ res' = <<>> /\ UNCHANGED <<kind, stage, v, hcs, win>>

(* a note starts: the attack begins where the envelope is *)
Trigger == kind \in {"adsr", "ar"} /\ stage' = "attack" /\ res' = <<>> /\ UNCHANGED <<kind, p, v, hcs, win>>
Release ==
  /\ kind \in {"adsr", "ar"}
  /\ stage' = IF kind = "adsr" /\ stage = "idle" THEN "idle" ELSE "release"
  /\ res' = <<>> /\ UNCHANGED <<kind, p, v, hcs, win>>
Reset ==
  /\ kind \in {"adsr", "detect"} /\ stage' = "idle" /\ v' = 0 /\ hcs' = {0} /\ win' = Const(Len(win), 0)
  /\ res' = <<>> /\ UNCHANGED <<kind, p>>

Almost == 1047527   \* 0.999
Little == 1049      \* 0.001
(* the stages an ADSR envelope can be in after y came out; none: y is wrong *)
After(st, x, y) ==
  IF st = "attack" THEN LET w == Toward(One, x, Exp1[p.a]) IN
    (IF y = One /\ w >= Almost - Tol THEN {"decay"} ELSE {}) \cup (IF Near(y, w, Tol) /\ w < Almost + Tol THEN {"attack"} ELSE {})
  ELSE IF st = "decay" THEN LET w == Toward(p.s, x, Exp1[p.d]) IN
    (IF y = p.s /\ w <= p.s + Little + Tol THEN {"sustain"} ELSE {}) \cup (IF Near(y, w, Tol) /\ w > p.s + Little - Tol THEN {"decay"} ELSE {})
  ELSE IF st = "sustain" THEN (IF y = p.s THEN {"sustain"} ELSE {})
  ELSE IF st = "release" THEN LET w == Toward(0, x, Exp1[p.r]) IN
    (IF y = 0 /\ w <= Little + Tol THEN {"idle"} ELSE {}) \cup (IF Near(y, w, Tol) /\ w > Little - Tol THEN {"release"} ELSE {})
  ELSE (IF y = 0 THEN {"idle"} ELSE {})
RECURSIVE Adsr(_, _, _, _)
Adsr(st, x, ys, i) ==
  IF i > Len(ys) THEN st
  ELSE LET s == After(st, x, ys[i]) IN
       IF s = {} THEN "wrong" ELSE Adsr(CHOOSE q \in s : TRUE, ys[i], ys, i + 1)
RECURSIVE Ar(_, _, _)
Ar(x, ys, i) == i > Len(ys) \/
  (Near(ys[i], IF stage = "attack" THEN Toward(One, x, Exp1[p.a]) ELSE Toward(0, x, Exp1[p.r]), Tol) /\ Ar(ys[i], ys, i + 1))
(* the next values ys, after which the stage is reported as st *)
Run(ys, st, active) ==
  /\ kind \in {"adsr", "ar"} /\ Len(ys) > 0 /\ v' = ys[Len(ys)]
  /\ IF kind = "adsr" THEN /\ stage' = Adsr(stage, v, ys, 1) /\ stage' = st /\ active = (stage' # "idle")
     ELSE Ar(v, ys, 1) = TRUE /\ stage' = stage
  /\ res' = <<>> /\ UNCHANGED <<kind, p, hcs, win>>

RECURSIVE Half(_, _)
Half(x, g) == IF g <= 0 THEN x ELSE IF x = 0 THEN 0 ELSE Half(x \div 2, g - 1)
Size(x, g) == Half(Abs(x) * 1024, g)
(* above full scale a step is known less precisely *)
More(x) == x \div One
RECURSIVE Follow(_, _, _, _, _)
Follow(x, xs, g, ys, i) == i > Len(ys) \/
  LET s == Size(xs[i], g) IN
  /\ \/ s >= x - 1 /\ Near(ys[i], Toward(s, x, Exp1[p.a]), Tol + More(s))
     \/ s <= x + 1 /\ Near(ys[i], Toward(s, x, Exp1[p.r]), Tol + More(x))
  /\ Follow(ys[i], xs, g, ys, i + 1)
Following(xs, g, ys) ==
  /\ kind = "follow" /\ Len(ys) = Len(xs) /\ Follow(v, xs, g, ys, 1) = TRUE
  /\ v' = IF ys = <<>> THEN v ELSE ys[Len(ys)]
  /\ res' = <<>> /\ UNCHANGED <<kind, p, stage, hcs, win>>

(* detectors *)
Coef(n) == IF p.type = "linear" THEN One - Exp1[n] ELSE IF p.type = "log" THEN One - Exp22[n] ELSE One - Exp1[n]
Peaks == p.mode \in {"peak", "peakhold"}
DTol == IF Peaks THEN Tol ELSE 48
(* <<value, hold time left>> that may come next at level s *)
Rises(x, s, hc) ==
  LET up == x + Mul(s - x, Coef(p.a))
      jump == p.type # "analog" /\ Peaks
      (* a peak far above the envelope is taken over at once *)
      far == Coef(p.a) > One \div 2 \/ s > 2 * up - 8
      near == Coef(p.a) <= One \div 2 /\ s < 2 * up + 8 IN
  IF s <= x - DTol THEN {}
  ELSE (IF jump /\ far THEN {<<s, p.h>>} ELSE {}) \cup (IF ~jump \/ near THEN {<<up, p.h>>} ELSE {})
Falls(x, s, hc) ==
  IF s >= x + DTol THEN {}
  ELSE IF p.mode = "peakhold" /\ hc > 0 THEN {<<x, hc - 1>>} ELSE {<<x + Mul(s - x, Coef(p.r)), hc>>}
Push(w, x) == Append(SubSeq(w, 2, Len(w)), x)
Mean30(w) == (SumSeq(w) * 1024) \div Len(w)
RECURSIVE Detect(_, _, _, _, _, _, _)
(* <<accepted, hold times, window>> *)
Detect(x, hs, w, xs, g, ys, i) ==
  IF i > Len(ys) THEN <<TRUE, hs, w>>
  ELSE LET w2 == IF Peaks THEN w ELSE Push(w, Half(xs[i] * xs[i], 2 * g))
           s == IF Peaks THEN Size(xs[i], g) ELSE Sqrt30(Mean30(w2))
           next == {q \in UNION {Rises(x, s, hc) \cup Falls(x, s, hc) : hc \in hs} : Near(q[1], ys[i], DTol + More(Max2(s, x)))} IN
       IF next = {} THEN <<FALSE, hs, w>> ELSE Detect(ys[i], {q[2] : q \in next}, w2, xs, g, ys, i + 1)
Detecting(xs, g, ys) ==
  /\ kind = "detect" /\ Len(ys) = Len(xs)
  /\ LET r == Detect(v, hcs, win, xs, g, ys, 1) IN r[1] /\ hcs' = r[2] /\ win' = r[3]
  /\ v' = IF ys = <<>> THEN v ELSE ys[Len(ys)]
  /\ res' = <<>> /\ UNCHANGED <<kind, p, stage>>
(* the current value, plain and by way of decibels (-96 for nothing at all) *)
Level(y, lin) ==
  /\ kind = "detect" /\ y = v /\ Near(lin, v, 18 + (v \div 32768))
  /\ res' = <<>> /\ UNCHANGED <<kind, p, stage, v, hcs, win>>

Do(o) ==
  \/ o.op = "new" /\ New(o.k, o.sr, o.mode)
  \/ o.op = "set" /\ Set(o.n, o.x)
  \/ o.op = "times" /\ SetTimes(o.a, o.r)
  \/ o.op = "setall" /\ SetAll(o.a, o.d, o.s, o.r)
  \/ o.op = "mode" /\ SetMode(o.m)
  \/ o.op = "type" /\ SetType(o.m)
  \/ o.op = "trigger" /\ Trigger
  \/ o.op = "release" /\ Release
  \/ o.op = "reset" /\ Reset
  \/ o.op = "run" /\ Run(o.y, o.stage, o.active)
  \/ o.op = "follow" /\ Following(o.xs, o.g, o.y)
  \/ o.op = "detect" /\ Detecting(o.xs, o.g, o.y)
  \/ o.op = "level" /\ Level(o.y, o.lin)
(* levels above full scale are followed like any others *)
Invs == v >= 0 /\ v <= 2 * (IF kind \in {"follow", "detect"} THEN 6 ELSE 1) * One /\ hcs # {} /\ stage # "wrong"
(* an attack only rises, a release only falls and ends in nothing *)
StepOK(o) ==
  /\ o.op = "run" /\ kind = "adsr" => /\ (stage = "attack" /\ stage' = "attack" => v' >= v)
                                      /\ (stage = "release" /\ stage' = "release" => v' <= v)
                                      /\ (stage' = "idle" => v' = 0)
  /\ o.op \in {"set", "setall", "times", "trigger", "release", "mode", "type"} => v' = v
=============================================================================
