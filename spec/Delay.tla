-------------------------------- MODULE Delay --------------------------------
(***************************************************************************)
(* Delay lines.  mem is what was written, newest first, size samples long  *)
(* and zero before anything was written; samples are in 1/65536, delays in *)
(* quarters of a sample from one sample to the full length.  Feedback,     *)
(* damping and mix are in quarters.                                        *)
(***************************************************************************)
EXTENDS Ord
VARIABLES kind, size, rate, mem, fb, damp, dval, center, taps, res
vars == <<kind, size, rate, mem, fb, damp, dval, center, taps, res>>
cfg == <<kind, size, rate>>
Init == kind = "none" /\ size = 0 /\ rate = 1 /\ mem = <<>> /\ fb = 2 /\ damp = 2 /\ dval = 0 /\ center = 0 /\ taps = 0 /\ res = <<>>

(* rate: samples per millisecond; max: longest delay in samples *)
New(k, max, r, n) ==
  /\ kind = "none" /\ kind' = k /\ size' = max + 1 /\ rate' = r /\ mem' = Const(max + 1, 0)
  /\ center' = 40 * r /\ taps' = n
  /\ res' = <<>> /\ UNCHANGED <<fb, damp, dval>>
Holds(d) == d >= 4 /\ d <= 4 * size
(* the sample written d/4 writes ago, interpolated linearly *)
Read(mm, d) == LET i == d \div 4
                   f == d % 4
                   x == mm[i]
                   y == IF f = 0 THEN 0 ELSE mm[i + 1] IN (x * (4 - f) + y * f) \div 4
ReadExact(mm, d) == IF d % 4 = 0 THEN TRUE ELSE (mm[d \div 4] * (4 - (d % 4)) + mm[d \div 4 + 1] * (d % 4)) % 4 = 0
Push(mm, x) == SubSeq(<<x>> \o mm, 1, Len(mm))
Keep == UNCHANGED <<kind, size, rate, fb, damp, center, taps>>

(* one sample through a machine: <<output, memory, damping state>> *)
Comb(mm, dv, x, d) == LET o == Read(mm, d)
                          v == (o * (4 - damp) + dv * damp) \div 4 IN <<o, Push(mm, x + (v * fb) \div 4), v>>
CombExact(mm, dv, x, d) == /\ ReadExact(mm, d)
                           /\ LET o == Read(mm, d) IN (o * (4 - damp) + dv * damp) % 4 = 0
                              /\ (((o * (4 - damp) + dv * damp) \div 4) * fb) % 4 = 0
Allpass(mm, dv, x, d) == LET o == Read(mm, d) IN <<o - x, Push(mm, x + (o * fb) \div 4), dv>>
Plain(mm, dv, x, d) == <<Read(mm, d), Push(mm, x), dv>>
Tick(mm, dv, x, d) == IF kind = "comb" THEN Comb(mm, dv, x, d) ELSE IF kind = "allpass" THEN Allpass(mm, dv, x, d)
                      ELSE Plain(mm, dv, x, d)
TickExact(mm, dv, x, d) == IF kind = "comb" THEN CombExact(mm, dv, x, d)
                           ELSE IF kind = "allpass" THEN ReadExact(mm, d) /\ (Read(mm, d) * fb) % 4 = 0
                           ELSE ReadExact(mm, d)
(* a block, one sample after the other; g is the wet share in quarters *)
RECURSIVE Run(_, _, _, _, _, _)
Run(mm, dv, xs, d, g, out) ==
  IF xs = <<>> THEN <<out, mm, dv, TRUE>>
  ELSE IF ~TickExact(mm, dv, xs[1], d) THEN <<out, mm, dv, FALSE>>
  ELSE LET t == Tick(mm, dv, xs[1], d)
           y == xs[1] * (4 - g) + t[1] * g IN
       IF y % 4 # 0 THEN <<out, mm, dv, FALSE>> ELSE Run(t[2], t[3], Tail(xs), d, g, Append(out, y \div 4))
Go(xs, d, g) == /\ kind # "none" /\ Holds(d)
                /\ LET r == Run(mem, dval, xs, d, g, <<>>) IN
                   r[4] /\ res' = r[1] /\ mem' = r[2] /\ dval' = r[3]
                /\ Keep
(* through the machine's own processing, whichever entry point *)
Process(x, d) == Go(<<x>>, d, 4)
Block(xs, d) == Go(xs, d, 4)
Mix(xs, d, g) == kind = "line" /\ Go(xs, d, g)
(* raw access to the line, which every machine has *)
Write(x) == kind # "none" /\ mem' = Push(mem, x) /\ res' = <<>> /\ Keep /\ UNCHANGED dval
ReadAt(d) == kind # "none" /\ Holds(d) /\ ReadExact(mem, d) /\ res' = <<Read(mem, d)>> /\ Keep /\ UNCHANGED <<mem, dval>>
SetFb(g) == kind \in {"comb", "allpass"} /\ fb' = g /\ res' = <<>> /\ UNCHANGED <<kind, size, rate, mem, damp, dval, center, taps>>
SetDamp(g) == kind = "comb" /\ damp' = g /\ res' = <<>> /\ UNCHANGED <<kind, size, rate, mem, fb, dval, center, taps>>
(* forgets everything it heard, keeps how it is set *)
Reset == kind # "none" /\ mem' = Const(size, 0) /\ dval' = 0 /\ res' = <<>> /\ Keep
(* modulated line without modulation depth: a fixed centre delay (in quarters) *)
SetCenter(d) == kind = "mod" /\ center' = d /\ res' = <<>> /\ UNCHANGED <<kind, size, rate, mem, fb, damp, dval, taps>>
Modulated(xs) == kind = "mod" /\ Go(xs, center, 4)
(* taps: [d, g (quarters), p (-1 left, 1 right)], after the input is written; only the first are used *)
RECURSIVE TapSum(_, _, _, _)
TapSum(mm, ts, side, k) == IF k > Len(ts) \/ k > taps THEN 0
  ELSE (IF ts[k].p = side THEN (Read(mm, ts[k].d) * ts[k].g) \div 4 ELSE 0) + TapSum(mm, ts, side, k + 1)
MultiTap(x, ts) ==
  /\ kind = "taps" /\ LET mm == Push(mem, x) IN
     /\ \A k \in 1..Min2(taps, Len(ts)) : Holds(ts[k].d) /\ ReadExact(mm, ts[k].d) /\ (Read(mm, ts[k].d) * ts[k].g) % 4 = 0
     /\ mem' = mm /\ res' = <<TapSum(mm, ts, -1, 1), TapSum(mm, ts, 1, 1)>>
  /\ Keep /\ UNCHANGED dval

Do(o) ==
  \/ o.op = "new" /\ New(o.k, o.max, o.rate, o.n)
  \/ o.op = "process" /\ kind \in {"line", "comb", "allpass", "taps"} /\ Process(o.x, o.d)
  \/ o.op = "block" /\ kind \in {"line", "comb", "allpass", "taps"} /\ Block(o.xs, o.d)
  \/ o.op = "mix" /\ Mix(o.xs, o.d, o.g)
  \/ o.op = "write" /\ Write(o.x)
  \/ o.op = "read" /\ ReadAt(o.d)
  \/ o.op = "fb" /\ SetFb(o.g)
  \/ o.op = "damp" /\ SetDamp(o.g)
  \/ o.op = "reset" /\ Reset
  \/ o.op = "center" /\ SetCenter(o.d)
  \/ o.op = "mod" /\ Modulated(o.xs)
  \/ o.op = "taps" /\ MultiTap(o.x, o.ts)
Invs == kind # "none" => Len(mem) = size
StepOK(o) ==
  /\ o.op = "read" => mem' = mem
  /\ o.op = "write" /\ size > 1 => mem'[1] = o.x /\ \A i \in 2..size : mem'[i] = mem[i - 1]
  (* a plain line gives every sample back exactly, once *)
  /\ o.op = "process" /\ kind = "line" /\ o.d % 4 = 0 => res' = <<mem[o.d \div 4]>> /\ mem'[1] = o.x
  /\ o.op # "new" => cfg' = cfg
=============================================================================
