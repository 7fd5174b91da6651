------------------------------ MODULE Dynamics ------------------------------
(***************************************************************************)
(* Compressor, limiter and expander: the level of the loudest channel (or  *)
(* of the side chain) through an envelope, a static curve in decibels, and *)
(* the same gain on all channels; with lookahead the sound comes later     *)
(* than the level.                                                         *)
(*                                                                         *)
(* Samples come in 1/1024 and go out in 1/2^20.  Envelopes and the gain of *)
(* the expander are followed in 1/2^24; cand holds the situations that are *)
(* possible given what came out.  Decibels are in 1/65536, settings in     *)
(* quarters, times in tenths of a sample, lookahead in samples.            *)
(***************************************************************************)
EXTENDS Fix
VARIABLES kind, p, cand, dl, dr, red, res
vars == <<kind, p, cand, dl, dr, red, res>>
Init == kind = "none" /\ p = [sr |-> 0] /\ cand = {} /\ dl = <<>> /\ dr = <<>> /\ red = 0 /\ res = <<>>

Full == 16777216
Fresh == [e |-> 0, f |-> 0, g |-> Full, l |-> 0, r |-> 0]
Quarter == 16384
New(k, sr) ==
  /\ kind = "none" /\ kind' = k /\ cand' = {Fresh}
  /\ p' = IF k = "comp" THEN [sr |-> sr, thr |-> -80 * Quarter, ratio |-> 16, a |-> sr \div 20, r |-> sr \div 2, knee |-> 8, soft |-> TRUE, makeup |-> 0, look |-> 0]
          ELSE IF k = "lim" THEN [sr |-> sr, thr |-> -19661, r |-> sr \div 2, look |-> sr \div 200, true |-> TRUE]
          ELSE [sr |-> sr, thr |-> -160 * Quarter, ratio |-> 8, a |-> sr \div 100, r |-> sr, knee |-> 8, range |-> -160]
  /\ dl' = (IF k = "lim" THEN Const(sr \div 200, 0) ELSE <<>>)
  /\ dr' = dl'
  /\ red' = 0 /\ res' = <<>>
Limit(n, x) ==
  IF n = "thr" THEN (IF kind = "lim" THEN Min2(x, 0) ELSE x) * Quarter
  ELSE IF n = "ratio" THEN Max2(x, 4)
  ELSE IF n = "a" THEN Max2(x, IF kind = "exp" THEN 0 ELSE p.sr \div 1000)
  ELSE IF n = "r" THEN Max2(x, IF kind = "exp" THEN 0 ELSE p.sr \div 100)
  ELSE IF n = "knee" THEN Max2(x, 0)
  ELSE IF n = "range" THEN Min2(x, 0)
  ELSE IF n = "look" THEN Clamp(x, 0, p.sr \div 100)
  ELSE x
(* settings; another lookahead starts from silence *)
Set(n, x) ==
  /\ kind # "none" /\ n \in DOMAIN p \ {"sr", "soft", "true"}
  /\ p' = [p EXCEPT ![n] = Limit(n, x)]
  /\ IF n = "look" /\ p'.look # p.look THEN dl' = Const(p'.look, 0) /\ dr' = Const(p'.look, 0) ELSE UNCHANGED <<dl, dr>>
  /\ res' = <<>> /\ UNCHANGED <<kind, cand, red>>
Turn(n, on) == kind # "none" /\ n \in DOMAIN p \cap {"soft", "true"} /\ p' = [p EXCEPT ![n] = on] /\ res' = <<>> /\ UNCHANGED <<kind, cand, dl, dr, red>>
Reset ==
  /\ kind # "none" /\ cand' = {Fresh} /\ dl' = Const(Len(dl), 0) /\ dr' = Const(Len(dr), 0) /\ red' = 0
  /\ res' = <<>> /\ UNCHANGED <<kind, p>>

(* the envelope after level s: a peak detector (see Envelopes) *)
Detect(e, s, a, r) ==
  LET up == e + Mul(s - e, a)
      tie == up \div 1000 + 16 IN
  IF s <= e THEN {e + Mul(s - e, r)}
  ELSE (IF a > One \div 2 \/ s > 2 * up - tie THEN {s} ELSE {}) \cup (IF a <= One \div 2 /\ s < 2 * up + tie THEN {up} ELSE {})
Level(e) == IF e <= 0 THEN -96 * 65536 ELSE Db(e, 24)
(* what a level is known to be, give or take *)
Loose(e) == Min2(20000, 1000 + 24000000 \div Max2(e, 1000))
(* a in 1/q *)
Ratio(a, q) == (a * One) \div q
(* the share of the width w that d is, 0 <= d <= w *)
Part(d, w) == ((d * 1024) \div w) * 1024 + ((((d * 1024) % w) * 1024) \div w)
(* how many decibels are taken away at level d *)
CompCurve(d) ==
  LET over == d - p.thr
      w == p.knee * Quarter
      full == Mul(over, Ratio(p.ratio - 4, p.ratio))
      part == Part(over + w \div 2, w) IN
  IF over <= 0 THEN 0
  ELSE IF ~p.soft \/ over > w \div 2 THEN full
  ELSE Mul(full, Mul(part, part))
LimCurve(d) == Max2(0, d - p.thr)
ExpCurve(d) ==
  LET under == p.thr - d
      w == p.knee * Quarter
      full == (under \div 4) * (p.ratio - 4)
      part == Part(under + w \div 2, w)
      most == -p.range * Quarter IN
  IF under <= 0 THEN 0
  ELSE IF under > w \div 2 THEN Min2(full, most)
  ELSE Min2(most, Mul(full, Mul(part, part)))

(* candidate c after the level, the loudest delayed sample pk and the channels' own samples: <<candidate, reduction, tolerance>> *)
Next1(c, xl, xr, pk, two) ==
  IF kind = "comp" THEN
    {<<[c EXCEPT !.e = e], CompCurve(Level(e)), Loose(e)>> : e \in Detect(c.e, Max2(Abs(xl), Abs(xr)) * 16384, One - Exp22[p.a], One - Exp22[p.r])}
  ELSE IF kind = "lim" THEN
    LET s == Max2(Max2(Abs(xl), Abs(xr)), IF p.true THEN Max2(Abs(c.l), IF two THEN Abs(c.r) ELSE 0) ELSE 0) * 16384
        fs == IF p.true /\ p.look > 0 THEN Detect(c.f, pk * 16384, One - Exp1[p.sr \div 1000], One - Exp1[p.sr \div 100]) ELSE {c.f}
        n(f) == IF p.true /\ p.look > 0 THEN Max2(s, f) ELSE s IN
    {<<[c EXCEPT !.e = q[1], !.f = q[2], !.l = IF p.true THEN xl ELSE @, !.r = IF p.true /\ two THEN xr ELSE @],
       Max2(LimCurve(Level(q[1])), IF pk = 0 THEN 0 ELSE LimCurve(Db(pk, 10))), Loose(Max2(q[1], pk * 16384))>>
     : q \in UNION {{<<e, f>> : e \in Detect(c.e, n(f), One - Exp1[p.sr \div 1000], One - Exp1[p.r])} : f \in fs}}
  ELSE
    UNION {LET t == Amp(-ExpCurve(Level(e)), 24)
               k == IF c.g > t THEN p.a ELSE p.r
               g == IF k = 0 THEN t ELSE Toward(t, c.g, Exp1[k]) IN
           {<<[c EXCEPT !.e = e, !.g = g], IF g <= 0 THEN 100 * 65536 ELSE -Db(g, 24), Min2(20000, 3000 + (p.ratio * Loose(e)) \div 4 + 60000000 \div Max2(g, 3000))>>}
           : e \in Detect(c.e, Max2(Abs(xl), Abs(xr)) * 16384, One - Exp22[Max2(p.a, p.sr \div 1000)], One - Exp22[Max2(p.r, p.sr \div 1000)])}
Makeup == IF kind = "comp" THEN p.makeup * Quarter ELSE 0
(* does y (1/2^20) come from the sample x with that reduction *)
Fits(x, y, rd, tol) == LET e == Mul(x * 1024, Amp(Makeup - rd, 20)) IN Near(y, e, 4 + ((Abs(e) \div 64) * tol) \div 8000)
(* the sample that is heard, and the pending ones after x *)
Out(q, x) == IF q = <<>> THEN x ELSE q[1]
Queue(q, x) == IF q = <<>> THEN q ELSE Append(Tail(q), x)
RECURSIVE Go(_, _, _, _, _, _, _, _)
(* S: {<<candidate, reduction, tolerance>>}; how: mono, stereo or side (zs is only listened to) *)
Go(S, ql, qr, xs, zs, yl, yr, i) ==
  IF S = {} \/ i > Len(xs) THEN <<S, ql, qr>>
  ELSE LET two == yr # <<>>
           side == ~two /\ zs # <<>>
           ol == Out(ql, xs[i])
           or == IF two THEN Out(qr, zs[i]) ELSE 0
           ll == IF side THEN zs[i] ELSE xs[i]
           lr == IF two THEN zs[i] ELSE 0
           pk == Max2(Abs(ol), Abs(or))
           T == UNION {Next1(s[1], ll, lr, pk, two) : s \in S} IN
       Go({t \in T : Fits(ol, yl[i], t[2], t[3]) /\ (two => Fits(or, yr[i], t[2], t[3]))},
          Queue(ql, xs[i]), IF two THEN Queue(qr, zs[i]) ELSE qr, xs, zs, yl, yr, i + 1)
Process(xs, zs, yl, yr, rd) ==
  /\ kind # "none" /\ Len(yl) = Len(xs) /\ (yr # <<>> => Len(yr) = Len(xs))
  /\ LET r == Go({<<c, 0, 0>> : c \in cand}, dl, dr, xs, zs, yl, yr, 1)
         keep == IF xs = <<>> THEN r[1] ELSE {t \in r[1] : Near(rd, t[2], t[3]) \/ (rd >= 90 * 65536 /\ t[2] >= 90 * 65536)} IN
     /\ cand' = {t[1] : t \in keep} /\ cand' # {} /\ dl' = r[2] /\ dr' = r[3]
     /\ xs = <<>> => rd = red
  /\ red' = rd /\ rd >= 0
  /\ res' = <<>> /\ UNCHANGED <<kind, p>>
Do(o) ==
  \/ o.op = "new" /\ New(o.k, o.sr)
  \/ o.op = "set" /\ Set(o.n, o.x)
  \/ o.op = "turn" /\ Turn(o.n, o.on)
  \/ o.op = "reset" /\ Reset
  \/ o.op = "process" /\ Process(o.xs, o.zs, o.yl, o.yr, o.rd)
Invs == kind # "none" => cand # {} /\ \A c \in cand : c.e >= 0 /\ c.g >= 0 /\ c.g <= Full + 16
Ceiling == Amp(p.thr, 20) + 16
StepOK(o) ==
  (* nothing leaves a limiter above its ceiling *)
  /\ kind = "lim" /\ o.op = "process" => /\ \A i \in 1..Len(o.yl) : Abs(o.yl[i]) <= Ceiling + Ceiling \div 8192
                                         /\ \A i \in 1..Len(o.yr) : Abs(o.yr[i]) <= Ceiling + Ceiling \div 8192
  /\ o.op \in {"set", "turn"} => cand' = cand
=============================================================================
