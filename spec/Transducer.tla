------------------------------ MODULE Transducer ------------------------------
(***************************************************************************)
(* Every audio processor as a machine: what comes out is a function of the *)
(* settings and of the input since the last reset, and of nothing else --  *)
(* not of how the input was cut into blocks, which entry point was used,   *)
(* what the machine did before the reset, the order in which settings were *)
(* made, or what other machines of its kind do.                            *)
(*                                                                         *)
(* The function itself is not written down here.  memo holds what has been *)
(* observed of it: for every history (a sequence of segments with constant *)
(* settings and input streams) the outputs so far.  A machine that comes   *)
(* along the same history must produce the same outputs.                   *)
(*                                                                         *)
(* Outputs are in 1/2^20; input sample number k of stream s is In(s, k),   *)
(* in 1/1024, silence being stream 0.  Outputs are observed at the         *)
(* multiples of cfg.stride only, so that long histories stay small.        *)
(***************************************************************************)
EXTENDS Ord
VARIABLES cfg, insts, memo, res
vars == <<cfg, insts, memo, res>>
Init == cfg = [name |-> ""] /\ insts = <<>> /\ memo = <<>> /\ res = <<>>

In(s, k) == IF s = 0 THEN 0
  ELSE LET h == ((k * 7919 + s * 10007 + k * k * 31 + ((k * k) % 1009) * k) % 2001) - 1000 IN
       IF s = 2 THEN h \div 4 ELSE IF s = 3 THEN (IF (k \div 16) % 2 = 0 THEN h ELSE 0)
       ELSE IF s = 4 THEN (IF k % 50 = 0 THEN 1000 ELSE 0) ELSE h

Close(a, b) == Abs(a - b) <= cfg.tol + Abs(a) \div 16384
(* multiples of the stride in [0, k) *)
Probes(k) == (k + cfg.stride - 1) \div cfg.stride
Last(q) == q[Len(q)]

(* Which part of the input a channel's output may depend on.               *)
(*   mono, dual  its own stream                                            *)
(*   link        all streams, without regard to their order; two equal     *)
(*               streams are like one                                      *)
(*   sym         all streams, without regard to their order                *)
(*   left        the first channel on its own stream, the second on both   *)
(*   stereo      all streams                                               *)
Proj(ss, c) ==
  IF cfg.shape \in {"mono", "dual"} THEN <<ss[c]>>
  ELSE IF cfg.shape = "link" THEN <<ss[c], ss[Len(ss) + 1 - c]>>
  ELSE IF cfg.shape = "sym" THEN <<Len(ss), ss[c], ss[Len(ss) + 1 - c]>>
  ELSE IF cfg.shape = "left" /\ c = 1 THEN <<ss[1]>>
  ELSE <<c>> \o ss
Key(segs, c) == [j \in 1..Len(segs) |-> [p |-> segs[j].p, ss |-> Proj(segs[j].ss, c),
                                         n |-> IF j = Len(segs) THEN 0 ELSE segs[j].n]]

New(i, c) ==
  /\ (Len(insts) = 0 \/ c = cfg) /\ i = Len(insts) + 1 /\ cfg' = c
  /\ insts' = Append(insts, [cur |-> [k \in {c.params[j] : j \in 1..Len(c.params)} |-> 0], segs |-> <<>>, pos |-> 0, brk |-> FALSE, dead |-> FALSE])
  /\ res' = <<>> /\ UNCHANGED memo
Live(i) == i \in 1..Len(insts) /\ ~insts[i].dead
(* a setting; some settings also restart part of the machine, which cuts the history at this point *)
SetP(i, k, v, restart) ==
  /\ i \in 1..Len(insts) /\ k \in DOMAIN insts[i].cur
  /\ insts' = [insts EXCEPT ![i].cur[k] = v, ![i].brk = (@ \/ restart)]
  /\ res' = <<>> /\ UNCHANGED <<cfg, memo>>
Reset(i) ==
  /\ i \in 1..Len(insts)
  /\ insts' = [insts EXCEPT ![i] = [cur |-> @.cur, segs |-> <<>>, pos |-> 0, brk |-> FALSE, dead |-> FALSE]]
  /\ res' = <<>> /\ UNCHANGED <<cfg, memo>>

(* one channel: the observed outputs ys agree with what is known of the history *)
Known(m, k) == IF k \in DOMAIN m THEN m[k] ELSE <<>>
Agrees(m, k, have, ys) == LET kn == Known(m, k) IN
  /\ Len(kn) >= have
  /\ \A j \in 1..Len(ys) : have + j <= Len(kn) => Close(ys[j], kn[have + j])
Learn(m, k, have, ys) == LET kn == Known(m, k)
                             new == IF have + Len(ys) <= Len(kn) THEN kn ELSE kn \o SubSeq(ys, Len(kn) - have + 1, Len(ys)) IN
  [x \in DOMAIN m \cup {k} |-> IF x = k THEN new ELSE m[x]]
RECURSIVE Chans(_, _, _, _, _)
(* channel after channel: <<all agree, what is known then>> *)
Chans(m, segs, have, ys, c) ==
  IF c > Len(ys) THEN <<TRUE, m>>
  ELSE LET k == Key(segs, c) IN
       IF ~Agrees(m, k, have, ys[c]) THEN <<FALSE, m>> ELSE Chans(Learn(m, k, have, ys[c]), segs, have, ys, c + 1)
Silent(segs, c) == \A j \in 1..Len(segs) :
  IF cfg.shape \in {"mono", "dual"} \/ (cfg.shape = "left" /\ c = 1) THEN segs[j].ss[c] = 0
  ELSE \A q \in 1..Len(segs[j].ss) : segs[j].ss[q] = 0
(* positions of the observed outputs: the j-th observation of a block starting at pos *)
At(pos, j) == (Probes(pos) + j - 1) * cfg.stride
Dry(ss, pos, ys) == \A c \in 1..Len(ys) : \A j \in 1..Len(ys[c]) : Close(ys[c][j], In(ss[c], At(pos, j)) * 1024)
(* the wet parts of the two channels cancel: their sum is the dry share of the inputs' sum *)
Anti(ss, pos, ys, mix) == \A j \in 1..Len(ys[1]) :
  Abs(2 * (ys[1][j] + ys[2][j]) - (3 - mix) * (In(ss[1], At(pos, j)) + In(ss[2], At(pos, j))) * 1024) <= 4 * cfg.tol + 256

Process(i, ss, n, ys) ==
  /\ Live(i) /\ Len(ys) = Len(ss)
  /\ LET t == insts[i]
         cont == t.segs # <<>> /\ ~t.brk /\ Last(t.segs).p = t.cur /\ Last(t.segs).ss = ss
         segs == IF cont THEN t.segs ELSE Append(t.segs, [p |-> t.cur, ss |-> ss, n |-> 0])
         from == t.pos - Last(segs).n
         have == Probes(t.pos) - Probes(from)
         cnt == Probes(t.pos + n) - Probes(t.pos)
     IN /\ \A c \in 1..Len(ys) : Len(ys[c]) = cnt /\ \A j \in 1..cnt : Abs(ys[c][j]) <= cfg.bound
        /\ IF n = 0 THEN UNCHANGED <<insts, memo>>
           ELSE LET r == Chans(memo, segs, have, ys, 1) IN
                /\ r[1] /\ memo' = r[2]
                /\ insts' = [insts EXCEPT ![i].segs = [segs EXCEPT ![Len(segs)].n = @ + n], ![i].pos = @ + n, ![i].brk = FALSE]
        /\ cfg.silent => \A c \in 1..Len(ys) : Silent(segs, c) => \A j \in 1..cnt : Abs(ys[c][j]) <= cfg.tol
        /\ cfg.dry # "" => (t.cur[cfg.dry] = 1 => Dry(ss, t.pos, ys))
        /\ cfg.anti /\ Len(ss) = 2 /\ t.cur[cfg.dry] > 0 => Anti(ss, t.pos, ys, t.cur[cfg.dry])
  /\ UNCHANGED cfg
(* a long stretch of noise and then of silence: the largest output during  *)
(* the noise is bounded, the last part of the silence is (nearly) silent   *)
Decay(i, peak, end) ==
  /\ Live(i) /\ Abs(peak) <= cfg.bound /\ Abs(end) <= 2048
  /\ insts' = [insts EXCEPT ![i].dead = TRUE] /\ UNCHANGED <<cfg, memo>>
(* the audio path allocates nothing *)
Allocs(i, n) == Live(i) /\ n = 0 /\ insts' = [insts EXCEPT ![i].dead = TRUE] /\ UNCHANGED <<cfg, memo>>

Do(o) ==
  \/ o.op = "new" /\ New(o.i, o.c)
  \/ o.op = "set" /\ SetP(o.i, o.k, o.v, o.restart)
  \/ o.op = "reset" /\ Reset(o.i)
  \/ o.op = "process" /\ Process(o.i, o.ss, o.n, o.y) /\ res' = <<>>
  \/ o.op = "tail" /\ Decay(o.i, o.y[1], o.y[2]) /\ res' = <<>>
  \/ o.op = "allocs" /\ Allocs(o.i, o.y[1]) /\ res' = <<>>
Invs == \A i \in 1..Len(insts) : insts[i].pos >= 0
(* what one machine does leaves the others alone, and nothing known is ever revised *)
StepOK(o) ==
  /\ \A j \in 1..Len(insts) : j # o.i => insts'[j] = insts[j]
  /\ \A k \in DOMAIN memo : k \in DOMAIN memo' /\ Len(memo'[k]) >= Len(memo[k]) /\ SubSeq(memo'[k], 1, Len(memo[k])) = memo[k]
=============================================================================
