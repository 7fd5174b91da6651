------------------------------ MODULE Profiler ------------------------------
(***************************************************************************)
(* The profiler: what it says of the times sections took.  How long a      *)
(* section took is its own word (o.got), at least what was spent in it and *)
(* at most what passed around it; everything else follows from these       *)
(* times, of which it keeps the last p.max of each section for             *)
(* percentiles.  Times are in nanoseconds.  A history in which a section   *)
(* took longer than 20 ms, because the machine was busy, is left there.    *)
(***************************************************************************)
EXTENDS Ord, TLC
VARIABLES p, times, open, copies, load, res
vars == <<p, times, open, copies, load, res>>
Init == p = [kind |-> ""] /\ times = <<>> /\ open = <<>> /\ copies = <<>> /\ load = 0 /\ res = <<>>
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Of(name) == IF name \in DOMAIN times THEN times[name] ELSE <<>>
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
RECURSIVE Least(_)
Least(s) == IF Len(s) = 1 THEN s[1] ELSE Min2(s[1], Least(Tail(s)))
RECURSIVE Most(_)
Most(s) == IF Len(s) = 1 THEN s[1] ELSE Max2(s[1], Most(Tail(s)))
Average(s) == Total(s) \div Len(s)
Key(x) == x
Recent(s) == StableBy(IF Len(s) <= p.max THEN s ELSE SubSeq(s, Len(s) - p.max + 1, Len(s)), Key)
(* the time that q percent of the others are not above *)
Percentile(s, q) == LET r == Recent(s) IN r[((Len(r) - 1) * q) \div 100 + 1]
New(o) == /\ p' = [kind |-> o.kind, max |-> IF o.kind = "audio" THEN 1000 ELSE o.max, on |-> TRUE, sr |-> o.sr, bs |-> o.bs]
          /\ times' = <<>> /\ open' = <<>> /\ copies' = <<>> /\ load' = 0 /\ res' = <<>>
Add(o, name) == times' = Put(times, name, Append(Of(name), o.got))
Run(o) == /\ IF ~p.on THEN UNCHANGED times
             ELSE Add(o, o.name) /\ o.got >= o.us * 1000 /\ o.got <= o.outer
          /\ res' = <<>> /\ UNCHANGED <<p, open, copies, load>>
(* a section counts if it was begun with profiling on *)
Begin(o) == open' = Put(open, o.slot, <<p.on, o.name>>) /\ res' = <<>> /\ UNCHANGED <<p, times, copies, load>>
End(o) == /\ IF ~open[o.slot][1] THEN UNCHANGED times
             ELSE Add(o, open[o.slot][2]) /\ o.got >= o.us * 1000 /\ o.got <= o.outer
          /\ res' = <<>> /\ UNCHANGED <<p, open, copies, load>>
Row(n) == LET s == times[n] IN <<n, Len(s), Total(s), Average(s), Least(s), Most(s), s[Len(s)]>>
Report(o) == /\ {o.got[i] : i \in 1..Len(o.got)} = {Row(n) : n \in DOMAIN times} /\ Len(o.got) = Cardinality(DOMAIN times)
             /\ res' = <<IF DOMAIN times = {} THEN 1 ELSE 0>> /\ UNCHANGED <<p, times, open, copies, load>>
Copy(o) == /\ IF o.name \in DOMAIN times THEN copies' = Put(copies, o.slot, times[o.name]) /\ res' = <<1>>
              ELSE copies' = Drop(copies, o.slot) /\ res' = <<0>>
           /\ UNCHANGED <<p, times, open, load>>
(* a copy stays as it was taken *)
Ask(o) == /\ res' = (IF o.slot \notin DOMAIN copies THEN <<>>
                     ELSE LET s == copies[o.slot] IN <<Average(s)>> \o [i \in 1..Len(o.pct) |-> Percentile(s, o.pct[i])])
          /\ UNCHANGED <<p, times, open, copies, load>>
Enable(o) == p' = [p EXCEPT !.on = o.on] /\ res' = <<IF o.on THEN 1 ELSE 0>> /\ UNCHANGED <<times, open, copies, load>>
Reset == times' = <<>> /\ res' = <<>> /\ UNCHANGED <<p, open, copies, load>>
(* nanoseconds of a buffer *)
Buffer == (((1000000 * p.bs) \div p.sr) * 1000) + ((((1000000 * p.bs) % p.sr) * 1000) \div p.sr)
(* a over b in hundredths of a percent *)
Ratio(a, b) == (((a * 100) \div b) * 100) + ((((a * 100) % b) * 100) \div b)
CpuLoad(o) == /\ load' = o.got /\ res' = <<1>>
              /\ IF o.update /\ Of("ProcessAudio") # <<>> THEN o.got \in (Ratio(Average(times["ProcessAudio"]), Buffer) - 1)..(Ratio(Average(times["ProcessAudio"]), Buffer) + 1)
                 ELSE o.got = load
              /\ UNCHANGED <<p, times, open, copies>>
Storm(o) == res' = <<Len(Of(o.name)) + (IF p.on THEN o.th * o.k ELSE 0)>> /\ UNCHANGED <<p, times, open, copies, load>>
Left(o) == res' = <<>> /\ UNCHANGED <<p, times, open, copies, load>>
Do(o) ==
  IF o.dead \/ (o.op \in {"run", "end"} /\ o.slow) THEN Left(o)
  ELSE CASE o.op = "new" -> New(o)
         [] o.op = "run" -> Run(o)
         [] o.op = "begin" -> Begin(o)
         [] o.op = "end" -> End(o)
         [] o.op = "report" -> Report(o)
         [] o.op = "copy" -> Copy(o)
         [] o.op = "ask" -> Ask(o)
         [] o.op = "enable" -> Enable(o)
         [] o.op = "reset" -> Reset
         [] o.op = "load" -> CpuLoad(o)
         [] o.op = "storm" -> Storm(o)
Invs == \A n \in DOMAIN times : times[n] # <<>>
StepOK(o) == o.op \in {"ask", "report", "copy"} => times' = times
=============================================================================
