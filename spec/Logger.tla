------------------------------- MODULE Logger -------------------------------
(***************************************************************************)
(* The logger: which messages are written, as which lines, and where to.   *)
(* Lines are compared as text, with the time of the call written as "T"    *)
(* and the place it was made at as "HERE", or "FULL" with its directory.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES p, files, res
vars == <<p, files, res>>
Init == p = [made |-> FALSE] /\ files = {} /\ res = <<>>
Has(flags, k) == (flags \div (2 ^ k)) % 2 = 1
Names == <<"DEBUG", "INFO", "WARN", "ERROR", "FATAL">>
Name(v) == IF v \in 0..4 THEN Names[v + 1] ELSE "UNKNOWN"
Head1(v) ==
  (IF Has(p.flags, 0) THEN "T " ELSE "") \o (IF Has(p.flags, 3) THEN "[" \o Name(v) \o "] " ELSE "")
  \o (IF Has(p.flags, 4) /\ p.prefix # "" THEN "[" \o p.prefix \o "] " ELSE "")
  \o (IF Has(p.flags, 1) THEN "HERE: " ELSE IF Has(p.flags, 2) THEN "FULL: " ELSE "")
Shown(v) == p.on /\ v >= p.level
Lines(v, parts) == [i \in 1..Len(parts) |-> IF i = 1 THEN Head1(v) \o parts[1] ELSE parts[i]]
Arg(o) == CASE o.arg = "none" -> ""
            [] o.arg = "num" -> " " \o ToString(o.num)
            [] o.arg = "str" -> " %d!"
            [] o.arg = "percent" -> " 100%"
            [] o.arg = "talk" -> " said"
Parts(o) == [o.parts EXCEPT ![Len(o.parts)] = @ \o Arg(o)]
(* what a message says when it is written, after what its argument says while it is made *)
Said(o) == (IF o.arg = "talk" /\ Shown(1) THEN Lines(1, <<"inner">>) ELSE <<>>) \o Lines(o.level, Parts(o))
Log(o) ==
  /\ res' = (IF (o.how = "if" /\ p.global /\ ~o.cond) \/ ~Shown(o.level) THEN <<>> ELSE Said(o))
            \o (IF o.level = 4 THEN LET x == Parts(o) IN [x EXCEPT ![1] = "panic: " \o @] ELSE <<>>)
  /\ UNCHANGED <<p, files>>
Msg(t, i) == Head1(2) \o "m" \o ToString(t) \o "." \o ToString(i)
(* every line is whole and nobody else's, and those of a thread are in order *)
Storm(o) ==
  LET all(t) == [i \in 1..o.k |-> Msg(t, i)] IN
  /\ IF ~Shown(2) THEN o.got = <<>>
     ELSE /\ Len(o.got) = o.th * o.k
          /\ \A t \in 1..o.th : SelectSeq(o.got, LAMBDA x : \E i \in 1..o.k : x = Msg(t, i)) = all(t)
  /\ res' = <<>> /\ UNCHANGED <<p, files>>
New(o) == p' = [made |-> TRUE, global |-> o.global, prefix |-> o.prefix, flags |-> o.flags, level |-> 1, on |-> TRUE] /\ res' = <<>> /\ UNCHANGED files
(* a file is appended to; where its directory would be there is a file *)
Clash(name) == (name = "a.log/g.log" /\ "a.log" \in files) \/ (name = "a.log" /\ "a.log/g.log" \in files)
File(o) == IF Clash(o.name) THEN res' = <<"failed">> /\ UNCHANGED <<p, files>>
           ELSE /\ p' = [p EXCEPT !.global = FALSE, !.prefix = o.prefix, !.flags = o.flags, !.level = 1, !.on = TRUE]
                /\ files' = files \union {o.name} /\ res' = <<>>
Do(o) ==
  CASE o.op = "new" -> New(o)
    [] o.op = "file" -> File(o)
    [] o.op = "output" -> p.made /\ res' = <<>> /\ UNCHANGED <<p, files>>
    [] o.op = "level" -> p' = [p EXCEPT !.level = o.v] /\ res' = <<>> /\ UNCHANGED files
    [] o.op = "prefix" -> p' = [p EXCEPT !.prefix = o.v] /\ res' = <<>> /\ UNCHANGED files
    [] o.op = "flags" -> p' = [p EXCEPT !.flags = o.v] /\ res' = <<>> /\ UNCHANGED files
    [] o.op = "enable" -> p' = [p EXCEPT !.on = o.on] /\ res' = <<IF o.on THEN "true" ELSE "false">> /\ UNCHANGED files
    [] o.op = "name" -> res' = <<Name(o.v)>> /\ UNCHANGED <<p, files>>
    [] o.op = "log" -> Log(o)
    [] o.op = "storm" -> Storm(o)
Invs == p.made => p.level \in 0..5
StepOK(o) == o.op \in {"log", "storm"} => p' = p
=============================================================================
