---------------------------- MODULE HostThreads ----------------------------
(***************************************************************************)
(* One instance of a plugin used by several threads of its host: one gives *)
(* it blocks of audio with automation, one is the editor, which reads and  *)
(* writes parameters, one saves and loads, turns processing on and off and *)
(* changes the sample rate.                                                *)
(*                                                                         *)
(* A call is made of atoms: a parameter is read or written at one moment;  *)
(* a state is read, or written, parameter by parameter; a block reads and  *)
(* writes them call by call of the processor, and whether processing is on *)
(* and the sample rate hold from its beginning to its end.  What the calls *)
(* of a round returned is explained when their atoms can be put in an      *)
(* order that keeps that of each thread, and of calls that did not         *)
(* overlap, and in which each atom finds what it reported.  Another instance of   *)
(* the plugin that is made, used and released by one of the threads        *)
(* meanwhile has parameters of its own.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, res
vars == <<n, res>>
Init == n = 0 /\ res = <<>>
Params == 1..2
On == 3
Rate == 4
Busy == 5
Clip(v) == IF v < 0 THEN 0 ELSE IF v > 64 THEN 64 ELSE v
Atom(c, s, k, x, v) == [c |-> c, s |-> s, k |-> k, x |-> x, v |-> v]
RECURSIVE Starts(_, _)
Starts(segs, a) == IF segs = <<>> THEN <<>> ELSE <<a>> \o Starts(Tail(segs), a + segs[1].len)
RECURSIVE Sum(_)
Sum(segs) == IF segs = <<>> THEN 0 ELSE segs[1].len + Sum(Tail(segs))
(* the calls of the processor are the block, and none of them spans a change *)
BlockOK(c) ==
  c.segs # <<>> =>
    LET st == Starts(c.segs, 0) IN
    /\ Sum(c.segs) = c.n
    /\ \A j \in 1..Len(c.segs) : /\ c.segs[j].rate = c.segs[1].rate
                                 /\ \A p \in 1..Len(c.pts) : ~(st[j] < c.pts[p][1] /\ c.pts[p][1] < st[j] + c.segs[j].len)
Block(i, c) ==
  IF c.segs = <<>> THEN {Atom(i, 0, "skip", On, 0)}
  ELSE LET st == Starts(c.segs, 0) IN
       {Atom(i, 0, "begin", Rate, c.segs[1].rate), Atom(i, 2 * c.n + 3, "end", Busy, 0)}
       \union {Atom(i, 2 * c.pts[p][1] + 1, "write", c.pts[p][2], c.pts[p][3]) : p \in 1..Len(c.pts)}
       \union {Atom(i, 2 * st[j] + 2, "read", x, c.segs[j].vals[x]) : j \in 1..Len(c.segs), x \in Params}
Of(i, c) ==
  CASE c.f = "block" -> Block(i, c)
    [] c.f = "set" -> {Atom(i, 0, "write", c.a[1], Clip(c.a[2]))}
    [] c.f = "get" -> {Atom(i, 0, "read", c.a[1], c.r[1])}
    [] c.f = "save" -> {Atom(i, 0, "read", x, c.r[x]) : x \in Params}
    [] c.f = "load" -> {Atom(i, 0, "write", x, c.a[x]) : x \in Params}
    [] c.f = "on" -> {Atom(i, 0, "lock", On, c.a[1])}
    [] c.f = "rate" -> {Atom(i, 0, "lock", Rate, c.a[1])}
    [] c.f \in {"text", "info", "active", "neighbour"} -> {}
Before(o, a, b) == \/ a.c = b.c /\ a.s < b.s
                   \/ a.c # b.c /\ \/ o.calls[a.c].th = o.calls[b.c].th /\ a.c < b.c
                                   \/ o.calls[a.c].ret < o.calls[b.c].inv
Can(a, r) == CASE a.k = "read" -> r[a.x] = a.v
               [] a.k = "write" -> TRUE
               [] a.k = "lock" -> r[Busy] = 0
               [] a.k = "begin" -> r[Busy] = 0 /\ r[On] = 1 /\ r[Rate] = a.v
               [] a.k = "skip" -> r[Busy] = 0 /\ r[On] = 0
               [] a.k = "end" -> TRUE
Next1(a, r) == CASE a.k \in {"write", "lock"} -> [r EXCEPT ![a.x] = a.v]
                [] a.k = "begin" -> [r EXCEPT ![Busy] = 1]
                [] a.k = "end" -> [r EXCEPT ![Busy] = 0]
                [] OTHER -> r
(* S: what may be left to happen, with the registers; k atoms are left *)
RECURSIVE Reach(_, _, _)
Reach(pred, S, k) ==
  IF k = 0 \/ S = {} THEN S
  ELSE Reach(pred, UNION {{<<s[1] \ {a}, Next1(a, s[2])>> : a \in {a \in s[1] : pred[a] \intersect s[1] = {} /\ Can(a, s[2])}} : s \in S}, k - 1)
Explained(o) ==
  LET atoms == UNION {Of(i, o.calls[i]) : i \in 1..Len(o.calls)}
      pred == [b \in atoms |-> {a \in atoms : Before(o, a, b)}] IN
  Reach(pred, {<<atoms, o.start>>}, Cardinality(atoms)) # {}
Do(o) == /\ o.op = "round"
         /\ \A i \in 1..Len(o.calls) : o.calls[i].ok /\ (o.calls[i].f = "block" => BlockOK(o.calls[i]))
                                           /\ (o.calls[i].f = "neighbour" => o.calls[i].r = o.calls[i].a)
         /\ Explained(o)
         /\ n' = n + 1 /\ res' = <<Len(o.calls)>>
Invs == n >= 0
StepOK(o) == Len(o.calls) > 0
=============================================================================
