----------------------------- MODULE AllocTrack -----------------------------
(***************************************************************************)
(* Tracking of the buffers a processor uses, and a pool of buffers.  Sizes *)
(* are in samples of four bytes.  A build that is not for debugging tracks *)
(* nothing and refuses nothing, but still runs what it is given to watch.  *)
(***************************************************************************)
EXTENDS Ord, TLC
VARIABLES built, on, bufs, total, frame, ptrs, pool, res
vars == <<built, on, bufs, total, frame, ptrs, pool, res>>
Init == built = TRUE /\ on = FALSE /\ bufs = <<>> /\ total = <<0, 0>> /\ frame = <<0, 0>> /\ ptrs = <<-1, -1>> /\ pool = [size |-> 0, made |-> 0, used |-> {}] /\ res = <<>>
Rest == UNCHANGED <<ptrs, pool>>
New(o) == /\ built' = o.built /\ on' = FALSE /\ bufs' = <<>> /\ total' = <<0, 0>> /\ frame' = <<0, 0>> /\ ptrs' = <<-1, -1>>
          /\ pool' = [size |-> o.size, made |-> 0, used |-> {}] /\ res' = <<>>
Enable(b) == on' = (b /\ built) /\ res' = <<>> /\ UNCHANGED <<bufs, total, frame>> /\ Rest
Reset == bufs' = <<>> /\ total' = <<0, 0>> /\ frame' = <<0, 0>> /\ res' = <<>> /\ UNCHANGED on /\ Rest
(* a buffer without memory is refused; others are counted under their name, with the size they first had *)
Check(o) ==
  LET w == IF o.wide THEN 2 ELSE 1
      m == o.len * w
      old == IF o.name \in DOMAIN bufs THEN bufs[o.name] ELSE <<m, o.cap * w, 0, 0>>
      new == <<old[1], old[2], old[3] + 1, old[4] + 4 * m>> IN
  IF ~on THEN res' = <<0>> /\ UNCHANGED <<on, bufs, total, frame>> /\ Rest
  ELSE IF o.cap <= 0 THEN res' = <<1>> /\ UNCHANGED <<on, bufs, total, frame>> /\ Rest
  ELSE /\ bufs' = [x \in DOMAIN bufs \union {o.name} |-> IF x = o.name THEN new ELSE bufs[x]]
       /\ total' = <<total[1] + 1, total[2] + 4 * m>> /\ frame' = <<frame[1] + 1, frame[2] + 4 * m>>
       /\ res' = <<0>> /\ UNCHANGED on /\ Rest
Start == frame' = <<0, 0>> /\ res' = <<>> /\ UNCHANGED <<on, bufs, total>> /\ Rest
End == res' = frame /\ UNCHANGED <<on, bufs, total, frame>> /\ Rest
Report(o) == /\ res' = (IF built THEN total ELSE <<0>>)
              /\ {o.got[i] : i \in 1..Len(o.got)} = {<<x>> \o bufs[x] : x \in DOMAIN bufs} /\ Len(o.got) = Cardinality(DOMAIN bufs)
             /\ UNCHANGED <<on, bufs, total, frame>> /\ Rest
(* a buffer that is not where it was, though it was there before, is refused *)
Reuse(o) ==
  LET was == ptrs[o.slot + 1] IN
  /\ IF ~on THEN res' = <<0, 0>> /\ ptrs' = [ptrs EXCEPT ![o.slot + 1] = -1]
     ELSE IF was # -1 /\ was # o.buf THEN res' = <<1, 0>> /\ UNCHANGED ptrs
     ELSE res' = <<0, IF o.buf = -1 THEN 0 ELSE 1>> /\ ptrs' = [ptrs EXCEPT ![o.slot + 1] = o.buf]
  /\ UNCHANGED <<on, bufs, total, frame, pool>>
Detect(o) == res' = <<IF o.alloc /\ built THEN 1 ELSE 0, 1>> /\ UNCHANGED <<on, bufs, total, frame>> /\ Rest
(* a buffer of the pool's size that nobody has; one is made only when none is known to be free *)
Get(o) == /\ res' = <<pool.size, 0, Cardinality(pool.used) + 1>>
          /\ o.made \in pool.made..(pool.made + 1) /\ o.made >= Cardinality(pool.used) + 1
          /\ pool' = [pool EXCEPT !.used = @ \union {o.k}, !.made = o.made]
          /\ UNCHANGED <<on, bufs, total, frame, ptrs>>
(* one of another size is refused *)
PutB(o) == /\ IF o.cut > 0 THEN res' = <<1, Cardinality(pool.used)>> /\ UNCHANGED pool
              ELSE res' = <<0, Cardinality(pool.used) - 1>> /\ pool' = [pool EXCEPT !.used = @ \ {o.k}]
           /\ UNCHANGED <<on, bufs, total, frame, ptrs>>
Do1(o) ==
  CASE o.op = "enable" -> Enable(o.on)
    [] o.op = "reset" -> Reset
    [] o.op = "check" -> Check(o)
    [] o.op = "start" -> Start
    [] o.op = "end" -> End
    [] o.op = "report" -> Report(o)
    [] o.op = "reuse" -> Reuse(o)
    [] o.op = "detect" -> Detect(o)
    [] o.op = "get" -> Get(o)
    [] o.op = "put" -> PutB(o)
Do(o) == IF o.op = "new" THEN New(o) ELSE Do1(o) /\ UNCHANGED built
Invs == Cardinality(pool.used) <= pool.made /\ frame[1] <= total[1]
StepOK(o) == o.op \notin {"check", "reset", "new"} => total' = total
=============================================================================
