------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Typed access to a host's stream: bytes, 32-bit integers, 64-bit floats  *)
(* and strings with their length in front, all little-endian. The stream   *)
(* may take and give its data in pieces of any size, and fail or stop      *)
(* (o.broke says it did during the step). After a failure its position is  *)
(* not known, and nothing is specified until another one is opened.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES s, res
vars == <<s, res>>
Init == s = [ok |-> FALSE] /\ res = <<>>
Open(o) == s' = [ok |-> TRUE, data |-> o.data, pos |-> o.pos] /\ res' = <<>>
Left == Len(s.data) - s.pos
At(n) == SubSeq(s.data, s.pos + 1, s.pos + n)
Put(b) == [s EXCEPT !.data = SubSeq(@, 1, s.pos) \o b \o SubSeq(@, s.pos + Len(b) + 1, Len(@)), !.pos = @ + Len(b)]
(* the low n bytes of a number that may be negative *)
RECURSIVE Bytes(_, _)
Bytes(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o Bytes(v \div 256, n - 1)
Num(b) == ((IF b[4] >= 128 THEN b[4] - 256 ELSE b[4]) * 16777216) + (b[3] * 65536) + (b[2] * 256) + b[1]
Failed == res' = <<1>> /\ s' = [ok |-> FALSE]
Write(o, b, n) == IF o.broke THEN Failed ELSE s' = Put(b) /\ res' = <<0, n>>
Read(o, n, r) == IF o.broke \/ Left < n THEN Failed ELSE s' = [s EXCEPT !.pos = @ + n] /\ res' = <<0, r>>
Some(o) ==
  IF o.broke THEN Failed
  ELSE LET k == Len(o.got) IN
       /\ k <= o.n /\ k <= Left /\ (k = 0 => o.n = 0 \/ Left = 0)
       /\ o.got = At(k) /\ res' = <<0, k>> /\ s' = [s EXCEPT !.pos = @ + k]
String(o) ==
  IF o.broke \/ Left < 4 THEN Failed
  ELSE LET n == Num(At(4)) IN
       IF n < 0 \/ n > Left - 4 THEN Failed
       ELSE o.got = SubSeq(s.data, s.pos + 5, s.pos + 4 + n) /\ res' = <<0>> /\ s' = [s EXCEPT !.pos = @ + 4 + n]
Do(o) ==
  \/ o.op = "open" /\ Open(o)
  \/ ~s.ok /\ o.op # "open" /\ UNCHANGED s /\ res' = <<9>>
  \/ /\ s.ok
     /\ \/ o.op = "write" /\ Write(o, o.data, Len(o.data))
        \/ o.op = "wint" /\ Write(o, Bytes(o.v, 4), 4)
        \/ o.op = "wfloat" /\ Write(o, o.data, 8)
        \/ o.op = "wstr" /\ Write(o, Bytes(Len(o.data), 4) \o o.data, 4 + Len(o.data))
        \/ o.op = "read" /\ Some(o)
        \/ o.op = "rint" /\ Read(o, 4, IF Left >= 4 THEN Num(At(4)) ELSE 0)
        \/ o.op = "rfloat" /\ Read(o, 8, At(8))
        \/ o.op = "rstr" /\ String(o)
        \/ o.op = "all" /\ (IF o.broke THEN Failed ELSE o.got = At(Left) /\ res' = <<0>> /\ s' = [s EXCEPT !.pos = Len(s.data)])
        \/ o.op = "dump" /\ UNCHANGED s /\ res' = <<s.data, s.pos>>
Invs == s.ok => s.pos \in 0..Len(s.data)
StepOK(o) == o.op \in {"read", "rint", "rfloat", "rstr", "all", "dump"} /\ s'.ok => s'.data = s.data
=============================================================================
