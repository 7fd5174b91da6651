-------------------------------- MODULE Notes --------------------------------
(***************************************************************************)
(* MIDI events as values, and notes by number, name and frequency.         *)
(*                                                                         *)
(* Frequencies are ratios to the tuning of A4: m 2^e with m in [1/2, 1) in *)
(* 1/2^20.  A frequency between notes is so many cents away from A4.       *)
(***************************************************************************)
EXTENDS Fix
VARIABLES told, res \* the note last named
vars == <<told, res>>
Init == told = 0 /\ res = <<>>
Names == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
Name(n) == Names[(n % 12) + 1] \o ToString(n \div 12 - 1)
(* 2^(k/12) for k below 12 *)
Semitone == <<1048576, 1110928, 1176987, 1246974, 1321123, 1399681, 1482910, 1571089, 1664511, 1763488, 1868350, 1979448>>
(* the ratio of note n to A4 *)
RatioOk(n, m, e) == e = (n - 69) \div 12 + 1 /\ Near(2 * m, Semitone[((n - 69) % 12) + 1], 4)
(* the note nearest to c cents from A4 *)
NoteAt(c) == Clamp((6950 + c) \div 100, 0, 127)
Kinds == {"on", "off", "poly", "cc", "program", "pressure", "bend", "clock", "start", "stop", "continue"}
Text(k, ch, n, v, off) ==
  LET c == "{ch:" \o ToString(ch)
      end == ", offset:" \o ToString(off) \o "}"
      note == ", note:" \o ToString(n) IN
  CASE k = "on" -> "NoteOn" \o c \o note \o ", vel:" \o ToString(v) \o end
    [] k = "off" -> "NoteOff" \o c \o note \o ", vel:" \o ToString(v) \o end
    [] k = "poly" -> "PolyPressure" \o c \o note \o ", pressure:" \o ToString(v) \o end
    [] k = "cc" -> "CC" \o c \o ", ctrl:" \o ToString(n) \o ", val:" \o ToString(v) \o end
    [] k = "program" -> "ProgramChange" \o c \o ", prog:" \o ToString(n) \o end
    [] k = "pressure" -> "ChannelPressure" \o c \o ", pressure:" \o ToString(v) \o end
    [] k = "bend" -> "PitchBend" \o c \o ", val:" \o ToString(v) \o end
    [] k = "clock" -> "Clock{offset:" \o ToString(off) \o "}"
    [] k = "start" -> "Start{offset:" \o ToString(off) \o "}"
    [] k = "stop" -> "Stop{offset:" \o ToString(off) \o "}"
    [] k = "continue" -> "Continue{offset:" \o ToString(off) \o "}"
Do(o) ==
  \/ o.op = "name" /\ told' = o.n /\ res' = Name(o.n)
  \/ o.op = "freq" /\ RatioOk(o.n, o.m, o.e) /\ res' = <<>> /\ UNCHANGED told
  \/ o.op = "note" /\ res' = NoteAt(o.c) /\ UNCHANGED told
  \/ o.op = "silent" /\ res' = 0 /\ UNCHANGED told \* no frequency at all
  \/ o.op = "back" /\ res' = o.n /\ UNCHANGED told \* the note of the frequency of a note
  \/ o.op = "event" /\ o.k \in Kinds /\ res' = <<o.k, o.ch, o.off, Text(o.k, o.ch, o.n, o.v, o.off)>> /\ UNCHANGED told
  \/ o.op = "bend" /\ res' = o.v * 128 /\ UNCHANGED told \* -8192 to 8191 is -1 to 1
Invs == told \in 0..255
StepOK(o) == o.op # "name" => told' = told
ASSUME \A n \in 0..127 : NoteAt(100 * (n - 69)) = n /\ (n < 127 => NoteAt(100 * (n - 69) + 49) = n /\ NoteAt(100 * (n - 69) + 51) = n + 1)
ASSUME Name(60) = "C4" /\ Name(69) = "A4" /\ Name(0) = "C-1" /\ Name(127) = "G9"
ASSUME \A i \in 1..11 : \E d \in -3..3 : LET s == Semitone[i] + d IN Near(Mul(s, Semitone[2]), Semitone[i + 1], 4)
=============================================================================
