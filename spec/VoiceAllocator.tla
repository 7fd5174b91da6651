--------------------------- MODULE VoiceAllocator ---------------------------
(***************************************************************************)
(* The voice allocator of pkg/framework/voice.                             *)
(*                                                                         *)
(* Voices are numbered 1..n.  A voice is idle, held (its key is down) or   *)
(* rel (released, fading out).  The environment lets voices age, change    *)
(* loudness and end by themselves; the allocator reacts to notes, pedal    *)
(* and mode changes.                                                       *)
(*                                                                         *)
(* own[v] = 1 when voice v is assigned to the note it plays, i.e. the next *)
(* note-off of that note is for it (poly mode).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES voices,   \* sequence of [st, note, vel, age, amp, own]
          max,      \* polyphony limit
          mode,     \* "none" before New, "poly", "mono", "legato", "unison"
          steal,    \* "oldest", "quietest", "highest", "lowest", "never"
          last,     \* index (from 0) of the voice taken last, for round robin
          pedal,    \* sustain pedal down
          sus,      \* notes whose key went up while the pedal was down
          cur,      \* mono/legato/unison: note being held, or -1
          res       \* observation: <<active voices, <<<<st, note, vel, triggers>>, ...>> >>

vars == <<voices, max, mode, steal, last, pedal, sus, cur, res>>

Idle == "idle"
Held == "held"
Rel  == "rel"
N == Len(voices)
StN(s) == CASE s = Idle -> 0 [] s = Held -> 1 [] s = Rel -> 2
Active(v) == v.st # Idle

(* tr: set of voices triggered by this operation *)
Obs(vs, tr) ==
  <<Cardinality({i \in 1..Len(vs) : Active(vs[i])}),
    [i \in 1..Len(vs) |-> <<StN(vs[i].st),
                            IF Active(vs[i]) THEN vs[i].note ELSE 0,
                            IF Active(vs[i]) THEN vs[i].vel ELSE 0,
                            IF i \in tr THEN 1 ELSE 0>>]>>

Blank == [st |-> Idle, note |-> 0, vel |-> 0, age |-> 0, amp |-> 0, own |-> 0]
Play(v, n, vel) == [st |-> Held, note |-> n, vel |-> vel, age |-> 0, amp |-> vel, own |-> 1]
Release(v) == IF v.st = Held THEN [v EXCEPT !.st = Rel, !.own = 0] ELSE [v EXCEPT !.own = 0]
Ended(v) == [v EXCEPT !.st = Idle]      \* ended by itself: the assignment stays

Init == /\ voices = <<>> /\ max = 0 /\ mode = "none" /\ steal = "oldest" /\ last = 0
        /\ pedal = FALSE /\ sus = {} /\ cur = -1 /\ res = Obs(<<>>, {})

New(n) == /\ mode = "none"
          /\ voices' = [i \in 1..n |-> Blank]
          /\ max' = n /\ mode' = "poly" /\ steal' = "oldest" /\ last' = 0
          /\ pedal' = FALSE /\ sus' = {} /\ cur' = -1
          /\ res' = Obs(voices', {})

-----------------------------------------------------------------------------
(* choice of a voice for a new note in poly mode *)

RR(i) == ((last + i) % max) + 1            \* i-th voice in round-robin order, i \in 1..max
FreePos == {i \in 1..max : ~Active(voices[RR(i)])}
Free == RR(CHOOSE i \in FreePos : \A j \in FreePos : i <= j)

Better(i, j) ==   \* voice i is a better victim than voice j
  LET a == voices[i] b == voices[j] IN
  CASE steal = "oldest"   -> a.age > b.age   \/ (a.age = b.age /\ i < j)
    [] steal = "quietest" -> a.amp < b.amp   \/ (a.amp = b.amp /\ i < j)
    [] steal = "highest"  -> a.note > b.note \/ (a.note = b.note /\ i < j)
    [] steal = "lowest"   -> a.note < b.note \/ (a.note = b.note /\ i < j)
Victim == CHOOSE i \in 1..max : \A j \in 1..max : i = j \/ Better(i, j)

PlayingOwn(n) == {i \in 1..N : voices[i].own = 1 /\ voices[i].note = n}

PolyOn(n, vel) ==
  LET own == PlayingOwn(n) IN
  CASE own # {} ->          \* the key is (still) assigned: retrigger in place
         /\ voices' = [i \in 1..N |-> IF i \in own THEN Play(voices[i], n, vel) ELSE voices[i]]
         /\ UNCHANGED last
         /\ res' = Obs(voices', own)
    [] own = {} /\ FreePos # {} ->
         /\ voices' = [voices EXCEPT ![Free] = Play(@, n, vel)]
         /\ last' = Free - 1
         /\ res' = Obs(voices', {Free})
    [] own = {} /\ FreePos = {} /\ steal # "never" ->
         /\ voices' = [voices EXCEPT ![Victim] = Play(@, n, vel)]
         /\ UNCHANGED last
         /\ res' = Obs(voices', {Victim})
    [] OTHER -> UNCHANGED <<voices, last>> /\ res' = Obs(voices, {})

ReleaseNotes(ns) == [i \in 1..N |-> IF voices[i].own = 1 /\ voices[i].note \in ns
                                    THEN Release(voices[i]) ELSE voices[i]]

-----------------------------------------------------------------------------
(* mono and legato use voice 1, unison uses all voices up to the limit *)

MonoOn(n, vel) ==
  /\ voices' = [voices EXCEPT ![1] = Play(@, n, vel)]
  /\ cur' = n
  /\ res' = Obs(voices', {1})

LegatoOn(n, vel) ==
  IF cur # -1 /\ Active(voices[1])
  THEN /\ cur' = n /\ UNCHANGED voices /\ res' = Obs(voices, {})   \* no retrigger
  ELSE MonoOn(n, vel)

UnisonOn(n, vel) ==
  /\ voices' = [i \in 1..N |-> IF i <= max THEN Play(voices[i], n, vel) ELSE voices[i]]
  /\ cur' = n
  /\ res' = Obs(voices', 1..max)

NoteOn(n, vel) ==
  /\ mode # "none"
  /\ sus' = sus \ {n}                     \* the key is down again
  /\ CASE mode = "poly"   -> PolyOn(n, vel) /\ UNCHANGED cur
       [] mode = "mono"   -> MonoOn(n, vel) /\ UNCHANGED last
       [] mode = "legato" -> LegatoOn(n, vel) /\ UNCHANGED last
       [] mode = "unison" -> UnisonOn(n, vel) /\ UNCHANGED last
  /\ UNCHANGED <<max, mode, steal, pedal>>

(* keys in ns go up (several at once when the pedal is lifted) *)
Off(ns) ==
  CASE mode = "poly" -> voices' = ReleaseNotes(ns) /\ UNCHANGED cur
    [] mode \in {"mono", "legato"} ->
         IF cur \in ns THEN /\ voices' = [voices EXCEPT ![1] = Release(@)]
                            /\ cur' = -1
                       ELSE UNCHANGED <<voices, cur>>
    [] mode = "unison" ->
         IF cur \in ns THEN /\ voices' = [i \in 1..N |-> Release(voices[i])]
                            /\ cur' = -1
                       ELSE UNCHANGED <<voices, cur>>

NoteOff(n) ==
  /\ mode # "none"
  /\ IF pedal THEN sus' = sus \cup {n} /\ UNCHANGED <<voices, cur>>
              ELSE Off({n}) /\ UNCHANGED sus
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, mode, steal, last, pedal>>

Pedal(on) ==
  /\ mode # "none"
  /\ pedal' = on
  /\ IF on THEN UNCHANGED <<voices, cur, sus>>
           ELSE Off(sus) /\ sus' = {}
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, mode, steal, last>>

AllStop == [i \in 1..N |-> Blank]

Reset ==
  /\ mode # "none"
  /\ voices' = AllStop /\ sus' = {} /\ pedal' = FALSE /\ cur' = -1
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, mode, steal, last>>

SetMode(m) ==
  /\ mode # "none"
  /\ mode' = m
  /\ voices' = AllStop /\ sus' = {} /\ pedal' = FALSE /\ cur' = -1
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, steal, last>>

SetSteal(s) == /\ mode # "none" /\ steal' = s /\ res' = Obs(voices, {})
               /\ UNCHANGED <<voices, max, mode, last, pedal, sus, cur>>

(* lowering the limit stops the voices above it *)
SetMax(m) ==
  /\ mode # "none"
  /\ max' = IF m < 1 THEN 1 ELSE IF m > N THEN N ELSE m
  /\ voices' = [i \in 1..N |-> IF i > max' THEN Blank ELSE voices[i]]
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<mode, steal, last, pedal, sus, cur>>

-----------------------------------------------------------------------------
(* environment *)
Tick(k) ==
  /\ mode # "none"
  /\ voices' = [i \in 1..N |-> IF Active(voices[i]) THEN [voices[i] EXCEPT !.age = @ + k] ELSE voices[i]]
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, mode, steal, last, pedal, sus, cur>>

Loud(i, a) ==
  /\ mode # "none" /\ i <= N
  /\ voices' = [voices EXCEPT ![i].amp = a]
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, mode, steal, last, pedal, sus, cur>>

End(i) ==
  /\ mode # "none" /\ i <= N
  /\ voices' = [voices EXCEPT ![i] = Ended(@)]
  /\ res' = Obs(voices', {})
  /\ UNCHANGED <<max, mode, steal, last, pedal, sus, cur>>

(* MIDI front end: note-on with velocity 0 is a note-off, controller 64 is the pedal *)
Midi(k, a, b) ==
  CASE k = "on"  -> IF b > 0 THEN NoteOn(a, b) ELSE NoteOff(a)
    [] k = "off" -> NoteOff(a)
    [] k = "cc"  -> IF a = 64 THEN Pedal(b >= 64)
                    ELSE mode # "none" /\ UNCHANGED <<voices, max, mode, steal, last, pedal, sus, cur>>
                         /\ res' = Obs(voices, {})
    [] OTHER -> mode # "none" /\ UNCHANGED <<voices, max, mode, steal, last, pedal, sus, cur>>
                /\ res' = Obs(voices, {})

Do(o) ==
  \/ o.op = "new"   /\ New(o.n)
  \/ o.op = "on"    /\ NoteOn(o.note, o.vel)
  \/ o.op = "off"   /\ NoteOff(o.note)
  \/ o.op = "pedal" /\ Pedal(o.on)
  \/ o.op = "reset" /\ Reset
  \/ o.op = "mode"  /\ SetMode(o.m)
  \/ o.op = "steal" /\ SetSteal(o.s)
  \/ o.op = "max"   /\ SetMax(o.m)
  \/ o.op = "tick"  /\ Tick(o.k)
  \/ o.op = "loud"  /\ Loud(o.i, o.a)
  \/ o.op = "end"   /\ End(o.i)
  \/ o.op = "midi"  /\ Midi(o.k, o.a, o.b)

-----------------------------------------------------------------------------
(* Properties *)

Polyphony == Cardinality({i \in 1..N : Active(voices[i])}) <= max
AboveLimitSilent == \A i \in 1..N : i > max => ~Active(voices[i])
OneVoicePerNote == mode = "poly" => \A i, j \in 1..N :
    (i # j /\ voices[i].own = 1 /\ voices[j].own = 1) => voices[i].note # voices[j].note
(* a held voice can still be released: its note is owned by it or is the current one *)
NoStuckVoice == \A i \in 1..N : voices[i].st = Held =>
    IF mode = "poly" THEN voices[i].own = 1
    ELSE IF mode = "legato" THEN cur # -1
    ELSE voices[i].note = cur
MonoOneVoice == mode \in {"mono", "legato"} => \A i \in 2..N : ~Active(voices[i])

Invs == Polyphony /\ AboveLimitSilent /\ OneVoicePerNote /\ NoStuckVoice /\ MonoOneVoice

(* with the pedal down no note-off silences or releases anything; a note-off only
   ever releases voices of its own note; a key that is down keeps its voice when
   the pedal is lifted *)
StepOK(o) ==
  /\ (o.op = "off" /\ pedal) => voices' = voices
  /\ (o.op = "off" /\ mode = "poly") =>
        \A i \in 1..N : voices'[i] # voices[i] => voices[i].note = o.note
  /\ (o.op = "pedal" /\ ~o.on /\ mode = "poly") =>
        \A i \in 1..N : (voices[i].st = Held /\ voices[i].note \notin sus) => voices'[i] = voices[i]
  /\ (o.op = "on" /\ mode = "poly") =>
        Cardinality({i \in 1..N : voices'[i] # voices[i] /\ Active(voices[i])
                                  /\ voices[i].note # o.note}) <= 1
  /\ (o.op = "on" /\ mode = "poly" /\ steal = "never") =>
        \A i \in 1..N : (Active(voices[i]) /\ voices[i].note # o.note) => voices'[i] = voices[i]
=============================================================================
