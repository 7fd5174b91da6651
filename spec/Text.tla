-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* What a parameter shows for a value and what it reads a text as.         *)
(*                                                                         *)
(* Values are in thousandths of the parameter's unit.  A number is shown   *)
(* rounded to the precision of its kind; the text that is shown is read    *)
(* back as the number it shows, limited to the range.  Names are shown and *)
(* read back exactly.  In the texts of this specification "inf", "deg" and *)
(* "u" stand for the signs of infinity, degrees and micro.                 *)
(***************************************************************************)
EXTENDS Ord
VARIABLES p, shown, res
vars == <<p, shown, res>>
Init == p = [k |-> ""] /\ shown = 0 /\ res = <<>>

\* --- numbers ---
Pow10 == [i \in 0..7 |-> <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000>>[i + 1]]
Pad(n, k) == IF k = 3 THEN (IF n < 10 THEN "00" ELSE IF n < 100 THEN "0" ELSE "") \o ToString(n)
             ELSE IF k = 2 THEN (IF n < 10 THEN "0" ELSE "") \o ToString(n) ELSE ToString(n)
Digits(n, k) == IF k = 0 THEN ToString(n) ELSE ToString(n \div Pow10[k]) \o "." \o Pad(n % Pow10[k], k)
(* the integers nearest to v/u: two of them halfway *)
Nearest(v, u) == {n \in {v \div u, v \div u + 1} : 2 * Abs(v - n * u) <= u}
Signs(v, n, k) == IF n = 0 THEN {Digits(0, k)} \cup (IF v <= 0 THEN {"-" \o Digits(0, k)} ELSE {})
                  ELSE IF n < 0 THEN {"-" \o Digits(-n, k)} ELSE {Digits(n, k)}
(* v as a multiple of u with k decimals between pre and suf: the texts and what they say *)
Num(v, u, k, pre, suf) == UNION {{[t |-> pre \o s \o suf, d |-> n * u] : s \in Signs(v, n, k)} : n \in Nearest(v, u)}
Side(v, u, pre, suf) == {[t |-> pre \o ToString(Abs(n)) \o suf, d |-> n * u] : n \in Nearest(v, u)}
(* the ways to show v on either side of a boundary, both at the boundary itself *)
From(v, b, S) == IF v >= b THEN S ELSE {}
Upto(v, b, S) == IF v <= b THEN S ELSE {}
One1(t, d) == {[t |-> t, d |-> d]}

\* --- names ---
FilterNames == <<"Lowpass", "Highpass", "Bandpass", "Notch", "Allpass", "Peaking EQ", "Low Shelf", "High Shelf">>
FilterAlias == <<{"lowpass", "low pass", "lpf", "lp"}, {"highpass", "high pass", "hpf", "hp"}, {"bandpass", "band pass", "bpf", "bp"},
                 {"notch", "band reject", "band stop", "br", "bs"}, {"allpass", "all pass", "apf", "ap"},
                 {"peaking", "peaking eq", "peak", "bell", "parametric"}, {"low shelf", "lowshelf", "ls", "bass"},
                 {"high shelf", "highshelf", "hs", "treble"}>>
GateNames == <<"Hard Gate", "Soft Gate", "Expander", "Ducker">>
GateAlias == <<{"hard", "hard gate", "gate"}, {"soft", "soft gate"}, {"expander", "expand", "expansion"}, {"ducker", "duck", "ducking"}>>
NoteNames == <<"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B">>
NoteAlias == "C" :> 0 @@ "C#" :> 1 @@ "Db" :> 1 @@ "D" :> 2 @@ "D#" :> 3 @@ "Eb" :> 3 @@ "E" :> 4 @@ "Fb" :> 4 @@ "E#" :> 5 @@ "F" :> 5 @@
             "F#" :> 6 @@ "Gb" :> 6 @@ "G" :> 7 @@ "G#" :> 8 @@ "Ab" :> 8 @@ "A" :> 9 @@ "A#" :> 10 @@ "Bb" :> 10 @@ "B" :> 11 @@ "B#" :> 12 @@ "Cb" :> -1
OnOff == <<{"off", "no", "false", "0"}, {"on", "yes", "true", "1"}>>
Named == {"choice", "bypass", "onoff", "ftype", "gtype", "note"}
BypassOpts == <<<<0, "Active", {}>>, <<1, "Bypassed", {}>>>>
NearestOpts(os, v) == {i \in 1..Len(os) : \A j \in 1..Len(os) : Abs(v - os[i][1] * 1000) <= Abs(v - os[j][1] * 1000)}

\* --- what is shown ---
Freq(v) == Upto(v, 1000000, Num(v, 100, 1, "", " Hz")) \cup From(v, 1000000, Num(v, 10000, 2, "", " kHz"))
Time(v) == Upto(v, 1000000, Num(v, 100, 1, "", " ms")) \cup From(v, 1000000, Num(v, 10000, 2, "", " s"))
NameAt(ns, v) == {[t |-> ns[n + 1], d |-> n * 1000] : n \in {m \in Nearest(v, 1000) : m >= 0 /\ m < Len(ns)}}
Show(q, v) ==
  CASE q.k = "plain" -> IF q.steps > 0 THEN Num(v, 1000, 0, "", "") ELSE Num(v, 10, 2, "", "")
    [] q.k = "gain" -> Upto(v, -80000, One1("-inf dB", -80000)) \cup From(v, -80000 + 1, Num(v, 100, 1, "", " dB"))
    [] q.k \in {"threshold", "meter"} -> Upto(v, -60000, One1("-inf dB", -96000)) \cup From(v, -60000, Num(v, 100, 1, "", " dB"))
    [] q.k \in {"mix", "feedback", "drive", "depth"} -> Num(v, 1000, 0, "", "%")
    [] q.k = "freq" -> Freq(v)
    [] q.k = "rate" -> Upto(v, 1000, Num(v, 1, 3, "", " Hz")) \cup From(v, 1000, Num(v, 10, 2, "", " Hz"))
    [] q.k \in {"time", "attack", "release"} -> Time(v)
    [] q.k = "timeu" -> Upto(v, 1000, {[t |-> Digits(v * 100, 2) \o " us", d |-> v]}) \cup From(v, 1000, Time(v))
    [] q.k = "ratio" -> From(v, 100000, One1("inf:1", 100000)) \cup Upto(v, 100000, Num(v, 100, 1, "", ":1"))
    [] q.k = "ratiof" -> Num(v, 100, 1, "", ":1")
    [] q.k = "q" -> Num(v, 10, 2, "Q: ", "")
    [] q.k = "knee" -> Num(v, 100, 1, "", " dB")
    [] q.k = "pan" -> IF v = 0 THEN One1("Center", 0) ELSE IF v < 0 THEN Side(v, 1000, "", "% L") ELSE Side(v, 1000, "", "% R")
    [] q.k = "panu" -> (IF Abs(v) <= 10 THEN One1("C", 0) ELSE {}) \cup
                       (IF v <= -10 THEN Side(v, 10, "", "L") ELSE IF v >= 10 THEN Side(v, 10, "", "R") ELSE {})
    [] q.k = "phase" -> Num(v, 100, 1, "", "deg")
    [] q.k = "res" -> Num(v, 1, 3, "", "")
    [] q.k \in {"choice", "bypass"} -> {[t |-> q.opts[i][2], d |-> q.opts[i][1] * 1000] : i \in NearestOpts(q.opts, v)}
    [] q.k = "onoff" -> From(v, 500, One1("On", 1000)) \cup Upto(v, 500, One1("Off", 0))
    [] q.k = "ftype" -> NameAt(FilterNames, v)
    [] q.k = "gtype" -> NameAt(GateNames, v)
    [] q.k = "note" -> {[t |-> NoteNames[(n % 12) + 1] \o ToString((n \div 12) - 1), d |-> n * 1000] : n \in Nearest(v, 1000)}
(* some numbers with their units: <<multiple, divisor>> of what precedes the unit *)
Units(k) ==
  CASE k \in {"plain", "res"} -> ("" :> <<1, 1>>)
    [] k \in {"gain", "threshold", "knee"} -> ("" :> <<1, 1>> @@ " dB" :> <<1, 1>> @@ "dB" :> <<1, 1>> @@ " db" :> <<1, 1>>)
    [] k \in {"mix", "feedback", "drive", "depth"} -> ("" :> <<1, 1>> @@ "%" :> <<1, 1>>)
    [] k \in {"freq", "rate"} -> ("" :> <<1, 1>> @@ " Hz" :> <<1, 1>> @@ "hz" :> <<1, 1>> @@ " kHz" :> <<1000, 1>> @@ "khz" :> <<1000, 1>>)
    [] k \in {"time", "attack", "release"} -> ("" :> <<1, 1>> @@ " ms" :> <<1, 1>> @@ "MS" :> <<1, 1>> @@ " s" :> <<1000, 1>> @@ "S" :> <<1000, 1>>)
    [] k = "timeu" -> ("" :> <<1, 1>> @@ " ms" :> <<1, 1>> @@ "us" :> <<1, 1000>> @@ " us" :> <<1, 1000>> @@ " s" :> <<1000, 1>> @@ "s" :> <<1000, 1>>)
    [] k \in {"ratio", "ratiof"} -> ("" :> <<1, 1>> @@ ":1" :> <<1, 1>> @@ " :1" :> <<1, 1>>)
    [] k = "q" -> ("" :> <<1, 1>>)
    [] k = "pan" -> ("" :> <<1, 1>> @@ "%" :> <<1, 1>> @@ " l" :> <<-1, 1>> @@ "% L" :> <<-1, 1>> @@ "% left" :> <<-1, 1>> @@ " Left" :> <<-1, 1>> @@
                     "r" :> <<1, 1>> @@ "% R" :> <<1, 1>> @@ "% Right" :> <<1, 1>>)
    [] k = "panu" -> ("" :> <<1, 1>> @@ "L" :> <<-1, 100>> @@ " l" :> <<-1, 100>> @@ "R" :> <<1, 100>> @@ " r" :> <<1, 100>>)
    [] k = "phase" -> ("" :> <<1, 1>> @@ "deg" :> <<1, 1>> @@ " deg" :> <<1, 1>> @@ " degrees" :> <<1, 1>>)

\* --- the kinds: range, default (thousandths), steps, unit ---
Kind(k, lo, hi, d, s, u) == [k |-> k, lo |-> lo, hi |-> hi, def |-> d, steps |-> s, unit |-> u, opts |-> <<>>]
Make(o) ==
  CASE o.k = "plain" -> Kind("plain", o.lo, o.hi, Clamp(o.d, o.lo, o.hi), o.steps, "")
    [] o.k = "gain" -> Kind("gain", -80000, 12000, 0, 0, "dB")
    [] o.k = "mix" -> Kind("mix", 0, 100000, 100000, 0, "%")
    [] o.k \in {"feedback", "drive"} -> Kind(o.k, 0, 100000, 0, 0, "%")
    [] o.k = "depth" -> Kind("depth", 0, 100000, 50000, 0, "%")
    [] o.k \in {"freq", "rate"} -> Kind(o.k, o.lo, o.hi, Clamp(o.d, o.lo, o.hi), 0, "Hz")
    [] o.k = "time" -> Kind("time", o.lo, o.hi, Clamp(o.d, o.lo, o.hi), 0, "ms")
    [] o.k = "attack" -> Kind("attack", 100, o.hi, Min2(10000, o.hi), 0, "ms")
    [] o.k = "release" -> Kind("release", 1000, o.hi, Min2(100000, o.hi), 0, "ms")
    [] o.k = "threshold" -> Kind("threshold", o.lo, o.hi, Clamp(o.d, o.lo, o.hi), 0, "dB")
    [] o.k = "meter" -> Kind("meter", -60000, 0, -60000, 0, "dB")
    [] o.k \in {"ratio", "q", "ratiof", "timeu", "panu", "knee"} -> Kind(o.k, o.lo, o.hi, Clamp(o.d, o.lo, o.hi), 0, "")
    [] o.k = "pan" -> Kind("pan", -100000, 100000, 0, 0, "")
    [] o.k = "phase" -> Kind("phase", 0, 360000, 0, 0, "deg")
    [] o.k = "res" -> Kind("res", 0, 1000, 707, 0, "")
    [] o.k = "bypass" -> [Kind("bypass", 0, 1000, 0, 1, "") EXCEPT !.opts = BypassOpts]
    [] o.k = "choice" -> [Kind("choice", o.opts[1][1] * 1000, o.opts[Len(o.opts)][1] * 1000, o.opts[1][1] * 1000, Len(o.opts) - 1, "")
                          EXCEPT !.opts = [i \in 1..Len(o.opts) |-> <<o.opts[i][1], o.opts[i][2], {o.opts[i][j] : j \in 3..Len(o.opts[i])}>>]]
    [] o.k = "onoff" -> Kind("onoff", 0, 1000, 0, 1, "")
    [] o.k = "ftype" -> Kind("ftype", 0, 7000, 0, 7, "")
    [] o.k = "gtype" -> Kind("gtype", 0, 3000, 0, 3, "")
    [] o.k = "note" -> Kind("note", 0, 127000, Clamp(o.d, 0, 127000), 127, "")
Facts(q) == <<q.lo, q.hi, q.def, q.steps, q.unit>>
New(o) == p' = Make(o) /\ shown' = 0 /\ res' = Facts(p')

(* a value is shown: text is what came out *)
Format(v, text) ==
  /\ p.k # "" /\ res' = <<>> /\ UNCHANGED p
  /\ \E s \in Show(p, Clamp(v, p.lo, p.hi)) : s.t = text /\ shown' = s.d
(* what was shown last is read back; y in thousandths, ok whether it was understood *)
Back(y, ok) ==
  /\ p.k \notin {"", "meter"} /\ res' = <<>> /\ UNCHANGED <<p, shown>>
  /\ ok /\ Abs(y - Clamp(shown, p.lo, p.hi)) <= 1
(* a number n/10^k and a unit are read *)
Parse(n, k, unit, y, ok) ==
  /\ p.k \notin Named \cup {"", "meter"} /\ unit \in DOMAIN Units(p.k) /\ res' = <<>> /\ UNCHANGED <<p, shown>>
  /\ LET m == Units(p.k)[unit]
         v == IF m[2] = 1 THEN n * Pow10[3 - k] * m[1] ELSE IF m[2] = 1000 THEN n \div Pow10[k] ELSE (n * Pow10[3 - k] * m[1]) \div m[2] IN
     ok /\ Abs(y - Clamp(v, p.lo, p.hi)) <= 1
(* a word is read, in lower case *)
Word(w, y, ok) ==
  /\ p.k # "" /\ res' = <<>> /\ UNCHANGED <<p, shown>>
  /\ LET is(v) == ok /\ Abs(y - Clamp(v, p.lo, p.hi)) <= 1 IN
     CASE w = "?" -> ~ok
       [] w = "-inf db" -> (p.k = "gain" /\ is(-80000)) \/ (p.k = "threshold" /\ is(-96000))
       [] w = "inf:1" -> p.k = "ratio" /\ is(100000)
       [] w \in {"center", "c"} -> p.k \in {"pan", "panu"} /\ is(0)
       [] OTHER -> FALSE
(* the name i (or its alias) is read, in some case *)
Name(w, i, y, ok) ==
  /\ p.k \in Named /\ res' = <<>> /\ UNCHANGED <<p, shown>>
  /\ LET is(v) == ok /\ Abs(y - Clamp(v, p.lo, p.hi)) <= 1 IN
     CASE p.k \in {"choice", "bypass"} -> (w = p.opts[i][2] \/ w \in p.opts[i][3]) /\ is(p.opts[i][1] * 1000)
       [] p.k = "ftype" -> (w = FilterNames[i] \/ w \in FilterAlias[i]) /\ is(i * 1000 - 1000)
       [] p.k = "gtype" -> (w = GateNames[i] \/ w \in GateAlias[i]) /\ is(i * 1000 - 1000)
       [] p.k = "onoff" -> w \in OnOff[i] /\ is(i * 1000 - 1000)
       [] p.k = "note" -> w \in DOMAIN NoteAlias /\ is(((i + 1) * 12 + NoteAlias[w]) * 1000)

\* --- the groups of parameters that are registered together ---
EqTypes == <<<<0, "Bell">>, <<1, "Low Shelf">>, <<2, "High Shelf">>, <<3, "Low Pass">>, <<4, "High Pass">>, <<5, "Notch">>>>
Std == <<<<"Bypass", Make([k |-> "bypass"])>>, <<"Mix", Make([k |-> "mix"])>>, <<"Input Gain", Make([k |-> "gain"])>>, <<"Output Gain", Make([k |-> "gain"])>>>>
Comp == <<<<"Threshold", Make([k |-> "threshold", lo |-> -60000, hi |-> 0, d |-> -20000])>>, <<"Ratio", Make([k |-> "ratio", lo |-> 1000, hi |-> 20000, d |-> 4000])>>,
          <<"Attack", Make([k |-> "attack", hi |-> 100000])>>, <<"Release", Make([k |-> "release", hi |-> 1000000])>>,
          <<"Knee", Make([k |-> "knee", lo |-> 0, hi |-> 10000, d |-> 2000])>>, <<"Auto Gain", Make([k |-> "bypass"])>>>>
Eq(n) == LET b == "Band " \o ToString(n) IN
         <<<<b \o " Enable", Make([k |-> "bypass"])>>, <<b \o " Frequency", Make([k |-> "freq", lo |-> 20000, hi |-> 20000000, d |-> 1000000])>>,
           <<b \o " Gain", Make([k |-> "gain"])>>, <<b \o " Q", Make([k |-> "q", lo |-> 100, hi |-> 10000, d |-> 700])>>,
           <<b \o " Type", Make([k |-> "choice", opts |-> EqTypes])>>>>
Group(g) == IF g = "std" THEN Std ELSE IF g = "comp" THEN Comp ELSE Eq(1)
Register(g, n) ==
  /\ UNCHANGED <<p, shown>>
  /\ res' = LET G == IF g = "eq" THEN Eq(n) ELSE Group(g) IN [i \in 1..Len(G) |-> <<G[i][1]>> \o Facts(G[i][2])]
(* the i-th of a group is taken for the texts that follow *)
Take(g, i) == p' = (IF g = "eq" THEN Eq(3) ELSE Group(g))[i][2] /\ shown' = 0 /\ res' = Facts(p')

Do(o) ==
  \/ o.op = "new" /\ New(o)
  \/ o.op = "format" /\ Format(o.v, o.text)
  \/ o.op = "back" /\ Back(o.y, o.ok)
  \/ o.op = "parse" /\ Parse(o.n, o.k, o.unit, o.y, o.ok)
  \/ o.op = "word" /\ Word(o.w, o.y, o.ok)
  \/ o.op = "name" /\ Name(o.w, o.i, o.y, o.ok)
  \/ o.op = "register" /\ Register(o.g, o.n)
  \/ o.op = "take" /\ Take(o.g, o.i)
(* every value has a text *)
Invs == p.k # "" => \A v \in {p.lo, p.hi, p.def, (p.lo + p.hi) \div 2} : Show(p, v) # {} /\ p.lo <= p.hi /\ p.def \in p.lo..p.hi
StepOK(o) == o.op \notin {"new", "take"} => p' = p
=============================================================================
