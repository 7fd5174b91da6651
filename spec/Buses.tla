------------------------------- MODULE Buses -------------------------------
(***************************************************************************)
(* Bus configurations: builders, the configurations they build, templates, *)
(* and the queries a host makes.  A bus is                                 *)
(*    <<media, direction, channels, name, type, active>>                   *)
(* with media 0 audio / 1 event, direction 0 input / 1 output, type 0 main *)
(* / 1 auxiliary.                                                          *)
(***************************************************************************)
EXTENDS Ord
VARIABLES bld,    \* builders: sequence of [a, e, err]
          cfg,    \* configurations: sequence of [a, e]
          res
vars == <<bld, cfg, res>>
Init == bld = <<>> /\ cfg = <<>> /\ res = <<>>

Bus(m, d, ch, n, t, act) == <<m, d, ch, n, t, act>>
InDir(s, d) == SelectSeq(s, LAMBDA b : b[2] = d)
List(c, m) == IF m = 1 THEN c.e ELSE c.a
(* position in s of the i-th (from 0) bus of direction d, 0 when there is none *)
RECURSIVE Pos(_, _, _, _)
Pos(s, d, i, at) == IF at > Len(s) THEN 0
                    ELSE IF s[at][2] # d THEN Pos(s, d, i, at + 1)
                    ELSE IF i = 0 THEN at ELSE Pos(s, d, i - 1, at + 1)
At(c, m, d, i) == IF i < 0 THEN 0 ELSE Pos(List(c, m), d, i, 1)
SetAct(c, m, d, i, b) == LET p == At(c, m, d, i) IN
  IF p = 0 THEN c ELSE IF m = 1 THEN [c EXCEPT !.e[p][6] = b] ELSE [c EXCEPT !.a[p][6] = b]

NewBuilder == bld' = Append(bld, [a |-> <<>>, e |-> <<>>, err |-> 0]) /\ UNCHANGED cfg /\ res' = <<>>
(* the shorthands of the builder: <<direction, type, channels>> *)
Short == [stereoin |-> <<0, 0, 2>>, stereoout |-> <<1, 0, 2>>, monoin |-> <<0, 0, 1>>, monoout |-> <<1, 0, 1>>,
          sidechain |-> <<0, 1, 2>>, quadin |-> <<0, 0, 4>>, quadout |-> <<1, 0, 4>>, in51 |-> <<0, 0, 6>>,
          out51 |-> <<1, 0, 6>>, in71 |-> <<0, 0, 8>>, out71 |-> <<1, 0, 8>>]
Audio(d, t, ch, n) == Bus(0, d, ch, n, t, t = 0)      \* auxiliary buses start inactive
Event(d, n) == Bus(1, d, 1, n, 0, TRUE)
AddTo(b, x) == IF x[1] = 1 THEN [b EXCEPT !.e = Append(@, x)] ELSE [b EXCEPT !.a = Append(@, x)]
With(k, d, t, ch, n) == bld' = [bld EXCEPT ![k] = AddTo(@, Audio(d, t, ch, n))] /\ UNCHANGED cfg /\ res' = <<>>
WithShort(k, s, n) == With(k, Short[s][1], Short[s][2], Short[s][3], n)
WithEvent(k, d, n) == bld' = [bld EXCEPT ![k] = AddTo(@, Event(d, n))] /\ UNCHANGED cfg /\ res' = <<>>
BActive(k, m, d, i, b) ==
  /\ bld' = [bld EXCEPT ![k] = IF At(@, m, d, i) = 0 THEN [@ EXCEPT !.err = 1] ELSE SetAct(@, m, d, i, b)]
  /\ UNCHANGED cfg /\ res' = <<>>
Exists(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
Valid(b) == /\ b.err = 0
            /\ Exists(b.a \o b.e, LAMBDA x : x[2] = 1 /\ x[5] = 0)
            /\ \A i \in 1..Len(b.a) : b.a[i][3] \in 1..32
Build(k) == IF Valid(bld[k])
            THEN cfg' = Append(cfg, [a |-> bld[k].a, e |-> bld[k].e]) /\ UNCHANGED bld /\ res' = <<1>>
            ELSE UNCHANGED <<bld, cfg>> /\ res' = <<0>>

-----------------------------------------------------------------------------
(* templates *)
N(i) == ToString(i)
Sends(n, p, t) == [i \in 1..n |-> Audio(1, t, 2, p \o N(i))]
Tmpl(t, n) ==
  LET i(d, ch, nm) == Audio(d, 0, ch, nm) IN
  CASE t = "stereo0" -> [a |-> <<i(0, 2, "Stereo In"), i(1, 2, "Stereo Out")>>, e |-> <<>>]
    [] t = "mono0" -> [a |-> <<i(0, 1, "Mono In"), i(1, 1, "Mono Out")>>, e |-> <<>>]
    [] t = "stereo" -> [a |-> <<i(0, 2, "Stereo In"), i(1, 2, "Stereo Out")>>, e |-> <<>>]
    [] t = "mono" -> [a |-> <<i(0, 1, "Mono In"), i(1, 1, "Mono Out")>>, e |-> <<>>]
    [] t = "sidechain" -> [a |-> <<i(0, 2, "Stereo In"), i(1, 2, "Stereo Out"), Audio(0, 1, 2, "Sidechain In")>>, e |-> <<>>]
    [] t = "m2s" -> [a |-> <<i(0, 1, "Mono In"), i(1, 2, "Stereo Out")>>, e |-> <<>>]
    [] t = "s2m" -> [a |-> <<i(0, 2, "Stereo In"), i(1, 1, "Mono Out")>>, e |-> <<>>]
    [] t = "dualmono" -> [a |-> <<i(0, 1, "Left In"), i(0, 1, "Right In"), i(1, 1, "Left Out"), i(1, 1, "Right Out")>>, e |-> <<>>]
    [] t = "midside" -> [a |-> <<i(0, 2, "Stereo In"), i(1, 2, "Stereo Out"), Audio(1, 1, 1, "Mid"), Audio(1, 1, 1, "Side")>>, e |-> <<>>]
    [] t = "panner" -> [a |-> <<i(0, 2, "Stereo In"), i(1, 6, "5.1 Out")>>, e |-> <<>>]
    [] t = "s51" -> [a |-> <<i(0, 6, "5.1 In"), i(1, 6, "5.1 Out")>>, e |-> <<>>]
    [] t = "s71" -> [a |-> <<i(0, 8, "7.1 In"), i(1, 8, "7.1 Out")>>, e |-> <<>>]
    [] t = "mixer" -> [a |-> <<i(0, 2, "Channel In"), i(1, 2, "Main Out")>> \o Sends(n, "Send ", 1), e |-> <<>>]
    [] t = "analyzer" -> [a |-> <<i(0, 2, "Analysis In"), i(1, 2, "Thru Out")>>, e |-> <<>>]
    [] t = "generator" -> [a |-> <<i(1, 2, "Stereo Out")>>, e |-> <<Event(0, "MIDI In")>>]
    [] t = "midi" -> [a |-> <<>>, e |-> <<Event(0, "MIDI In"), Event(1, "MIDI Out")>>]
    [] t = "vocoder" -> [a |-> <<i(0, 1, "Voice In"), i(1, 1, "Vocoded Out"), Audio(0, 1, 2, "Carrier In")>>, e |-> <<>>]
    [] t = "multi" -> [a |-> <<i(0, n, "Multi In"), i(1, n, "Multi Out")>>, e |-> <<>>]
    [] t = "crossover" -> [a |-> <<i(0, 2, "Stereo In")>> \o Sends(n, "Band ", 1) \o <<i(1, 2, "Main Out")>>, e |-> <<>>]
    [] t = "splitter" -> [a |-> <<i(0, 2, "Input")>> \o Sends(n, "Output ", 0), e |-> <<>>]
Template(t, n) == cfg' = Append(cfg, Tmpl(t, n)) /\ UNCHANGED bld /\ res' = <<>>

-----------------------------------------------------------------------------
AddEvent(c, d, n) == cfg' = [cfg EXCEPT ![c].e = Append(@, Event(d, n))] /\ UNCHANGED bld /\ res' = <<>>
Active(c, m, d, i, b) ==
  /\ cfg' = [cfg EXCEPT ![c] = SetAct(@, m, d, i, b)]
  /\ res' = <<IF At(cfg[c], m, d, i) = 0 THEN 0 ELSE 1>> /\ UNCHANGED bld
Q(r) == res' = r /\ UNCHANGED <<bld, cfg>>
Count(c, m, d) == Q(<<Len(InDir(List(cfg[c], m), d))>>)
Info(c, m, d, i) == Q(LET p == At(cfg[c], m, d, i) IN IF p = 0 THEN <<>> ELSE <<List(cfg[c], m)[p]>>)
Chans(c, d) == Q(LET s == SelectSeq(cfg[c].a, LAMBDA b : b[2] = d /\ b[6]) IN <<SumSeq([i \in 1..Len(s) |-> s[i][3]])>>)
ActiveList(c, m, d) == Q(SelectSeq(List(cfg[c], m), LAMBDA b : b[2] = d /\ b[6]))
Side(c) == Q(LET s == SelectSeq(cfg[c].a, LAMBDA b : b[2] = 0 /\ b[5] = 1) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>)

Do(o) ==
  \/ o.op = "builder" /\ NewBuilder
  \/ o.op = "template" /\ Template(o.t, o.n)
  \/ /\ "k" \in DOMAIN o /\ o.k \in 1..Len(bld)
     /\ \/ o.op = "with" /\ With(o.k, o.d, o.ty, o.ch, o.n)
        \/ o.op = "short" /\ WithShort(o.k, o.s, o.n)
        \/ o.op = "event" /\ WithEvent(o.k, o.d, o.n)
        \/ o.op = "bactive" /\ BActive(o.k, o.m, o.d, o.i, o.b)
        \/ o.op = "build" /\ Build(o.k)
  \/ /\ "c" \in DOMAIN o /\ o.c \in 1..Len(cfg)
     /\ \/ o.op = "addevent" /\ AddEvent(o.c, o.d, o.n)
        \/ o.op = "active" /\ Active(o.c, o.m, o.d, o.i, o.b)
        \/ o.op = "count" /\ Count(o.c, o.m, o.d)
        \/ o.op = "info" /\ Info(o.c, o.m, o.d, o.i)
        \/ o.op = "chans" /\ Chans(o.c, o.d)
        \/ o.op = "activelist" /\ ActiveList(o.c, o.m, o.d)
        \/ o.op = "side" /\ Side(o.c)

Range(s) == {s[i] : i \in 1..Len(s)}
Invs == /\ \A c \in Range(cfg) : /\ \A b \in Range(c.a) : b[1] = 0 /\ b[3] \in 1..32
                                 /\ \A b \in Range(c.e) : b[1] = 1 /\ b[3] = 1
(* every bus is found under exactly one index of its direction *)
        /\ \A c \in Range(cfg) : \A m \in {0, 1} : \A d \in {0, 1} :
             LET n == Len(InDir(List(c, m), d)) IN
             /\ \A i \in -1..(n + 1) : (At(c, m, d, i) # 0) = (i \in 0..(n - 1))
             /\ \A i \in 0..(n - 1) : List(c, m)[At(c, m, d, i)] = InDir(List(c, m), d)[i + 1]
(* builders do not reach into what they built; configurations keep their shape *)
StepOK(o) ==
  /\ "k" \in DOMAIN o => \A i \in 1..Len(cfg) : cfg'[i] = cfg[i]
  /\ o.op \in {"count", "info", "chans", "activelist", "side"} => UNCHANGED <<bld, cfg>>
  /\ "c" \in DOMAIN o => \A i \in 1..Len(cfg) : i # o.c => cfg'[i] = cfg[i]
=============================================================================
