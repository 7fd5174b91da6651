------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* The class id of a plugin: 16 bytes made from its identifier alone, the  *)
(* same today, tomorrow and in another process, since projects name the    *)
(* plugin by it; a valid version 4 UUID; different for different plugins.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES uids, res
vars == <<uids, res>>
(* what hosts have already stored; the last four are the digest RFC 1321 gives, as a version 4 UUID *)
Known == [g |-> <<18, 52, 86, 120, 154, 188, 222, 240, 17, 34, 51, 68, 85, 102, 119, 136>>,
          f |-> <<135, 101, 67, 33, 254, 220, 186, 152, 136, 119, 102, 85, 68, 51, 34, 17>>,
          d |-> <<170, 187, 204, 221, 238, 255, 0, 17, 153, 136, 119, 102, 85, 68, 51, 34>>,
          a |-> <<12, 193, 117, 185, 192, 241, 70, 168, 177, 195, 153, 226, 105, 119, 38, 97>>,
          m |-> <<162, 168, 251, 243, 236, 157, 65, 24, 146, 119, 236, 89, 251, 184, 192, 16>>,
          e |-> <<212, 29, 140, 217, 143, 0, 66, 4, 169, 128, 9, 152, 236, 248, 66, 126>>,
          u |-> <<92, 236, 28, 178, 204, 229, 77, 205, 131, 251, 236, 149, 21, 179, 11, 5>>]
Init == uids = <<>> /\ res = <<>>
Has(id) == \E i \in 1..Len(uids) : uids[i][1] = id
Uid(o) ==
  /\ Len(o.got) = 16 /\ \A i \in 1..16 : o.got[i] \in 0..255
  /\ IF o.known \in DOMAIN Known THEN o.got = Known[o.known]
     ELSE o.got[7] \div 16 = 4 /\ o.got[9] \div 64 = 2
  /\ \A i \in 1..Len(uids) : (uids[i][1] = o.id) <=> (uids[i][2] = o.got)
  /\ uids' = (IF Has(o.id) THEN uids ELSE Append(uids, <<o.id, o.got>>))
  (* an identifier is valid unless it is empty *)
  /\ res' = <<IF o.id = <<>> THEN 0 ELSE 1>>
Do(o) == o.op = "uid" /\ Uid(o)
Invs == \A i, j \in 1..Len(uids) : i # j => uids[i][1] # uids[j][1] /\ uids[i][2] # uids[j][2]
StepOK(o) == \A i \in 1..Len(uids) : uids'[i] = uids[i]
=============================================================================
