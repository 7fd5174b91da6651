#!/usr/bin/env python3
"""Writes Trace<Spec>.tla/.cfg for a deterministic specification (committed output)."""
import sys, os
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
for a in sys.argv[1:]:
    name, *inv = a.split(":")
    invs = [x for x in (inv[0].split(",") if inv else []) if x]
    m = "Trace" + name
    with open(os.path.join(SPEC, m + ".tla"), "w") as f:
        f.write("""%s MODULE %s %s
(* Validates histories recorded from the code: t is the history, l the next  *)
(* step.  A step the specification does not allow leaves the state without a *)
(* successor, which TLC reports as a deadlock.                               *)
EXTENDS %s, Json, IOUtils
VARIABLES t, l
H == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\\ t \\in 1..Len(H) /\\ l = 1
Step == l <= Len(H[t]) /\\ Do(H[t][l].e) /\\ res' = H[t][l].res /\\ l' = l + 1 /\\ t' = t
Done == l > Len(H[t]) /\\ UNCHANGED <<vars, t, l>>
TraceNext == Step \\/ Done
Steps == [][l' # l => StepOK(H[t][l].e)]_<<vars, t, l>>
=============================================================================
""" % ("-" * 20, m, "-" * 20, name))
    with open(os.path.join(SPEC, m + ".cfg"), "w") as f:
        f.write("INIT TraceInit\nNEXT TraceNext\n%sPROPERTY Steps\nCHECK_DEADLOCK TRUE\n" %
                "".join("INVARIANT %s\n" % i for i in invs))
