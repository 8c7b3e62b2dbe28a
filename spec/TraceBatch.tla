----------------------------- MODULE TraceBatch -----------------------------
(***************************************************************************)
(* Recorded cases are read from the file named by the environment variable *)
(* TRACE, one JSON record per line: i (number), c (the case) and r (what   *)
(* the real code did).  They are visited by a number of independent        *)
(* cursors, so that TLC's workers share them.  The extending module judges *)
(* each with Conforms; a record that does not conform is reported.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stripes == 32

VARIABLES k, j
TraceInit == k \in 1 .. Stripes /\ j = k
TraceNext == j + Stripes <= Len(Trace) /\ j' = j + Stripes /\ UNCHANGED k
TraceSpec == TraceInit /\ [][TraceNext]_<<k, j>>

Field(r, f) == f \in DOMAIN r
\* The real code crashed, panicked or did not end
Failed(r) == Field(r, "panic") \/ Field(r, "crash") \/ Field(r, "hang")
Reject(rec, why) == PrintT("REJECT " \o ToJson([i |-> rec.i, why |-> why]))
=============================================================================
