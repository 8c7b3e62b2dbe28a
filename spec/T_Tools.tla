------------------------------ MODULE T_Tools ------------------------------
(* Conformance of recorded runs of the command line tools with OgdlTools (C24). *)
EXTENDS OgdlTools, TraceBatch
Conforms(c, r) == ~Failed(r) /\ r.code \in {0, 1} /\ Prints(c, r.out)
Why(c, r) == IF Failed(r) THEN {"failed"} ELSE {Tool(c)}
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN LET t == Tool(c) IN PrintT("STAT 1 1 " \o c.tool \o (IF t.u THEN " open" ELSE IF t.exact THEN " exact" ELSE IF t.n = <<>> THEN " empty" ELSE IF Representable(t.n) THEN " tree" ELSE " odd")) ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================
