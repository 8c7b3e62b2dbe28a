------------------------------- MODULE T_Json -------------------------------
(* Conformance of recorded imports of JSON texts with OgdlJson (C17). *)
EXTENDS OgdlJson, TraceBatch
Nothing(r) == r.err /\ r.d.r[1] = 0
Conforms(c, r) ==
  /\ ~Failed(r)
  /\ LET v == Json_(c.t) IN
     IF ~v.ok THEN Nothing(r)
     ELSE (v.rest /\ Nothing(r)) \/ (~r.err /\ Imported(r.d, v.v))
Why(c, r) == IF Failed(r) THEN "failed" ELSE Json_(c.t)
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN PrintT("STAT 1 1 " \o ToString(Json_(c.t).ok)) ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================
