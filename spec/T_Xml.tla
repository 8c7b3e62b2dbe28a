------------------------------- MODULE T_Xml -------------------------------
(* Conformance of recorded imports of XML documents with OgdlXml (C18). *)
EXTENDS OgdlXml, TraceBatch
Conforms(c, r) == ~Failed(r) /\ IsTree(r.n) /\ Found(r.n, Xml(c.t))
Why(c, r) == IF Failed(r) THEN "failed" ELSE Xml(c.t)
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN PrintT("STAT 1 1 " \o Xml(c.t).end) ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================
