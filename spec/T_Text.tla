------------------------------- MODULE T_Text -------------------------------
(* Conformance of recorded parses with OgdlText (C01). *)
EXTENDS OgdlText, OgdlTypes, OgdlTree, TraceBatch

InDomain(text) == \A i \in DOMAIN text : text[i] >= 32 \/ IsBreak(text[i]) \/ text[i] = TAB

Conforms(c, r) ==
  IF ~InDomain(c.text) THEN TRUE
  ELSE IF Failed(r) THEN FALSE
  ELSE LET ev == Place(Events(c.text))
           n  == r.tree.n IN
       /\ (r.tree.nil => ev = <<>>)
       /\ Len(n) = Len(ev)
       /\ \A x \in DOMAIN ev :
            /\ n[x].l = ev[x].l
            /\ IF c.types /\ ev[x].k = "p" THEN PlainScalar(n[x].v, ev[x].b)
               ELSE n[x].v = Str_(ev[x].b)

Check == j <= Len(Trace) =>
           \/ Conforms(Trace[j].c, Trace[j].r)
           \/ Reject(Trace[j], Events(Trace[j].c.text))
=============================================================================
