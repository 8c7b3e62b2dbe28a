------------------------------ MODULE T_Deliver ------------------------------
(***************************************************************************)
(* Input that arrives in pieces (C03): the tree is the one of the bytes    *)
(* that were delivered before the reader ended or failed.                  *)
(***************************************************************************)
EXTENDS OgdlText, OgdlBinary, TraceBatch

InDomain(text) == \A i \in DOMAIN text : text[i] >= 32 \/ IsBreak(text[i]) \/ text[i] = TAB
Conforms(c, r) ==
  IF Failed(r) THEN FALSE
  ELSE LET t == SubSeq(c.text, 1, c.cut) IN
  IF c.bin
  THEN LET d == Decode(t) IN IF Complete(d) THEN ~r.tree.nil /\ r.tree.n = DecodedTree(d) ELSE r.tree.nil
  ELSE ~InDomain(t) \/
       LET ev == Place(Events(t))
           n  == r.tree.n IN
       /\ (r.tree.nil => ev = <<>>)
       /\ Len(n) = Len(ev)
       /\ \A x \in DOMAIN ev :
            /\ n[x].l = ev[x].l
            /\ IF c.types /\ ev[x].k = "p" THEN PlainScalar(n[x].v, ev[x].b) ELSE n[x].v = Str_(ev[x].b)
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], "")
=============================================================================
