------------------------------- MODULE T_Emit -------------------------------
(* Conformance of recorded emissions (C02). *)
EXTENDS OgdlEmit, TraceBatch

Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Shift(nodes) == [i \in DOMAIN nodes |-> [l |-> nodes[i].l + 1, v |-> nodes[i].v]]
Conforms(c, r) ==
  IF ~Representable(Solid(c.tree)) THEN TRUE
  ELSE /\ ~Failed(r)
       /\ Means(r.text, Solid(c.tree))                       \* the text means the tree
       /\ Same(r.back.n, Solid(c.tree))                      \* and is read as such
       /\ r.text2 = r.text                            \* emitting again gives the same
       /\ LET sh == <<[l |-> 0, v |-> Str_(IF c.root = <<>> THEN <<95>> ELSE c.root)]>> \o Shift(Dashed(c.tree)) IN
          Representable(sh) =>                        \* the form with the root
            Means(r.show, sh) /\ Same(r.showback.n, sh)
       /\ Same(r.after, c.tree)                       \* the tree is untouched
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], EmitText(Trace[j].c.tree))
=============================================================================
