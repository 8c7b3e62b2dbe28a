------------------------------ MODULE T_Equal ------------------------------
(***************************************************************************)
(* Conformance of recorded comparisons, clones and copies of trees in flat *)
(* form: trees are equal exactly if they are the same sequence of levels   *)
(* and typed contents; edits of one side stay there (C09).                 *)
(***************************************************************************)
EXTENDS OgdlTypes, TraceBatch

T(v, n) == [nil |-> FALSE, v |-> v, n |-> n]
D == Str_(<<100>>)
Copied(c) == <<[l |-> 0, v |-> Str_(<<102,105,114,115,116>>)]>> \o c.a

\* node x (0 the root) gets new content and a new last subnode
Edited(v, n, x) ==
  LET end == IF x = 0 THEN Len(n)
             ELSE LET m == SelectInSubSeq(n, x + 1, Len(n), LAMBDA y : y.l <= n[x].l) IN IF m = 0 THEN Len(n) ELSE m - 1
      l == IF x = 0 THEN 0 ELSE n[x].l + 1
      ch == Str_(<<99,104,97,110,103,101,100>>) IN
  T(IF x = 0 THEN ch ELSE v,
    (IF x = 0 THEN SubSeq(n, 1, end) ELSE [i \in 1 .. end |-> IF i = x THEN [n[i] EXCEPT !.v = ch] ELSE n[i]])
      \o <<[l |-> l, v |-> Str_(<<97,100,100,101,100>>)]>> \o From(n, end + 1))

Conforms(c, r) ==
  /\ ~Failed(r)
  /\ LET eq == c.va = c.vb /\ c.a = c.b IN
     r.ab = eq /\ r.ba = eq
  /\ r.aa /\ r.ak
  /\ r.clone = T(c.va, c.a)
  /\ r.copy = T(D, Copied(c))
  /\ r.a1 = T(c.va, c.a)
  /\ r.k1 = Edited(c.va, c.a, c.edit % (Len(c.a) + 1))
  /\ r.d1 = T(D, Copied(c))

Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], "")
=============================================================================
