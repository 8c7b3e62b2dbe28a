------------------------------ MODULE MC_Check ------------------------------
(***************************************************************************)
(* Schemas and trees of a few nodes, grown node by node and changed in one *)
(* place.  Checked: a tree conforms to itself as a schema (literals); more *)
(* nodes at the end do not matter; a schema with more nodes accepts less.  *)
(* Every pair is exported.                                                 *)
(***************************************************************************)
EXTENDS OgdlSchema, Json, TLC
CONSTANTS MaxS, MaxT, Every

A == Str_(<<97>>)
SPool == << A, Str_(TInt), Str_(TFloat), Str_(TBool), Str_(TString), Str_(TBinary), Str_(<<33,120>>), Str_(<<>>) >>
TPool == << A, Str_(<<98>>), Str_(<<53>>), Str_(<<49,46,53>>), Str_(TrueT), Byt_(<<97>>), Byt_(<<53>>), [t |-> "i", b |-> <<51>>, g |-> "int"], [t |-> "i", b |-> <<51>>, g |-> "int32"],
            [t |-> "f", b |-> <<49,46,53,101,43,48,48>>, g |-> "float64"], Bool_(TRUE), Nil_, Str_(TInt) >>

VARIABLES s, t
vars == <<s, t>>
N(l, v) == [l |-> l, v |-> v]
Grow(n, pool) == {Append(n, N(l, pool[i])) : l \in 0 .. (IF n = <<>> THEN 0 ELSE n[Len(n)].l + 1), i \in DOMAIN pool}
Init == s = <<>> /\ t = <<>>
Next == \/ t = <<>> /\ Len(s) < MaxS /\ s' \in Grow(s, SPool) /\ UNCHANGED t
        \/ Len(t) < MaxT /\ t' \in Grow(t, TPool) /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

Two(a, b) == LET p == Plant(HeapInit(0), A, a)  q == Plant(p.h, A, b) IN [h |-> q.h, s |-> p.id, x |-> q.id]
Res(a, b) == LET w == Two(a, b) IN CheckBelow(w.h, w.s, w.x)
Literal(n) == \A i \in DOMAIN n : StrOf(n[i].v) = <<>> \/ StrOf(n[i].v)[1] # 33
Reflexive == Literal(s) => Res(s, s).ok
\* a node added at the end of the tree keeps it conforming; a node left out of the schema too
Widens == (Res(s, t).ok /\ ~Res(s, t).odd) =>
              /\ t # <<>> => LET less == SubSeq(s, 1, Len(s) - 1) IN Res(less, t).ok
              /\ Res(s, Append(t, N(0, A))).ok
Message_ == ~Res(s, t).ok => Message(Res(s, t)) # <<>>
Hash == FoldLeft(LAMBDA a, n : (7 * a + 3 * n.l + Len(n.v.b) + FoldLeft(LAMBDA x, y : x + y, 0, n.v.b)) % 1009, 0, s \o t)
Export == s # <<>> /\ Hash % Every = 0 => PrintT("CASE " \o ToJson([schema |-> s, tree |-> t, snil |-> FALSE, tnil |-> FALSE]))
=============================================================================
