----------------------------- MODULE MC_Events -----------------------------
(***************************************************************************)
(* Every short sequence of events.  Checked: where levels have no gaps,    *)
(* the tree is the sequence of its nodes; in any case it has no node that  *)
(* was not added, no node more than added, and no level below its parent's *)
(* but the next; what is added after a node never changes its ancestors.   *)
(* Every sequence is exported.                                             *)
(***************************************************************************)
EXTENDS OgdlEvents, Json
CONSTANTS MaxOps, Every, Rest
VARIABLES s, ops
vars == <<s, ops>>
No == Nil_
Op(o, v, l) == [o |-> o, v |-> v, l |-> l]
\* contents are told apart by their number
Txt == Str_(<<97 + Len(ops)>>)
Moves == {Op("add", Txt, 0), Op("addat", Txt, 0), Op("addat", Txt, 1), Op("addat", Txt, 2), Op("delete", No, 0), Op("inc", No, 0), Op("dec", No, 0), Op("set", No, 2), Op("set", No, 0), Op("tree", No, 0)}
Hash == FoldLeft(LAMBDA a, o : (7 * a + Len(o.o) + 3 * o.l) % 9973, 1, ops)
Init == s = EvInit /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ Len(ops) < Rest \/ Hash % Every = 0
        /\ \E o \in Moves : s' = EvOp(s, o) /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_vars

Tr == EvTree(s)
AsAdded == Steady(s) => Tr = s.items
Nested == \A i \in DOMAIN Tr : Tr[i].l <= IF i = 1 THEN 0 ELSE Tr[i - 1].l + 1
Members == /\ Len(Tr) <= Len(s.items)
           /\ \A i \in DOMAIN Tr : Contains(s.items, Tr[i])
LevelOk == s.cur >= 0
\* the ancestors of a node that is in the tree, by what was added before it alone
Settled == [][Len(s'.items) > Len(s.items) => SelectSeq(EvTree(s'), LAMBDA x : x # s'.items[Len(s'.items)]) = Tr]_vars
Export == PrintT("CASE " \o ToJson([ops |-> Append(ops, Op("tree", No, 0))]))
=============================================================================
