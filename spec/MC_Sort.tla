------------------------------ MODULE MC_Sort ------------------------------
(***************************************************************************)
(* Records with keys of a pool, sorted by a machine that swaps neighbours  *)
(* that are out of order, in any sequence.  Checked: it keeps all records, *)
(* and where it ends, and only there, they are ordered.                    *)
(* Every sequence of keys is exported, with each kind of sort.             *)
(***************************************************************************)
EXTENDS OgdlSort, Json, TLC
CONSTANT MaxLen

Key == Str_(<<107>>)
Pool == << Str_(<<97>>), Str_(<<66>>), Str_(<<49,48>>), Str_(<<57>>), Str_(<<45,49>>), Str_(<<>>), Str_(<<195,169>>), [t |-> "i", b |-> <<49,48>>, g |-> "int64"], [t |-> "i", b |-> <<45,50>>, g |-> "int"],
           [t |-> "f", b |-> <<50,46,53,101,43,48,48>>, g |-> "float64"], Byt_(<<57>>), Bool_(TRUE), Nil_, Str_(<<97,98>>) >>
None == Len(Pool) + 1      \* no field

VARIABLES ks, kind, p
vars == <<ks, kind, p>>
Kinds == {"", "string", "int"}
Init == kind \in Kinds /\ ks \in UNION {[1 .. n -> 1 .. None] : n \in 0 .. MaxLen} /\ p = [i \in DOMAIN ks |-> i]

Nodes == FlatCat([i \in DOMAIN ks |-> <<[l |-> 0, v |-> Str_(<<114>>)]>> \o (IF ks[i] = None THEN <<>> ELSE <<[l |-> 1, v |-> Key], [l |-> 2, v |-> Pool[ks[i]]]>>)])
Path_ == <<[k |-> "name", b |-> <<107>>]>>
Heap == Plant(HeapInit(0), Str_(<<95>>), Nodes).h
KeysOf == Keys(Heap, 1, Path_)
Swap(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
Next == \E i \in 1 .. Len(p) - 1 : /\ ~Before(KeysOf[p[i]], KeysOf[p[i + 1]], kind)
                                   /\ p' = Swap(p, i) /\ UNCHANGED <<ks, kind>>
Spec == Init /\ [][Next]_vars

Kept == IsOrder(p, Len(ks)) /\ Known(KeysOf)
Ends == (~ENABLED Next) <=> Ordered(KeysOf, p, kind)
Export == p = [i \in DOMAIN ks |-> i] => PrintT("CASE " \o ToJson([root |-> Nodes, ops |-> <<>>, at |-> <<>>, field |-> <<107>>, kind |-> kind]))
=============================================================================
