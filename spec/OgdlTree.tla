------------------------------ MODULE OgdlTree ------------------------------
(***************************************************************************)
(* Trees in flat form: the sequence of their nodes in depth first order,   *)
(* each a record with a level l (0 for the direct subnodes of the root).   *)
(***************************************************************************)
EXTENDS OgdlBytes

\* The sequence is a tree: every node has a parent right above it
IsTree(n) == /\ n # <<>> => n[1].l = 0
             /\ \A i \in 1 .. Len(n) - 1 : n[i + 1].l <= n[i].l + 1
             /\ \A i \in DOMAIN n : n[i].l >= 0

\* A sequence of nodes found one after the other with any level forms this
\* tree: each node belongs to the last node found one level above it, and is
\* lost if there is none.
ParentOf(n, i) ==
  IF n[i].l = 0 THEN 0
  ELSE LET up == SelectLastInSubSeq(n, 1, i - 1, LAMBDA x : x.l = n[i].l - 1) IN
       IF up = 0 THEN -1 ELSE up
RECURSIVE PlaceBelow(_, _, _)
PlaceBelow(n, par, p) ==
  FlatCat([x \in 1 .. Len(SelectSeq([y \in 1 .. Len(n) |-> y], LAMBDA y : par[y] = p)) |->
             LET i == SelectSeq([y \in 1 .. Len(n) |-> y], LAMBDA y : par[y] = p)[x]
             IN <<n[i]>> \o PlaceBelow(n, par, i)])
Place(n) == IF IsTree(n) THEN n
            ELSE PlaceBelow(n, [i \in DOMAIN n |-> ParentOf(n, i)], 0)

\* The nodes below node i (their levels as they are)
RECURSIVE EndOf(_, _, _)
EndOf(n, l, i) == IF i <= Len(n) /\ n[i].l > l THEN EndOf(n, l, i + 1) ELSE i - 1
Below(n, i) == SubSeq(n, i + 1, EndOf(n, n[i].l, i + 1))
=============================================================================
