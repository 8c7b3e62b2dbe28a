------------------------------ MODULE OgdlSort ------------------------------
(***************************************************************************)
(* Sorting the subnodes of a node by what a path has in each of them.      *)
(* Subnodes with equal keys may end in any order: the sorted node is one   *)
(* of those given by a permutation of its subnodes that orders the keys.   *)
(***************************************************************************)
EXTENDS OgdlAccess

\* [u, b, i]: the key of the node x: a text and an integer
KeyOf(h, x, path) ==
  LET w == WalkFrom(h, x, path, "get")
      v == First(w.h, w.v.id) IN
  [u |-> w.u # "" \/ w.v.t = "e", b |-> StrOf(v), i |-> IF ToInt64(v).ok THEN IntFromText(ToInt64(v).v.b) ELSE Zero]
Keys(h, x, path) == [n \in DOMAIN Kids(h, x) |-> KeyOf(h, Kids(h, x)[n], path)]
Known(keys) == \A n \in DOMAIN keys : ~keys[n].u

IsOrder(p, n) == Len(p) = n /\ {p[m] : m \in DOMAIN p} = 1 .. n
Before(a, b, kind) == IF kind = "int" THEN CmpI(a.i, b.i) <= 0 ELSE CmpBytes(a.b, b.b) <= 0
Ordered(keys, p, kind) == \A m \in 1 .. Len(p) - 1 : Before(keys[p[m]], keys[p[m + 1]], kind)
\* the heap after sorting x in the order p
SortedHeap(h, x, p) == IF x = 0 THEN h ELSE SetOut(h, x, [m \in DOMAIN p |-> Kids(h, x)[p[m]]])
=============================================================================
