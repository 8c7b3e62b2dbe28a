------------------------------ MODULE OgdlHeap ------------------------------
(***************************************************************************)
(* Trees as they are in memory: nodes with an identity, a content and an   *)
(* ordered list of subnodes; trees can share nodes.  The state is a heap   *)
(* [n: sequence of nodes [v, out], r: registers].  A node is a position in *)
(* n; 0 is the missing tree.  Each editing operation is a function of the  *)
(* state; nothing but what it says changes.                                *)
(***************************************************************************)
EXTENDS OgdlTypes

HeapInit(regs) == [n |-> <<>>, r |-> [i \in 1 .. regs |-> 0]]

\* the text of a content (that of native objects is not specified, and no other is the same)
StrOf(v) == IF v.t \in {"u", "k"} THEN <<0>> ELSE IF v.t \in {"n", "x", "g", "e"} THEN <<>> ELSE IF v.t = "f" THEN FloatText(v.b) ELSE v.b

Out(h, x) == h.n[x].out
NewNode(h, v) == [h EXCEPT !.n = Append(@, [v |-> v, out |-> <<>>])]    \* its identity is Len(result.n)
SetOut(h, x, o) == [h EXCEPT !.n[x].out = o]
AddId(h, x, id) == SetOut(h, x, Append(Out(h, x), id))

\* the first subnode of x whose content has the text s, or 0
Named(h, x, s) == LET i == SelectInSeq(Out(h, x), LAMBDA id : StrOf(h.n[id].v) = s) IN IF i = 0 THEN 0 ELSE Out(h, x)[i]

\* Copies: the nodes below are new, one for each occurrence. Result [h, id].
RECURSIVE CloneIn(_, _)
CloneIn(h, x) ==
  LET h1 == NewNode(h, h.n[x].v)
      id == Len(h1.n) IN
  FoldLeft(LAMBDA a, c : LET b == CloneIn(a.h, c) IN [h |-> AddId(b.h, id, b.id), id |-> id],
           [h |-> h1, id |-> id], Out(h, x))

RECURSIVE Same(_, _, _)
Same(h, x, y) ==
  IF x = 0 \/ y = 0 THEN x = y
  ELSE h.n[x].v = h.n[y].v /\ Len(Out(h, x)) = Len(Out(h, y)) /\ \A i \in 1 .. Len(Out(h, x)) : Same(h, Out(h, x)[i], Out(h, y)[i])

RECURSIVE SubstIn(_, _, _, _)
SubstIn(h, x, s, v) ==
  FoldLeft(LAMBDA a, c : SubstIn(IF StrOf(a.n[c].v) = s THEN [a EXCEPT !.n[c].v = v] ELSE a, c, s, v), h, Out(h, x))

MergeIn(h, x, y) ==
  FoldLeft(LAMBDA a, c : LET m == Named(a, x, StrOf(a.n[c].v)) IN
                         IF m = 0 THEN AddId(a, x, c)
                         ELSE IF m = c THEN a
                         ELSE SetOut(a, m, Out(a, c)),
           h, Out(h, y))

RECURSIVE Reach(_, _, _)      \* nodes that can be reached from x, in the order they are found
Reach(h, x, seen) == IF x = 0 \/ Contains(seen, x) THEN seen
                     ELSE FoldLeft(LAMBDA s, c : Reach(h, c, s), Append(seen, x), Out(h, x))
\* adding z below x would make a cycle
Cyclic(h, x, z) == x # 0 /\ z # 0 /\ Contains(Reach(h, z, <<>>), x)

(***************************************************************************)
(* The operations. o: [o (name), x, y (registers used), z (register set, 0 *)
(* for none), s (text), v (content), i (number)].  Result [h, id, res]: id *)
(* is the node returned, res the number or truth value returned.           *)
(* An operation that would make a cycle is left out by the driver.         *)
(***************************************************************************)
R(h, id) == [h |-> h, id |-> id, res |-> 0]
AddValue(h, x, v) == IF x = 0 \/ v.t \in {"n", "x"} THEN R(h, 0)
                     ELSE LET h1 == NewNode(h, v) IN R(AddId(h1, x, Len(h1.n)), Len(h1.n))
AddTree(h, x, y) == IF x = 0 \/ y = 0 THEN R(h, 0) ELSE R(AddId(h, x, y), y)
NodeOrNew(h, x, s) == IF x = 0 THEN R(h, 0)
                      ELSE LET m == Named(h, x, s) IN IF m # 0 THEN R(h, m) ELSE AddValue(h, x, Str_(s))
Emptied(h, x) == IF x = 0 THEN h ELSE SetOut(h, x, <<>>)
YN(b) == IF b THEN 1 ELSE 0

HeapOp(h, o) ==
  LET x == IF o.x = 0 THEN 0 ELSE h.r[o.x]
      y == IF o.y = 0 THEN 0 ELSE h.r[o.y] IN
  CASE o.o = "new" -> LET h1 == NewNode(h, o.v) IN R(h1, Len(h1.n))
    [] o.o = "nil" -> R(h, 0)
    [] o.o = "add" -> AddValue(h, x, o.v)
    [] o.o = "addg" -> AddTree(h, x, y)
    [] o.o = "addnodes" -> IF x = 0 \/ y = 0 THEN R(h, 0) ELSE R(SetOut(h, x, Out(h, x) \o Out(h, y)), x)
    [] o.o = "node" -> R(h, IF x = 0 THEN 0 ELSE Named(h, x, o.s))
    [] o.o = "nodeornew" -> NodeOrNew(h, x, o.s)
    [] o.o = "nodeset" -> LET a == NodeOrNew(h, x, o.s) IN AddValue(Emptied(a.h, a.id), a.id, o.v)
    [] o.o = "nodesetg" -> LET a == NodeOrNew(h, x, o.s) IN AddTree(Emptied(a.h, a.id), a.id, y)
    [] o.o = "create" -> LET a == NodeOrNew(h, x, o.s) IN R(Emptied(a.h, a.id), a.id)
    [] o.o = "getat" -> R(h, IF x # 0 /\ o.i >= 0 /\ o.i < Len(Out(h, x)) THEN Out(h, x)[o.i + 1] ELSE 0)
    [] o.o = "delete" -> R(IF x = 0 THEN h ELSE SetOut(h, x, SelectSeq(Out(h, x), LAMBDA c : h.n[c].v # o.v)), 0)
    [] o.o = "deleteat" -> R(IF x # 0 /\ o.i >= 0 /\ o.i < Len(Out(h, x)) THEN SetOut(h, x, SubSeq(Out(h, x), 1, o.i) \o From(Out(h, x), o.i + 2)) ELSE h, 0)
    [] o.o = "clear" -> R(Emptied(h, x), 0)
    [] o.o = "copy" -> IF x = 0 \/ y = 0 THEN R(h, 0)
                       ELSE LET c == CloneIn(h, y) IN R(SetOut(c.h, x, Out(c.h, x) \o Out(c.h, c.id)), 0)
    [] o.o = "clone" -> IF x = 0 THEN R(h, 0) ELSE LET c == CloneIn(h, x) IN R(c.h, c.id)
    [] o.o = "merge" -> R(IF x = 0 \/ y = 0 THEN h ELSE MergeIn(h, x, y), 0)
    [] o.o = "subst" -> R(IF x = 0 THEN h ELSE SubstIn(h, x, o.s, o.v), 0)
    [] o.o = "len" -> [h |-> h, id |-> 0, res |-> IF x = 0 THEN -1 ELSE Len(Out(h, x))]
    [] o.o = "equals" -> [h |-> h, id |-> 0, res |-> YN(Same(h, x, y))]

Does(h, o) == LET a == HeapOp(h, o) IN [a EXCEPT !.h = IF o.z = 0 THEN a.h ELSE [a.h EXCEPT !.r[o.z] = a.id]]
\* would the operation make a cycle (nothing can be done with such a tree)
MakesCycle(h, o) ==
  LET x == IF o.x = 0 THEN 0 ELSE h.r[o.x]
      y == IF o.y = 0 THEN 0 ELSE h.r[o.y] IN
  CASE o.o = "addg" -> Cyclic(h, x, y)
    [] o.o = "addnodes" -> x # 0 /\ y # 0 /\ \E i \in DOMAIN Out(h, y) : Cyclic(h, x, Out(h, y)[i])
    [] o.o = "nodesetg" -> x # 0 /\ y # 0 /\ Cyclic(h, IF Named(h, x, o.s) = 0 THEN x ELSE Named(h, x, o.s), y)
    [] o.o = "merge" -> x # 0 /\ y # 0 /\ \E i \in DOMAIN Reach(h, y, <<>>) : (Contains(Reach(h, x, <<>>), Reach(h, y, <<>>)[i]))
    [] OTHER -> FALSE

\* The state as seen from the registers: the nodes that can be reached, numbered
\* in the order in which they are found, with their contents and subnodes.
Canon(h) ==
  LET order == FoldLeft(LAMBDA s, x : Reach(h, x, s), <<>>, h.r)
      num == [x \in 1 .. Len(h.n) |-> SelectInSeq(order, LAMBDA y : y = x)] IN
  [r |-> [i \in DOMAIN h.r |-> IF h.r[i] = 0 THEN 0 ELSE num[h.r[i]]],
   n |-> [i \in DOMAIN order |-> [v |-> h.n[order[i]].v, o |-> [k \in DOMAIN Out(h, order[i]) |-> num[Out(h, order[i])[k]]]]]]
=============================================================================
