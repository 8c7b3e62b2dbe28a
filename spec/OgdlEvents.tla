----------------------------- MODULE OgdlEvents -----------------------------
(***************************************************************************)
(* Building a tree from events (C23): nodes are added at a level, the      *)
(* current one or one that is told, and the last one added can be taken    *)
(* back.  The state is [items: sequence of [l (level), v (content)], cur]. *)
(* A node belongs below the last node before it one level above it; where  *)
(* there is none, neither it nor what comes below it is in the tree.       *)
(***************************************************************************)
EXTENDS OgdlHeap

EvInit == [items |-> <<>>, cur |-> 0]
EvAdd(s, l, v) == [s EXCEPT !.items = Append(@, [l |-> l, v |-> v])]
\* o: [o (name), v (content), l (level)]
EvOp(s, o) ==
  CASE o.o \in {"add", "addb", "addi", "emit"} -> EvAdd(s, s.cur, o.v)
    [] o.o \in {"addat", "addbat"} -> EvAdd(s, o.l, o.v)
    [] o.o = "delete" -> [s EXCEPT !.items = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
    [] o.o = "set" -> [s EXCEPT !.cur = o.l]
    [] o.o \in {"inc", "pinc"} -> [s EXCEPT !.cur = @ + 1]
    [] o.o \in {"dec", "pdec"} -> [s EXCEPT !.cur = IF @ > 0 THEN @ - 1 ELSE 0]
    [] OTHER -> s      \* "tree", "level"

\* [h, at]: the heap, whose node 1 is the root; at[l + 1] the last node at level l - 1 (0: none)
Built(s) ==
  FoldLeft(LAMBDA a, it :
             LET h1 == NewNode(a.h, it.v)
                 id == Len(h1.n)
                 up == IF it.l + 1 \in DOMAIN a.at THEN a.at[it.l + 1] ELSE 0 IN
             [h |-> IF up = 0 THEN h1 ELSE AddId(h1, up, id),
              at |-> [l \in 1 .. (IF it.l + 2 > Len(a.at) THEN it.l + 2 ELSE Len(a.at)) |->
                        IF l = it.l + 2 THEN id ELSE IF l \in DOMAIN a.at THEN a.at[l] ELSE 0]],
           [h |-> NewNode(HeapInit(0), Str_(<<95>>)), at |-> <<1>>], s.items)
RECURSIVE Flattened(_, _, _)
Flattened(h, x, l) == FoldLeft(LAMBDA a, c : a \o <<[l |-> l, v |-> h.n[c].v]>> \o Flattened(h, c, l + 1), <<>>, Out(h, x))
EvTree(s) == Flattened(Built(s).h, 1, 0)
\* levels without gaps: every node has its place at once
Steady(s) == \A i \in DOMAIN s.items : s.items[i].l <= IF i = 1 THEN 0 ELSE s.items[i - 1].l + 1
=============================================================================
