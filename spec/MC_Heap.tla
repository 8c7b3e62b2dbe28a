------------------------------ MODULE MC_Heap ------------------------------
(***************************************************************************)
(* Short sequences of editing operations over two registers, after a       *)
(* preamble that builds trees with shared, equal and typed nodes.          *)
(* Checked: a clone equals its original and no operation on one side is    *)
(* seen on the other; operations that read change nothing; what an         *)
(* operation may change is only what can be reached from its operands.     *)
(* Every sequence is exported as a case for the implementation.            *)
(***************************************************************************)
EXTENDS OgdlHeap, TLC, Json
CONSTANTS MaxOps, Full

A == <<97>>  B == <<98>>  C == <<99>>
O(o, x, y, z, s, v, i) == [o |-> o, x |-> x, y |-> y, z |-> z, s |-> s, v |-> v, i |-> i]
Regs == 4
\* r1 = _(a(c), b, a, 1, b(a))   r2 = _(b(c,d?), c)   r3 = shared node b below both   r4 is nil
Preamble == <<
  O("new", 0, 0, 1, <<>>, Str_(A), 0), O("new", 0, 0, 2, <<>>, Str_(B), 0),
  O("add", 1, 0, 3, <<>>, Str_(A), 0), O("add", 3, 0, 0, <<>>, Str_(C), 0),
  O("add", 1, 0, 3, <<>>, Str_(B), 0), O("addg", 2, 3, 0, <<>>, Nil_, 0),
  O("add", 1, 0, 0, <<>>, Str_(A), 0), O("add", 1, 0, 0, <<>>, Byt_(A), 0),
  O("add", 2, 0, 0, <<>>, Str_(A), 0), O("add", 3, 0, 0, <<>>, Str_(A), 0) >>

Start == FoldLeft(LAMBDA h, o : Does(h, o).h, HeapInit(Regs), Preamble)

Live == {1, 2, 3}
Some(x, z) ==
  {O("add", x, 0, z, <<>>, v, 0) : v \in {Str_(C), Nil_}}
  \cup {O("node", x, 0, z, A, Nil_, 0), O("nodeornew", x, 0, z, C, Nil_, 0), O("nodeset", x, 0, z, A, Str_(C), 0), O("create", x, 0, z, B, Nil_, 0)}
  \cup {O("getat", x, 0, z, <<>>, Nil_, i) : i \in {-1, 0, 1, 4}}
NoReg(x) ==
  {O("delete", x, 0, 0, <<>>, v, 0) : v \in {Str_(A), Byt_(A), Str_(B)}}
  \cup {O("deleteat", x, 0, 0, <<>>, Nil_, i) : i \in {-1, 0, 1, 3, 4}}
  \cup {O("clear", x, 0, 0, <<>>, Nil_, 0), O("subst", x, 0, 0, A, Str_(C), 0), O("len", x, 0, 0, <<>>, Nil_, 0)}
Two(x, y) == {O(op, x, y, 0, A, Nil_, 0) : op \in {"addg", "addnodes", "copy", "merge", "equals", "nodesetg"}}
Ops == UNION {Some(x, 3) \cup NoReg(x) \cup {O("clone", x, 0, 4, <<>>, Nil_, 0)} : x \in IF Full THEN 1 .. 4 ELSE 1 .. 3}
       \cup UNION {Two(x, y) : x, y \in IF Full THEN 1 .. 4 ELSE 1 .. 3}

VARIABLES h, ops
vars == <<h, ops>>
Init == h = Start /\ ops = <<>>

Next == /\ Len(ops) < MaxOps
        /\ \E o \in Ops :
             /\ ~MakesCycle(h, o)
             /\ h' = Does(h, o).h /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_vars

\* A clone equals its original, shares nothing with it, and cloning changes nothing
CloneOk == \A x \in Live : h.r[x] # 0 =>
             LET c == CloneIn(h, h.r[x]) IN
             /\ Same(c.h, h.r[x], c.id)
             /\ \A i \in 1 .. Len(h.n) : c.h.n[i] = h.n[i]
             /\ \A i \in DOMAIN Reach(c.h, c.id, <<>>) : Reach(c.h, c.id, <<>>)[i] > Len(h.n)
\* Comparison is symmetric, and reflexive
EqualsOk == \A x, y \in Live : Same(h, h.r[x], h.r[y]) = Same(h, h.r[y], h.r[x]) /\ (x = y => Same(h, h.r[x], h.r[y]))
NoCycle == \A x \in Live : h.r[x] # 0 => \A c \in ToSet(Out(h, h.r[x])) : ~Contains(Reach(h, c, <<>>), h.r[x])

\* Only nodes that can be reached from the operands change, and readers change nothing
Frame == [][LET o == ops'[Len(ops')]
                x == IF o.x = 0 THEN 0 ELSE h.r[o.x] IN
            \A i \in 1 .. Len(h.n) : h'.n[i] # h.n[i] =>
               /\ o.o \in {"add", "addg", "addnodes", "nodeornew", "nodeset", "nodesetg", "create", "delete", "deleteat", "clear", "copy", "merge", "subst"}
               /\ Contains(Reach(h, x, <<>>), i) \/ (o.o = "merge" /\ Contains(Reach(h, h.r[o.y], <<>>), i))   \* nodes merged in are shared
               /\ o.o \in {"add", "addg", "addnodes", "nodeornew", "delete", "deleteat", "clear", "copy"} => i = x
               /\ o.o # "subst" => h'.n[i].v = h.n[i].v
               /\ o.o = "subst" => h'.n[i].out = h.n[i].out]_vars

Export == Len(ops) = MaxOps => PrintT("CASE " \o ToJson([regs |-> Regs, ops |-> Preamble \o ops]))
=============================================================================
