----------------------------- MODULE MC_Syntax -----------------------------
(***************************************************************************)
(* All expressions of up to MaxOps operators over a pool of operands.      *)
(* Checked: the reader of OgdlSyntax gives them the structure that a       *)
(* machine with two stacks gives, blanks or not; the text with all the     *)
(* parentheses has the same structure.                                     *)
(* Every expression is exported, to be evaluated by the implementation.    *)
(***************************************************************************)
EXTENDS OgdlSyntax, Json, TLC
CONSTANTS MaxOps, Every     \* beyond one operator, one operand for each, and one in Every of these

Operand(b) == [b |-> b, a |-> UnaryAt(b, 1).a]
Pool == << Operand(<<55>>), Operand(<<97>>), Operand(<<34,50,34>>), Operand(<<49,46,53>>), Operand(<<45,98>>), Operand(<<33,116>>), Operand(<<122>>), Operand(<<34,120,34>>), Operand(<<45,51>>), Operand(<<98,46,99,91,48,93>>), Operand(<<48>>) >>   \* 7 a "2" 1.5 -b !t z "x" -3 b.c[0] 0
BinOps == {i \in DOMAIN Ops : Ops[i].p > 0}

VARIABLES a, o       \* operands and operators
vars == <<a, o>>
Init == a \in {<<i>> : i \in DOMAIN Pool} /\ o = <<>>
Next == /\ Len(o) < MaxOps
        /\ \E x \in BinOps, i \in DOMAIN Pool :
             /\ IF o = <<>> THEN TRUE ELSE i = 1 + ((a[1] + 2 * Len(o) + x) % Len(Pool)) /\ (3 * x + o[1] + a[1] + a[Len(a)]) % Every = 0
             /\ a' = Append(a, i) /\ o' = Append(o, x)
Spec == Init /\ [][Next]_vars

\* text with s around operators
RECURSIVE TextOf(_, _, _)
TextOf(x, y, s) == IF y = <<>> THEN Pool[x[1]].b ELSE Pool[x[1]].b \o s \o Ops[y[1]].b \o s \o TextOf(Tail(x), Tail(y), s)

\* Two stacks: an operator waits on its stack while one that binds tighter may follow
Bin(op, l, r) == [k |-> "bin", o |-> Ops[op].o, a |-> l, b |-> r]
Pop(s) == LET n == Len(s.v) IN
          [v |-> Append(SubSeq(s.v, 1, n - 2), Bin(s.o[Len(s.o)], s.v[n - 1], s.v[n])), o |-> Front(s.o)]
RECURSIVE PopWhile(_, _)
PopWhile(s, p) == IF s.o # <<>> /\ Ops[s.o[Len(s.o)]].p >= p THEN PopWhile(Pop(s), p) ELSE s
Yard(x, y) ==
  LET s == FoldLeft(LAMBDA z, i : LET w == PopWhile(z, Ops[y[i]].p) IN [v |-> Append(w.v, Pool[x[i + 1]].a), o |-> Append(w.o, y[i])],
                    [v |-> <<Pool[x[1]].a>>, o |-> <<>>], [i \in DOMAIN y |-> i]) IN
  PopWhile(s, 0).v[1]

\* the text of a tree with all its parentheses; and a tree without the marks of these
RECURSIVE Paren(_), Strip(_)
LeafText(t) == LET i == SelectInSeq(Pool, LAMBDA p : p.a = t) IN Pool[i].b
Paren(t) == IF t.k = "bin" THEN <<40>> \o Paren(t.a) \o (CHOOSE x \in ToSet(Ops) : x.o = t.o).b \o Paren(t.b) \o <<41>> ELSE LeafText(t)
Strip(t) == CASE t.k = "grp" -> Strip(t.a) [] t.k = "bin" -> [t EXCEPT !.a = Strip(t.a), !.b = Strip(t.b)] [] OTHER -> t

ReadOk == LET e == Expr(TextOf(a, o, <<>>)) IN e.ok /\ e.a = Yard(a, o)
BlanksOk == Expr(TextOf(a, o, <<32>>)) .a = Yard(a, o) /\ Expr(TextOf(a, o, <<9, 32>>)).ok
ParenOk == LET e == Expr(Paren(Yard(a, o))) IN e.ok /\ Strip(e.a) = Yard(a, o)

N(l, b) == [l |-> l, v |-> [t |-> "s", b |-> b, g |-> ""]]
I(l, b) == [l |-> l, v |-> [t |-> "i", b |-> b, g |-> "int64"]]
\* a 6; b 4, c 3 5; t true
Root == << N(0, <<97>>), I(1, <<54>>), N(0, <<98>>), I(1, <<52>>), N(0, <<116>>), N(1, <<116,114,117,101>>) >>
Root2 == << N(0, <<97>>), N(1, <<54>>), N(0, <<98>>), N(1, <<99>>), I(2, <<51>>), I(2, <<53>>), N(0, <<116>>), [l |-> 1, v |-> [t |-> "o", b |-> <<102,97,108,115,101>>, g |-> ""]] >>
Op(t) == [o |-> "eval", s |-> t, p |-> <<>>, v |-> [t |-> "n", b |-> <<>>, g |-> ""], n |-> <<>>]
Export == PrintT("CASE " \o ToJson([root |-> IF (a[1] + Len(o)) % 2 = 0 THEN Root ELSE Root2,
                                    ops |-> << Op(TextOf(a, o, <<>>)), Op(TextOf(a, o, <<32>>)), Op(Paren(Yard(a, o))) >>]))
=============================================================================
