------------------------------ MODULE OgdlEmit ------------------------------
(***************************************************************************)
(* The text form of a tree.  Emit is one way to write it (the one of the   *)
(* implementation); what matters is that it reads back (C02).              *)
(* Trees are in flat form (OgdlTree) with values [t |-> "s", b |-> bytes]. *)
(***************************************************************************)
EXTENDS OgdlText, OgdlTypes, OgdlTree

Pad(n) == [i \in 1 .. 2 * n |-> SP]
Special == {LF, CR, SP, TAB, SQ, DQ, COMMA, 40, 41}
NeedsQuotes(b) == \E i \in DOMAIN b : b[i] \in Special

\* The bytes of a value inside double quotes on a line of level n
QuoteBody(b, n) ==
  FoldLeft(LAMBDA acc, i :
             acc \o (CASE b[i] = CR -> <<>>
                       [] b[i] = LF -> <<LF>> \o Pad(n)
                       [] b[i] = DQ -> IF i > 1 /\ b[i - 1] = BSL THEN <<>> ELSE <<BSL, DQ>>
                       [] OTHER -> <<b[i]>>),
           <<>>, [i \in 1 .. Len(b) |-> i])

Line(b, n) ==
  IF NeedsQuotes(b) /\ n > 0 THEN Pad(n) \o <<DQ>> \o QuoteBody(b, n) \o <<DQ, LF>>
  ELSE IF NeedsQuotes(b) THEN SelectSeq(b, LAMBDA c : c # CR) \o <<LF>>
  ELSE Pad(n) \o b \o <<LF>>

\* Nodes without content are not written: their subnodes take their place.
\* up[k] is the level at which the subnodes of the last node of level k-1 are written.
EmitLines(nodes) ==
  FoldLeft(LAMBDA acc, nd :
             LET n == acc.up[nd.l + 1]
                 void == nd.v.b = <<>>
             IN [up |-> SubSeq(acc.up, 1, nd.l + 1) \o <<IF void THEN n ELSE n + 1>>,
                 out |-> IF void THEN acc.out ELSE acc.out \o Line(nd.v.b, n)],
           [up |-> <<0>>, out |-> <<>>], nodes).out
Void(nd) == nd.v.t \in {"s", "n"} /\ nd.v.b = <<>>
Solid(nodes) ==
  FoldLeft(LAMBDA acc, nd :
             LET n == acc.up[nd.l + 1] IN
             [up |-> SubSeq(acc.up, 1, nd.l + 1) \o <<IF Void(nd) THEN n ELSE n + 1>>,
              out |-> IF Void(nd) THEN acc.out ELSE Append(acc.out, [l |-> n, v |-> nd.v])],
           [up |-> <<0>>, out |-> <<>>], nodes).out
\* (in the form that shows the root, they have the name _)
Dashed(nodes) == [i \in DOMAIN nodes |-> IF Void(nodes[i]) THEN [l |-> nodes[i].l, v |-> Str_(<<95>>)] ELSE nodes[i]]
EmitText(nodes) == LET t == EmitLines(nodes) IN IF t = <<>> THEN t ELSE SubSeq(t, 1, Len(t) - 1)

(***************************************************************************)
(* Which values the text format can represent.                             *)
(***************************************************************************)
\* written as it is, at the end of a line, it is read as one plain token
PlainOK(b) == /\ b # <<>> /\ AllBytes(b, IsText)
              /\ Events(b \o <<LF, 97>>) = << [l |-> 0, k |-> "p", b |-> b], [l |-> 0, k |-> "p", b |-> <<97>>] >>
QuotedOK(b) == /\ b # <<>>
               /\ \A i \in DOMAIN b : b[i] >= 32 \/ b[i] = LF \/ b[i] = TAB
               /\ \A i \in DOMAIN b : b[i] = BSL => i < Len(b) /\ b[i + 1] \notin {BSL, DQ, SQ}
ValueOK(b, n) == IF n = 0 THEN PlainOK(b) /\ ~NeedsQuotes(b)
                 ELSE IF NeedsQuotes(b) THEN QuotedOK(b) ELSE PlainOK(b)
Representable(nodes) == \A i \in DOMAIN nodes : nodes[i].v.t = "s" /\ ValueOK(nodes[i].v.b, nodes[i].l)

\* A text means this tree
Means(text, nodes) ==
  LET ev == Events(text) IN
  /\ Len(ev) = Len(nodes)
  /\ \A i \in DOMAIN ev : ev[i].l = nodes[i].l /\ ev[i].b = nodes[i].v.b
=============================================================================
