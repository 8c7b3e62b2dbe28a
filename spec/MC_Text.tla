------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* The text machine fed with every byte of a small alphabet.  Two configs: *)
(*  MC_Text.cfg    all texts up to MaxLen, invariants on every state;      *)
(*  MC_TextCov.cfg one text for each transition of the abstract machine    *)
(*                 (VIEW), printed as a case for the implementation.       *)
(***************************************************************************)
EXTENDS OgdlText, OgdlTree, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxInd

VARIABLES text, s
vars == <<text, s>>
Init == text = <<>> /\ s = TextInit
Feed(c) == /\ Len(text) < MaxLen
           /\ s.m # "done"
           /\ text' = Append(text, c)
           /\ s' = TextStep(s, c)
Next == \E c \in Alphabet : Feed(c)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
AtEnd(x) == TextStep(x, EOS)
\* (a line with nothing but a comma can leave the lines below it without parent)
Orphans == HasByte(text, COMMA) \/ NoOrphans(AtEnd(s))
Stack  == StackOrdered(s)
Plain  == PlainTokens(AtEnd(s))
Ends   == AtEnd(s).m = "done"
Grow   == [][Monotone(s, s')]_vars
\* Placing is the identity on trees, and always gives a tree
Placed == IsTree(Place(AtEnd(s).ev))
\* A comment line or an empty line changes nothing
Neutral == s.m = "bol" /\ s.ns + s.nt = 0 =>
             /\ FoldLeft(TextStep, s, <<HASH, SP, 97, LF>>) = s
             /\ FoldLeft(TextStep, s, <<LF>>) = s
             /\ FoldLeft(TextStep, s, <<SP, SP, CR, LF>>) = s
             /\ FoldLeft(TextStep, s, <<SP, HASH, TAB, LF>>) = s

\* -------------------------------------------------------------- coverage
Cap(n, k) == IF n > k THEN k ELSE n
Abs == << s.m, s.st, s.ns, s.nt, Cap(s.dep, 2), s.q, s.esc, Cap(Len(s.b), 2), Cap(Len(s.ev), 1),
          IF s.ev = <<>> THEN "" ELSE s.ev[Len(s.ev)].k >>
Small == Len(s.st) <= 3 /\ s.ns + s.nt <= MaxInd /\ (\A i \in DOMAIN s.st : s.st[i] <= MaxInd)
\* What can follow the transition: the rest of the line, a deeper one and a less deep one
Tails == { <<>>, <<97, 10, 32, 98>>, <<34, 32, 98, 10, 99>>, <<10, 32, 32, 98, 32, 99, 10, 32, 100>> }
Cover == \A t \in Tails : PrintT("CASE " \o ToJson([text |-> text' \o t, types |-> FALSE, api |-> Len(text') % 4]))
=============================================================================
